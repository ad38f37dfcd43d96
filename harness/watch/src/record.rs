//! Records the field operations a call performs on its input words.
use vnative::*;

/// operand: <<1, register>> or <<0, numeral>>
fn re(a: &Fq) -> String { if a.id() == 0 { format!("0,{}", qx(&a.unmark())) } else { format!("1,{}", a.id()) } }
pub fn refs(x: &[Fq]) -> String { arr(&x.iter().map(|a| format!("[{}]", re(a))).collect::<Vec<_>>()) }

pub fn note(n: usize, call: &str, nin: usize, x: &[Fq], looks: usize, r: Result<Vec<Fq>, String>, more: String) -> String {
    let ops = Fq::recorded();
    let lines: Vec<String> = ops.iter().skip(nin).map(|o| format!("[{},{},{}]", q(o.0), re(&o.1), re(&o.2))).collect();
    let (out, fail) = match r {
        Ok(o) => (o, String::new()),
        Err(m) => { if m.contains("HARNESS") { panic!("{}", m) } (vec![], m) }
    };
    format!("{{\"n\":{},\"call\":{},\"fail\":{},\"looks\":{},\"words\":{},\"ops\":{}{},\"out\":{}}}", n, q(call), q(&fail), looks,
        refs(x), arr(&lines), more, refs(&out))
}

pub fn native(n: usize, call: &str, mut x: Vec<Fq>, f: impl FnOnce(&[Fq]) -> Vec<Fq>) -> String {
    Fq::record(&mut x);
    Fq::watch();
    let r = guard(|| f(&x));
    let looks = Fq::seen().len();
    note(n, call, x.len(), &x, looks, r, String::new())
}
