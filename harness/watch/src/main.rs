//! Runs calls on marked inputs and reports what the code looked at.
//!   ID CALL N WORDS [; CALL N WORDS]...
//! CALL: hash, opt, unopt (fresh instance), iopt, iunopt (the session's instance
//! of that rate) or circ:MODES (c, i, w per word).  Every line is a session in a
//! process of its own; the looks are those of its last call.
use std::collections::HashMap;
use vnative::rates::*;
use vnative::*;
mod each;
mod record;
// circuits are watched in one configuration only
#[cfg(feature = "circuits")]
mod circuit;
#[cfg(feature = "circuits")]
mod gadgets;

/// words of one session
fn session(w: &[String]) -> String {
    let id = &w[0];
    let calls: Vec<&[String]> = w[1..].split(|s| s == ";").collect();
    let mut inst: HashMap<usize, Box<dyn Inst>> = HashMap::new();
    let mut last = String::new();
    for (k, c) in calls.iter().enumerate() {
        let on = k + 1 == calls.len();
        let n: usize = c[1].parse().unwrap();
        let x: Vec<Fq> = c[2..].iter().map(|s| if on { fq(s).mark() } else { fq(s) }).collect();
        if c[0].starts_with("i") { inst.entry(n).or_insert_with(|| new_inst(n)); }
        let mut fresh = if c[0].ends_with("opt") && !c[0].starts_with("i") { Some(new_inst(n)) } else { None };
        if on { Fq::watch(); }
        let r = guard(|| match c[0].as_str() {
            "hash" => vec![hash(n, &x)],
            "iopt" | "iunopt" => vec![inst.get_mut(&n).unwrap().call(c[0] == "iopt", &x)],
            "opt" | "unopt" => vec![fresh.as_mut().unwrap().call(c[0] == "opt", &x)],
            #[cfg(feature = "circuits")]
            c => gadgets::circ(n, &c[5..], &x),
            #[cfg(not(feature = "circuits"))]
            _ => panic!("HARNESS call"),
        });
        let l = each::looks();
        if !on { continue; }
        let (out, fail) = match r {
            Ok(o) => (o.into_iter().map(|x| x.unmark()).collect::<Vec<_>>(), String::new()),
            Err(m) => { if m.contains("HARNESS") { panic!("{}", m) } (vec![], m) }
        };
        last = format!("{{\"id\":{},\"fail\":{},{},\"out\":{}}}", q(id), q(&fail), l, row(&out));
    }
    last
}

/// the operations one call performs on its input words
///   trace CALL N WORDS
fn trace(w: &[String]) -> String {
    let n: usize = w[1].parse().unwrap();
    let x: Vec<Fq> = w[2..].iter().map(|s| fq(s)).collect();
    let mut i = new_inst(n);
    match w[0].as_str() {
        "hash" => record::native(n, "hash", x, |x| vec![hash(n, x)]),
        "opt" | "unopt" => record::native(n, &w[0], x, |x| { let r = i.call(w[0] == "opt", x); let mut o = i.out(); o.push(r); o }),
        #[cfg(feature = "circuits")]
        c => circuit::circuit(n, &c[5..], x, |cs, x| gadgets::circ_in(cs, n, &c[5..], x)),
        #[cfg(not(feature = "circuits"))]
        _ => panic!("HARNESS call"),
    }
}

fn main() {
    each::each(|args| if args[0] == "trace" { trace(&args[1..]) } else { session(args) });
}
