//! Shared plumbing of the native harnesses: text commands in, JSON events out.
pub use decaf377::Fq;
use std::fmt::Write as _;
pub mod hashing;
pub mod rates;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Field element from a hexadecimal numeral (reduced).
pub fn fq(h: &str) -> Fq {
    let mut b = [0u8; 64];
    let d: Vec<u8> = h.bytes().rev().map(|c| (c as char).to_digit(16).expect("HARNESS hex") as u8).collect();
    for (i, v) in d.iter().enumerate() {
        b[i / 2] |= v << (4 * (i % 2));
    }
    let n = (d.len() + 1) / 2;
    let n = if n < 32 { 32 } else { n };
    Fq::from_le_bytes_mod_order(&b[..n])
}

/// Canonical hexadecimal numeral of a field element.
pub fn hx(x: &Fq) -> String {
    let b = x.to_bytes_le();
    let mut s = String::new();
    for v in b.iter().rev() {
        let _ = write!(s, "{:02x}", v);
    }
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

/// Is the element equal to its own canonical re-reading?
pub fn canonical(x: &Fq) -> bool {
    Fq::from_le_bytes_mod_order(&x.to_bytes_le()) == *x
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn qx(x: &Fq) -> String { q(&hx(x)) }
pub fn arr<T: AsRef<str>>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|s| s.as_ref().to_string()).collect::<Vec<_>>().join(","))
}
pub fn row(v: &[Fq]) -> String { arr(&v.iter().map(qx).collect::<Vec<_>>()) }
pub fn rows(v: &[Fq], cols: usize) -> String {
    arr(&v.chunks(cols).map(row).collect::<Vec<_>>())
}

/// Run f; a panic of the code under test is an observation, not a failure here.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("HARNESS") { eprintln!("{}", m); }
    }));
}

pub fn res(r: Result<Fq, String>) -> String {
    match r { Ok(x) => qx(&x), Err(m) => q(&format!("panic: {}", m)) }
}

/// A command that makes no progress for this long means the code under test hangs.
const HANG_SECS: u64 = 150;

static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Something was done.
pub fn progress() { STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }

/// Read commands from stdin, write one event per command.
pub fn serve(mut f: impl FnMut(&[&str]) -> String) {
    use std::io::{BufRead, Write};
    use std::sync::atomic::Ordering;
    quiet_panics();
    std::thread::spawn(|| {
        let (mut last, mut idle) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = STEPS.load(Ordering::Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > HANG_SECS { std::process::exit(97); }
        }
    });
    let flush = std::env::var("VFLUSH").is_ok();
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 20, out.lock());
    for line in stdin.lock().lines() {
        let line = line.expect("HARNESS stdin");
        let w: Vec<&str> = line.split_ascii_whitespace().collect();
        progress();
        if w.is_empty() { continue; }
        let r = f(&w);
        if r.is_empty() { continue; }
        writeln!(out, "{}", r).expect("HARNESS stdout");
        if flush { out.flush().expect("HARNESS stdout"); }
    }
}
