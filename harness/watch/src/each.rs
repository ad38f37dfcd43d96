//! Answers every line of the input in a process of its own.
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

/// `one` gets the words of a line, the first of which is its id
pub fn each(one: impl Fn(&[String]) -> String) {
    vnative::quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if !args.is_empty() {
        println!("{}", one(&args));
        return;
    }
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("HARNESS stdin");
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let out: Vec<std::sync::Mutex<String>> = lines.iter().map(|_| Default::default()).collect();
    let at = AtomicUsize::new(0);
    let me = std::env::current_exe().expect("HARNESS exe");
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = at.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() { return; }
                let o = Command::new(&me).args(lines[i].split_whitespace()).stdin(Stdio::null()).output().expect("HARNESS spawn");
                let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
                let e = String::from_utf8_lossy(&o.stderr).to_string();
                if e.contains("HARNESS") { eprintln!("{}", e); std::process::exit(3); }
                *out[i].lock().unwrap() = if o.status.success() { t } else {
                    format!("{{\"id\":{},\"fail\":\"process ended\",\"total\":0,\"looks\":[],\"degree\":0,\"out\":[]}}", vnative::q(lines[i].split(' ').next().unwrap()))
                };
            });
        }
    });
    let mut w = std::io::stdout().lock();
    for o in out { writeln!(w, "{}", o.lock().unwrap()).unwrap(); }
}

const CAP: usize = 600;
/// the looks so far, as fields of an answer
pub fn looks() -> String {
    let l = vnative::Fq::seen();
    let v: Vec<String> = l.iter().take(CAP).map(|o| format!("[{},{},{}]", vnative::q(if o.seen { "T" } else { "F" }), vnative::q(o.kind), vnative::qx(&o.a.sub(&o.b)))).collect();
    format!("\"total\":{},\"looks\":{},\"degree\":{}", l.len(), vnative::arr(&v), vnative::Fq::degree())
}
