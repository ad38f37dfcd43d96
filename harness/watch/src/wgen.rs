//! Runs parameter sets of the generic harness on marked parameters and words and reports the looks.
//!   ID COMMAND [; COMMAND]...
#[path = "../../r1cs/src/bin/generic.rs"]
mod generic;
mod each;
use vnative::*;

fn main() {
    each::each(|w| {
        generic::MARK.store(true, std::sync::atomic::Ordering::Relaxed);
        let mut m = generic::machine();
        Fq::watch();
        Fq::pause();
        Fq::degree();
        let mut fail = String::new();
        for c in w[1..].split(|s| s == ";") {
            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let r = m(&c);
            if r.contains("\"fail\":\"panic") { fail = "panic".into(); }
        }
        format!("{{\"id\":{},\"fail\":{},{},\"out\":[]}}", q(&w[0]), q(&fail), each::looks())
    });
}
