//! Runs histories of the matrix harness on marked entries and reports the looks.
//!   ID COMMAND [; COMMAND]...
#[path = "../../native/src/bin/mat.rs"]
mod mat;
mod each;
use vnative::*;

fn main() {
    each::each(|w| {
        let mut m = mat::machine();
        Fq::watch();
        Fq::pause();
        Fq::degree();
        let mut fail = String::new();
        for c in w[1..].split(|s| s == ";") {
            let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let r = m(&c);
            if r.contains("\"fail\":\"panic") { fail = "panic".into(); }
        }
        format!("{{\"id\":{},\"fail\":{},{},\"out\":[]}}", q(&w[0]), q(&fail), each::looks())
    });
}
