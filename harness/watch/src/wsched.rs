//! Runs calls of several threads in chosen interleavings of their field operations.
//! Every run happens in a fresh copy of a process that has made no call yet.
//!
//!   def X w..
//!   count K N X                   : field operations of one call
//!   sweep FROM TO BY | calls | before | plan | after
//!     calls    T K N X ; ..       : what thread T (0, 1, ..) calls, in order
//!     before, after  K N X ; ..   : calls of the main thread
//!     plan     T BASE COEF ..     : T's turn lasts BASE + COEF * k operations
//!                                   (all: until it is done); k runs from FROM to TO
//! K is hash, opt or unopt (on a fresh instance).  Reported: the different results
//! each call gave, each with the first k that gave it.
use std::collections::HashMap;
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
use vnative::rates::*;
use vnative::*;
mod turn;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// what f says in a copy of this process
fn apart(f: impl FnOnce() -> String) -> Option<String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "HARNESS pipe");
        let p = fork();
        assert!(p >= 0, "HARNESS fork");
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut w = std::fs::File::from_raw_fd(fds[1]);
        if p == 0 {
            alarm(100);
            let s = f();
            let ok = w.write_all(s.as_bytes()).and_then(|_| w.flush()).is_ok();
            _exit(if ok { 0 } else { 1 });
        }
        drop(w);
        let mut s = String::new();
        let read = r.read_to_string(&mut s);
        let mut st = 0;
        waitpid(p, &mut st, 0);
        if st == 0 && read.is_ok() { Some(s) } else { None }
    }
}

#[derive(Clone)]
struct Call { kind: String, n: usize, x: String, words: Vec<Fq> }
fn call(c: &Call) -> String {
    let keep: Vec<[u8; 32]> = c.words.iter().map(|x| x.to_bytes_le()).collect();
    let (r, st) = if c.kind == "hash" { (guard(|| hash(c.n, &c.words)), vec![]) } else {
        let mut i = new_inst(c.n);
        let r = guard(|| i.call(c.kind == "opt", &c.words));
        (r, i.out())
    };
    let kept = keep == c.words.iter().map(|x| x.to_bytes_le()).collect::<Vec<_>>();
    format!("{{\"out\":{},\"st\":{},\"kept\":{}}}", res(r), row(&st), kept)
}

fn list<'a>(p: &[&'a str]) -> Vec<Vec<&'a str>> {
    p.split(|x| *x == ";").filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect()
}

fn main() {
    quiet_panics();
    Fq::on_step(turn::point);
    let mut defs: HashMap<String, Vec<Fq>> = HashMap::new();
    // runs that got stuck take long: after some of them, only a few runs per sweep
    let mut stuck = 0;
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.expect("HARNESS stdin");
        let w: Vec<&str> = line.split_ascii_whitespace().collect();
        if w.is_empty() { continue; }
        let parse = |w: &[&str]| Call { kind: w[0].into(), n: w[1].parse().expect("HARNESS rate"), x: w[2].into(), words: defs.get(w[2]).expect("HARNESS input").clone() };
        match w[0] {
            "def" => { defs.insert(w[1].into(), w[2..].iter().map(|s| fq(s)).collect()); }
            "count" => {
                let c = parse(&w[1..]);
                let s = apart(|| { call(&c); let a = turn::COUNT.with(|c| c.get()); a.to_string() });
                writeln!(out, "{{\"op\":\"count\",\"n\":{},\"k\":{},\"steps\":{}}}", c.n, q(&c.kind), s.unwrap_or("0".into())).unwrap();
            }
            "sweep" => {
                let part: Vec<Vec<&str>> = w.split(|x| *x == "|").map(|p| p.to_vec()).collect();
                let num = |s: &str| s.parse::<u64>().expect("HARNESS number");
                let (from, to, by) = (num(part[0][1]), num(part[0][2]), num(part[0][3]));
                let calls: Vec<(usize, Call)> = list(&part[1]).iter().map(|c| (num(c[0]) as usize, parse(&c[1..]))).collect();
                let before: Vec<Call> = list(&part[2]).iter().map(|c| parse(c)).collect();
                let after: Vec<Call> = list(&part[4]).iter().map(|c| parse(c)).collect();
                let threads = calls.iter().map(|c| c.0).max().unwrap() + 1;
                let all: Vec<&Call> = before.iter().chain(calls.iter().map(|c| &c.1)).chain(after.iter()).collect();
                let mut seen: Vec<Vec<(String, u64)>> = vec![Vec::new(); all.len()];
                let (mut runs, mut freed, mut lost) = (0, 0, Vec::new());
                let mut k = from;
                while runs == 0 || (k <= to && (stuck < 60 || runs < 2)) {
                    let plan: Vec<(usize, u64)> = part[3].chunks(3).map(|c| (num(c[0]) as usize, if c[1] == "all" { turn::ALL } else {
                        let v = c[1].parse::<i64>().expect("HARNESS number") + c[2].parse::<i64>().expect("HARNESS number") * k as i64;
                        v.max(0) as u64
                    })).collect();
                    runs += 1;
                    let s = apart(|| {
                        let mut o: Vec<String> = before.iter().map(call).collect();
                        let jobs: Vec<Box<dyn FnOnce() -> Vec<String> + Send>> = (0..threads).map(|t| {
                            let own: Vec<Call> = calls.iter().filter(|c| c.0 == t).map(|c| c.1.clone()).collect();
                            let f: Box<dyn FnOnce() -> Vec<String> + Send> = Box::new(move || own.iter().map(call).collect());
                            f
                        }).collect();
                        let (r, free) = turn::run(jobs, plan);
                        let mut r: Vec<_> = r.into_iter().map(|v| v.into_iter()).collect();
                        for c in &calls { o.push(r[c.0].next().unwrap()); }
                        o.extend(after.iter().map(call));
                        format!("{}\n{}", if free { "free" } else { "kept" }, o.join("\n"))
                    });
                    match s {
                        None => if lost.len() < 5 { lost.push(k) },
                        Some(s) => {
                            let mut l = s.split('\n');
                            if l.next() == Some("free") { freed += 1; stuck += 1; }
                            for (j, o) in l.enumerate() {
                                if seen[j].len() < 5 && !seen[j].iter().any(|x| x.0 == o) { seen[j].push((o.into(), k)); }
                            }
                        }
                    }
                    k += by;
                }
                let c: Vec<String> = all.iter().map(|c| format!("{{\"k\":{},\"n\":{},\"in\":{}}}", q(&c.kind), c.n, q(&c.x))).collect();
                let o: Vec<String> = seen.iter().map(|v| arr(&v.iter().map(|x| &x.0).collect::<Vec<_>>())).collect();
                let f: Vec<String> = seen.iter().map(|v| arr(&v.iter().map(|x| x.1.to_string()).collect::<Vec<_>>())).collect();
                let lost: Vec<String> = lost.iter().map(|k: &u64| k.to_string()).collect();
                writeln!(out, "{{\"op\":\"sweep\",\"runs\":{},\"freed\":{},\"lost\":{},\"plan\":{},\"calls\":{},\"outs\":{},\"first\":{}}}",
                    runs, freed, arr(&lost), q(&part[3].join(" ")), arr(&c), arr(&o), arr(&f)).unwrap();
            }
            x => panic!("HARNESS unknown command {}", x),
        }
    }
}
