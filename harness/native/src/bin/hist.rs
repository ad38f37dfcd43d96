//! History harness: live instances, repeated calls, concurrent threads.
//!
//!   def X w..                              : name an input
//!   new I N | drop I | call I opt|unopt X | read I | hash N X | digest N
//!   repeat I|- opt|unopt|hash N K X..      : K rounds over the inputs
//!   reset                                  : forget all instances
//!   @T <command>                           : queue a command for thread T
//!   go                                     : run the queued threads, events in their order
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::sync::atomic::AtomicUsize;
use vnative::rates::*;
use vnative::*;

type Slot = Arc<Mutex<(usize, Box<dyn Inst>)>>;
#[derive(Clone, Default)]
struct World {
    live: Arc<Mutex<HashMap<String, Slot>>>,
    defs: Arc<Mutex<HashMap<String, Vec<Fq>>>>,
}
static SEQ: AtomicU64 = AtomicU64::new(0);

fn one(w: &World, c: &[String], seq: &mut u64) -> String {
    let slot = |i: &str| w.live.lock().unwrap().get(i).expect("HARNESS live instance").clone();
    let input = |x: &str| w.defs.lock().unwrap().get(x).expect("HARNESS input").clone();
    progress();
    let tick = || SEQ.fetch_add(1, Ordering::SeqCst);
    match c[0].as_str() {
        "new" => {
            let n: usize = c[2].parse().unwrap();
            let mut m = w.live.lock().unwrap();
            m.insert(c[1].clone(), Arc::new(Mutex::new((n, new_inst(n)))));
            *seq = tick();
            format!("{{\"op\":\"new\",\"i\":{},\"n\":{}}}", q(&c[1]), n)
        }
        "drop" => {
            let mut m = w.live.lock().unwrap();
            let s = m.remove(&c[1]).expect("HARNESS drop");
            let g = s.lock().unwrap();
            *seq = tick();
            drop(g);
            format!("{{\"op\":\"drop\",\"i\":{}}}", q(&c[1]))
        }
        "call" => {
            let s = slot(&c[1]);
            let x = input(&c[3]);
            let keep = x.clone();
            let mut g = s.lock().unwrap();
            let n = g.0;
            let r = guard(|| g.1.call(c[2] == "opt", &x));
            *seq = tick();
            format!("{{\"op\":\"call\",\"i\":{},\"n\":{},\"k\":{},\"in\":{},\"out\":{},\"kept\":{}}}", q(&c[1]), n, q(&c[2]), q(&c[3]), res(r), keep == x)
        }
        "read" => {
            let s = slot(&c[1]);
            let g = s.lock().unwrap();
            let o = g.1.out();
            *seq = tick();
            format!("{{\"op\":\"read\",\"i\":{},\"st\":{}}}", q(&c[1]), row(&o))
        }
        "hash" => {
            let n: usize = c[1].parse().unwrap();
            let x = input(&c[2]);
            let keep = x.clone();
            let r = guard(|| hash(n, &x));
            *seq = tick();
            format!("{{\"op\":\"hash\",\"n\":{},\"k\":\"hash\",\"in\":{},\"out\":{},\"kept\":{}}}", n, q(&c[2]), res(r), keep == x)
        }
        "digest" => {
            let n: usize = c[1].parse().unwrap();
            let mut h = DefaultHasher::new();
            params(n, "static").hash(&mut h);
            *seq = tick();
            format!("{{\"op\":\"digest\",\"n\":{},\"d\":{}}}", n, q(&format!("{:x}", h.finish())))
        }
        "repeat" => {
            let n: usize = c[3].parse().unwrap();
            let k: u64 = c[4].parse().unwrap();
            let xs: Vec<Vec<Fq>> = c[5..].iter().map(|x| input(x)).collect();
            let l = xs.len();
            let s = if c[1] == "-" { None } else { Some(slot(&c[1])) };
            let mut seen: Vec<Vec<String>> = vec![Vec::new(); l];
            let mut last: Vec<Option<Result<Fq, String>>> = vec![None; l];
            for _ in 0..k {
                progress();
                for (j, x) in xs.iter().enumerate() {
                    let r = match &s {
                        Some(s) => { let mut g = s.lock().unwrap(); guard(|| g.1.call(c[2] == "opt", x)) }
                        None if c[2] == "hash" => guard(|| hash(n, x)),
                        None => guard(|| new_inst(n).call(c[2] == "opt", x)),
                    };
                    if last[j].as_ref() != Some(&r) {
                        let o = res(r.clone());
                        if !seen[j].contains(&o) && seen[j].len() < 5 { seen[j].push(o); }
                        last[j] = Some(r);
                    }
                }
            }
            *seq = tick();
            format!("{{\"op\":\"repeat\",\"i\":{},\"n\":{},\"k\":{},\"rounds\":{},\"ins\":{},\"outs\":{}}}", q(&c[1]), n, q(&c[2]), k,
                arr(&c[5..].iter().map(|x| q(x)).collect::<Vec<_>>()), arr(&seen.iter().map(|o| arr(o)).collect::<Vec<_>>()))
        }
        x => panic!("HARNESS unknown command {}", x),
    }
}

fn main() {
    let mut world = World::default();
    let mut queued: Vec<(String, Vec<Vec<String>>)> = Vec::new();
    serve(|w| {
        let own: Vec<String> = w.iter().map(|s| s.to_string()).collect();
        if own[0] == "reset" {
            world.live = Default::default();
            return "{\"op\":\"reset\"}".into();
        }
        if own[0] == "def" {
            world.defs.lock().unwrap().insert(own[1].clone(), own[2..].iter().map(|s| fq(s)).collect());
            return String::new();
        }
        if own[0].starts_with('@') {
            let t = own[0].clone();
            let c = own[1..].to_vec();
            match queued.iter_mut().find(|x| x.0 == t) {
                Some(x) => x.1.push(c),
                None => queued.push((t, vec![c])),
            }
            return String::new();
        }
        if own[0] == "go" {
            // all start together: spinning, not woken one after another
            let bar = Arc::new(AtomicUsize::new(queued.len()));
            let hs: Vec<_> = queued.drain(..).map(|(_, cs)| {
                let (w, b) = (world.clone(), bar.clone());
                std::thread::spawn(move || {
                    b.fetch_sub(1, Ordering::SeqCst);
                    let mut k = 0u32;
                    while b.load(Ordering::SeqCst) > 0 {
                        k += 1;
                        if k % 4096 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() }
                    }
                    cs.iter().map(|c| { let mut s = 0; let e = one(&w, c, &mut s); (s, e) }).collect::<Vec<_>>()
                })
            }).collect();
            let mut all: Vec<(u64, String)> = Vec::new();
            for h in hs { all.extend(h.join().expect("HARNESS thread")); }
            all.sort();
            return all.into_iter().map(|x| x.1).collect::<Vec<_>>().join("\n");
        }
        let mut s = 0;
        one(&world, &own, &mut s)
    })
}
