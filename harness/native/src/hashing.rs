//! Parameters, hashes and permutations: one command, one event.
use crate::rates::*;
use crate::*;

pub fn command(w: &[&str]) -> String {
    match w[0] {
        "params" => {
            let n: usize = w[1].parse().unwrap();
            params(n, w.get(2).copied().unwrap_or("const"))
        }
        // hash n d v1 .. vn
        "hash" => {
            let n: usize = w[1].parse().unwrap();
            let x: Vec<Fq> = w[2..].iter().map(|s| fq(s)).collect();
            let keep = x.clone();
            let r = guard(|| hash(n, &x));
            assert!(keep == x);
            format!("{{\"op\":\"hash\",\"n\":{},\"in\":{},\"out\":{}}}", n, row(&x), res(r))
        }
        // perm n opt|unopt w1 .. wt : on a fresh instance
        "perm" => {
            let n: usize = w[1].parse().unwrap();
            let x: Vec<Fq> = w[3..].iter().map(|s| fq(s)).collect();
            let r = guard(|| {
                let mut i = new_inst(n);
                let h = i.call(w[2] == "opt", &x);
                (h, i.out())
            });
            match r {
                Ok((h, st)) => format!("{{\"op\":\"perm\",\"n\":{},\"k\":{},\"in\":{},\"out\":{},\"st\":{}}}", n, q(w[2]), row(&x), qx(&h), row(&st)),
                Err(m) => format!("{{\"op\":\"perm\",\"n\":{},\"k\":{},\"in\":{},\"out\":{},\"st\":[]}}", n, q(w[2]), row(&x), q(&format!("panic: {}", m))),
            }
        }
        // both n w1 .. wt : the three ways to hash the same words
        "both" => {
            let n: usize = w[1].parse().unwrap();
            let x: Vec<Fq> = w[2..].iter().map(|s| fq(s)).collect();
            let h = res(guard(|| hash(n, &x)));
            let mut o = Vec::new();
            for opt in [true, false] {
                match guard(|| { let mut i = new_inst(n); let h = i.call(opt, &x); (h, i.out()) }) {
                    Ok((h, st)) => o.push((qx(&h), row(&st))),
                    Err(m) => o.push((q(&format!("panic: {}", m)), "[]".into())),
                }
            }
            format!("{{\"op\":\"both\",\"n\":{},\"in\":{},\"hash\":{},\"opt\":{},\"ost\":{},\"unopt\":{},\"ust\":{}}}", n, row(&x), h, o[0].0, o[0].1, o[1].0, o[1].1)
        }
        x => panic!("HARNESS unknown command {}", x),
    }
}
