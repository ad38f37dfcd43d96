//! Circuit harness: builds constraint systems from small programs and reports
//! what the gadgets emitted.
//!
//! One program per line:
//!   MODE REPORT GOAL ; step ; step ...
//!     MODE   setup | prove | assign (values, no matrices) | alone (no constraint system)
//!       REPORT full | brief     GOAL constraints | none | weight
//!   steps:
//!     c X v | i X v | w X v        constant, public input, witness
//!     l X k c1 Y1 c2 Y2 ..         X = k + c1*Y1 + ...
//!     h X n D V1 .. Vn             X = hash_n(D, V1..Vn)
//!     q X Y                        enforce X = Y
use ark_ff::Zero;
use ark_r1cs_std::prelude::*;
use ark_relations::lc;
use ark_relations::r1cs::*;
use decaf377::r1cs::FqVar;
use poseidon377::r1cs as gadget;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use vnative::*;

fn call(n: usize, cs: ConstraintSystemRef<Fq>, d: &FqVar, v: &[FqVar]) -> Result<FqVar> {
    let v: Vec<FqVar> = v.to_vec();
    let g = |i: usize| v[i].clone();
    match n {
        1 => gadget::hash_1(cs, d, g(0)),
        2 => gadget::hash_2(cs, d, (g(0), g(1))),
        3 => gadget::hash_3(cs, d, (g(0), g(1), g(2))),
        4 => gadget::hash_4(cs, d, (g(0), g(1), g(2), g(3))),
        5 => gadget::hash_5(cs, d, (g(0), g(1), g(2), g(3), g(4))),
        6 => gadget::hash_6(cs, d, (g(0), g(1), g(2), g(3), g(4), g(5))),
        7 => gadget::hash_7(cs, d, (g(0), g(1), g(2), g(3), g(4), g(5), g(6))),
        _ => panic!("HARNESS rate"),
    }
}

fn native(n: usize, w: &[Fq]) -> String { res(guard(|| vnative::rates::hash(n, w))) }

/// sorted, merged, without zero coefficients
fn tidy(row: &[(Fq, usize)]) -> Vec<(usize, Fq)> {
    let mut m: std::collections::BTreeMap<usize, Fq> = Default::default();
    for (c, v) in row { *m.entry(*v).or_insert(Fq::from(0u64)) += *c; }
    m.into_iter().filter(|(_, c)| !c.is_zero()).collect()
}

struct Table { lcs: Vec<String>, ix: HashMap<String, usize> }
impl Table {
    fn add(&mut self, row: &[(Fq, usize)]) -> String {
        let s = arr(&tidy(row).iter().map(|(v, c)| format!("[{},{}]", v + 1, qx(c))).collect::<Vec<_>>());
        let n = self.lcs.len();
        let i = *self.ix.entry(s.clone()).or_insert(n);
        if i == n { self.lcs.push(s); }
        (i + 1).to_string()
    }
}

fn run(line: &[&str]) -> Result<String> {
    let steps: Vec<Vec<&str>> = line.split(|x| *x == ";").map(|s| s.to_vec()).collect();
    let head = &steps[0];
    let (setup, full) = (head[0] == "setup", head[1] == "full");
    let bare = head[0] == "assign" || head[0] == "alone";
    let cs = if head[0] == "alone" { ConstraintSystemRef::None } else { ConstraintSystem::<Fq>::new_ref() };
    cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: !bare } });
    cs.set_optimization_goal(match head[2] { "none" => OptimizationGoal::None, "weight" => OptimizationGoal::Weight, _ => OptimizationGoal::Constraints });
    let mut vars: HashMap<String, FqVar> = HashMap::new();
    let mut vals: HashMap<String, Fq> = HashMap::new();
    let mut order: Vec<String> = Vec::new();
    let mut hashes: Vec<String> = Vec::new();
    for s in &steps[1..] {
        if s.is_empty() { continue; }
        let get = |vars: &HashMap<String, FqVar>, x: &str| vars.get(x).expect("HARNESS name").clone();
        let value = |h: &str| { let x = fq(h); if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(x) } };
        let (v, x) = match s[0] {
            "c" => (FqVar::new_constant(cs.clone(), fq(s[2]))?, fq(s[2])),
            "i" => (FqVar::new_input(cs.clone(), || value(s[2]))?, fq(s[2])),
            "w" => (FqVar::new_witness(cs.clone(), || value(s[2]))?, fq(s[2])),
            "l" => {
                let mut v = FqVar::Constant(fq(s[2]));
                let mut x = fq(s[2]);
                for p in s[3..].chunks(2) {
                    v += get(&vars, p[1]) * fq(p[0]);
                    x += vals[p[1]] * fq(p[0]);
                }
                (v, x)
            }
            "h" => {
                let n: usize = s[2].parse().unwrap();
                let ops: Vec<FqVar> = s[3..].iter().map(|y| get(&vars, y)).collect();
                let xs: Vec<Fq> = s[3..].iter().map(|y| vals[*y]).collect();
                let nat = native(n, &xs);
                let before: Vec<Option<Fq>> = ops.iter().map(|o| o.value().ok()).collect();
                let r = guard(|| call(n, cs.clone(), &ops[0], &ops[1..]));
                let out = match r {
                    Err(m) => return Ok(format!("{{\"op\":\"prog\",\"fail\":{}}}", q(&format!("panic in {}: {}", s.join(" "), m)))),
                    Ok(Err(e)) => return Ok(format!("{{\"op\":\"prog\",\"fail\":{}}}", q(&format!("error in {}: {}", s.join(" "), e)))),
                    Ok(Ok(v)) => v,
                };
                let after: Vec<Option<Fq>> = ops.iter().map(|o| o.value().ok()).collect();
                let got = match out.value() { Ok(v) => hx(&v), Err(_) => "none".into() };
                hashes.push(format!("{{\"name\":{},\"n\":{},\"in\":{},\"native\":{},\"got\":{},\"kept\":{}}}", q(s[1]), n, row(&xs), nat, q(&got), before == after));
                let x = vnative::rates::hash(n, &xs);
                (out, x)
            }
            "q" => {
                get(&vars, s[1]).enforce_equal(&get(&vars, s[2]))?;
                continue;
            }
            _ => panic!("HARNESS step {}", s[0]),
        };
        vars.insert(s[1].to_string(), v);
        vals.insert(s[1].to_string(), x);
        order.push(s[1].to_string());
    }
    let names_const: Vec<String> = order.iter().filter(|n| matches!(vars[*n], FqVar::Constant(_))).map(|n| q(n)).collect();
    let sj = arr(&steps[1..].iter().filter(|s| !s.is_empty()).map(|s| arr(&s.iter().map(|x| q(x)).collect::<Vec<_>>())).collect::<Vec<_>>());
    if bare {
        return Ok(format!("{{\"op\":\"prog\",\"fail\":\"\",\"mode\":{},\"goal\":{},\"full\":false,\"steps\":{},\"ni\":{},\"nw\":{},\"hashes\":{},\"consts\":{}}}",
            q(head[0]), q(head[2]), sj, cs.num_instance_variables(), cs.num_witness_variables(), arr(&hashes), arr(&names_const)));
    }
    // probes: one extra row per named variable shows its linear form
    let rows_n = cs.num_constraints();
    let (ni, nw) = (cs.num_instance_variables(), cs.num_witness_variables());
    let mut probes = Vec::new();
    for n in &order {
        if let FqVar::Var(a) = &vars[n] {
            cs.enforce_constraint(lc!() + a.variable, lc!() + Variable::One, lc!() + a.variable)?;
            probes.push(n.clone());
        }
    }
    // with any goal the rows as they are, without the finalizer's own variables
    cs.inline_all_lcs();
    let sat = if setup { "\"setup\"".to_string() } else { cs.is_satisfied()?.to_string() };
    let m = cs.to_matrices().expect("HARNESS matrices");
    let mut t = Table { lcs: Vec::new(), ix: HashMap::new() };
    let mut shape = Vec::new();
    let mut probe_ix: HashMap<String, String> = HashMap::new();
    let total = m.a.len();
    // constraints may have been outlined or added by the finalizer: probes are the
    // rows right behind the gadget's
    for k in 0..total {
        let r = format!("[{},{},{}]", t.add(&m.a[k]), t.add(&m.b[k]), t.add(&m.c[k]));
        if k >= rows_n && k < rows_n + probes.len() {
            probe_ix.insert(probes[k - rows_n].clone(), t.add(&m.a[k]));
        } else { shape.push(r); }
    }
    let named: Vec<String> = order.iter().map(|n| match &vars[n] {
        FqVar::Constant(c) => format!("[{},\"const\",{}]", q(n), qx(c)),
        FqVar::Var(_) => format!("[{},\"var\",{}]", q(n), probe_ix[n]),
    }).collect();
    let mut h = DefaultHasher::new();
    (&t.lcs, &shape, &probe_ix.iter().collect::<std::collections::BTreeMap<_, _>>(), ni, nw).hash(&mut h);
    let mut h2 = DefaultHasher::new();
    (12345u64, &shape, nw, &t.lcs, ni, total).hash(&mut h2);
    Ok(format!("{{\"op\":\"prog\",\"fail\":\"\",\"mode\":{},\"goal\":{},\"full\":{},\"steps\":{},\"ni\":{},\"nw\":{},\"nc\":{},\"rows_total\":{},\"sat\":{},\"hashes\":{},\"consts\":{},\"digest\":{}{}}}",
        q(head[0]), q(head[2]), full, sj, ni, nw, rows_n, total - probes.len(), sat, arr(&hashes), arr(&names_const),
        q(&format!("{:x}{:016x}", h.finish(), h2.finish())),
        if full { format!(",\"lcs\":{},\"rows\":{},\"named\":{}", arr(&t.lcs), arr(&shape), arr(&named)) } else { String::new() }))
}

fn main() {
    serve(|w| match guard(|| run(w)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => format!("{{\"op\":\"prog\",\"fail\":{}}}", q(&format!("error: {}", e))),
        Err(m) => {
            if m.contains("HARNESS") { panic!("{}", m) }
            format!("{{\"op\":\"prog\",\"fail\":{}}}", q(&format!("panic: {}", m)))
        }
    })
}
