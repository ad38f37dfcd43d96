//! Records a synthesis.
use super::record::{note, refs};
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, OptimizationGoal};
use vnative::*;

/// modes: c, i, w per word; constants are not recorded as inputs
pub fn circuit(n: usize, modes: &str, mut x: Vec<Fq>, f: impl FnOnce(ConstraintSystemRef<Fq>, &[Fq]) -> Vec<Fq>) -> String {
    let cs = ConstraintSystem::<Fq>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    let ix: Vec<usize> = modes.char_indices().filter(|m| m.1 != 'c').map(|m| m.0).collect();
    let mut y: Vec<Fq> = ix.iter().map(|k| x[*k]).collect();
    Fq::record(&mut y);
    for (k, v) in ix.iter().zip(&y) { x[*k] = *v; }
    Fq::watch();
    let r = guard(|| f(cs.clone(), &x));
    let looks = Fq::seen().len();
    cs.finalize();
    let m = cs.to_matrices().expect("HARNESS matrices");
    let all: Vec<Fq> = {
        let b = cs.borrow().unwrap();
        b.instance_assignment.iter().chain(b.witness_assignment.iter()).cloned().collect()
    };
    let lc = |r: &Vec<(Fq, usize)>| arr(&r.iter().map(|(c, v)| format!("[{},{}]", v + 1, qx(&c.unmark()))).collect::<Vec<_>>());
    let rows: Vec<String> = (0..m.a.len()).map(|k| format!("[{},{},{}]", lc(&m.a[k]), lc(&m.b[k]), lc(&m.c[k]))).collect();
    let marked = m.a.iter().chain(&m.b).chain(&m.c).flatten().any(|(c, _)| c.id() != 0);
    let more = format!(",\"rows\":{},\"assign\":{},\"marked\":{}", arr(&rows), refs(&all), marked);
    note(n, &format!("circ:{}", modes), y.len(), &x, looks, r, more)
}
