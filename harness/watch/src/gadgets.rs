//! The shipped gadgets on operands allocated as given.
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef};
use decaf377::r1cs::FqVar;
use poseidon377::r1cs as gadget;
use vnative::*;

pub fn circ(n: usize, modes: &str, x: &[Fq]) -> Vec<Fq> { circ_in(ConstraintSystem::<Fq>::new_ref(), n, modes, x) }
pub fn circ_in(cs: ConstraintSystemRef<Fq>, n: usize, modes: &str, x: &[Fq]) -> Vec<Fq> {
    let v: Vec<FqVar> = x.iter().zip(modes.chars()).map(|(x, m)| match m {
        'c' => FqVar::new_constant(cs.clone(), *x),
        'i' => FqVar::new_input(cs.clone(), || Ok(*x)),
        _ => FqVar::new_witness(cs.clone(), || Ok(*x)),
    }.expect("alloc")).collect();
    let g = |i: usize| v[i].clone();
    let d = &v[0];
    let out = match n {
        1 => gadget::hash_1(cs, d, g(1)),
        2 => gadget::hash_2(cs, d, (g(1), g(2))),
        3 => gadget::hash_3(cs, d, (g(1), g(2), g(3))),
        4 => gadget::hash_4(cs, d, (g(1), g(2), g(3), g(4))),
        5 => gadget::hash_5(cs, d, (g(1), g(2), g(3), g(4), g(5))),
        6 => gadget::hash_6(cs, d, (g(1), g(2), g(3), g(4), g(5), g(6))),
        7 => gadget::hash_7(cs, d, (g(1), g(2), g(3), g(4), g(5), g(6), g(7))),
        _ => panic!("HARNESS rate"),
    }.expect("synthesis");
    vec![out.value().unwrap_or(Fq::ZERO)]
}

