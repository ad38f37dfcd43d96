//! The seven shipped rates behind one interface.
use crate::*;
use poseidon377::*;
use poseidon_parameters::v1::*;

fn alpha(a: &Alpha) -> (String, String) {
    match a {
        Alpha::Exponent(e) => ("exp".into(), format!("{:x}", e)),
        Alpha::Inverse => ("inv".into(), "0".into()),
    }
}

macro_rules! dump {
    ($p:expr) => {{
        let p = $p;
        let t = p.mds.n_rows();
        let (k, e) = alpha(&p.alpha);
        let mut all: Vec<Fq> = Vec::new();
        all.extend_from_slice(p.mds.elements());
        all.extend_from_slice(p.arc.elements());
        all.extend_from_slice(p.optimized_arc.elements());
        let o = &p.optimized_mds;
        all.extend_from_slice(o.M_hat.elements());
        all.extend_from_slice(o.v.elements());
        all.extend_from_slice(o.w.elements());
        all.extend_from_slice(o.M_prime.elements());
        all.extend_from_slice(o.M_doubleprime.elements());
        all.extend_from_slice(o.M_inverse.elements());
        all.extend_from_slice(o.M_hat_inverse.elements());
        all.extend_from_slice(o.M_i.elements());
        all.push(o.M_00);
        for v in o.v_collection.iter() { all.extend_from_slice(v.elements()); }
        for v in o.w_hat_collection.iter() { all.extend_from_slice(v.elements()); }
        let canon = all.iter().all(canonical);
        format!(
            "{{\"op\":\"params\",\"M\":{},\"alpha\":{},\"e\":{},\"rF\":{},\"rP\":{},\"t\":{},\"canon\":{},\"count\":{},\"mds\":{},\"arc\":{},\"oarc\":{},\"Mhat\":{},\"vv\":{},\"ww\":{},\"Mprime\":{},\"Mdoubleprime\":{},\"Minverse\":{},\"Mhatinverse\":{},\"m00\":{},\"Mi\":{},\"v\":{},\"what\":{}}}",
            p.M, q(&k), q(&e), p.rounds.full(), p.rounds.partial(), t, canon, all.len(),
            rows(p.mds.elements(), p.mds.n_cols()), rows(p.arc.elements(), p.arc.n_cols()),
            rows(p.optimized_arc.elements(), p.optimized_arc.n_cols()),
            rows(o.M_hat.elements(), o.M_hat.n_cols()), rows(o.v.elements(), o.v.n_cols()),
            rows(o.w.elements(), o.w.n_cols()), rows(o.M_prime.elements(), o.M_prime.n_cols()),
            rows(o.M_doubleprime.elements(), o.M_doubleprime.n_cols()),
            rows(o.M_inverse.elements(), o.M_inverse.n_cols()),
            rows(o.M_hat_inverse.elements(), o.M_hat_inverse.n_cols()), qx(&o.M_00),
            rows(o.M_i.elements(), o.M_i.n_cols()),
            arr(&o.v_collection.iter().map(|v| row(v.elements())).collect::<Vec<_>>()),
            arr(&o.w_hat_collection.iter().map(|v| row(v.elements())).collect::<Vec<_>>()),
        )
    }};
}

pub fn hash(n: usize, w: &[Fq]) -> Fq {
    let d = &w[0];
    match n {
        1 => hash_1(d, w[1]),
        2 => hash_2(d, (w[1], w[2])),
        3 => hash_3(d, (w[1], w[2], w[3])),
        4 => hash_4(d, (w[1], w[2], w[3], w[4])),
        5 => hash_5(d, (w[1], w[2], w[3], w[4], w[5])),
        6 => hash_6(d, (w[1], w[2], w[3], w[4], w[5], w[6])),
        7 => hash_7(d, (w[1], w[2], w[3], w[4], w[5], w[6], w[7])),
        _ => unreachable!(),
    }
}

/// One live permutation instance of any rate.
pub trait Inst: Send {
    fn call(&mut self, opt: bool, w: &[Fq]) -> Fq;
    fn out(&self) -> Vec<Fq>;
}
macro_rules! inst {
    ($($n:literal $t:literal $m:ident $P:ident [$($c:literal),*];)*) => {
        $(
            mod $m {
                use super::*;
                pub static PARAMS: PoseidonParameters<$($c),*> = $P;
                pub struct I(pub Instance<'static, $($c),*>);
                impl Inst for I {
                    fn call(&mut self, opt: bool, w: &[Fq]) -> Fq {
                        let a: [Fq; $t] = w.try_into().expect("HARNESS width");
                        if opt { self.0.n_to_1_fixed_hash(&a) } else { self.0.unoptimized_n_to_1_fixed_hash(a) }
                    }
                    fn out(&self) -> Vec<Fq> { self.0.output_words().to_vec() }
                }
            }
        )*
        pub fn new_inst(n: usize) -> Box<dyn Inst> {
            match n { $($n => Box::new($m::I(Instance::new(&$m::PARAMS))),)* _ => unreachable!() }
        }
        /// `which` selects the constant itself or a static initialised from it
        pub fn params(n: usize, which: &str) -> String {
            match n { $($n => if which == "static" { dump!(&$m::PARAMS) } else { dump!(&$P) },)* _ => unreachable!() }
        }
    };
}
inst! {
    1 2 r1 RATE_1_PARAMS [2, 1, 4, 1, 39, 2, 78, 31];
    2 3 r2 RATE_2_PARAMS [3, 2, 9, 4, 39, 3, 117, 31];
    3 4 r3 RATE_3_PARAMS [4, 3, 16, 9, 39, 4, 156, 31];
    4 5 r4 RATE_4_PARAMS [5, 4, 25, 16, 39, 5, 195, 31];
    5 6 r5 RATE_5_PARAMS [6, 5, 36, 25, 39, 6, 234, 31];
    6 7 r6 RATE_6_PARAMS [7, 6, 49, 36, 39, 7, 273, 31];
    7 8 r7 RATE_7_PARAMS [8, 7, 64, 49, 39, 8, 312, 31];
}

