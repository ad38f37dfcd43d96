//! Permutation instances and circuits over parameters given on the command
//! line: every field of the public parameter type is set at run time.
//!
//!   set T RF RP ALPHA M <numbers>   ALPHA hexadecimal or inv; numbers: mds, arc, oarc,
//!                                   Mi, v.., what.. , Minverse, Mhatinverse in rows
//!                                   (takes over the memory of dropped parameters, if there are any)
//!   run WORDS       one reused instance: optimized and unoptimized, full states
//!   half KIND WORDS only the optimized (opt) or the unoptimized (unopt) operation
//!   keep NAME / use NAME   put the current instance aside / go back to one
//!   twin NAME       put a second instance over the same parameters aside
//!   chain NAME MODES WORDS  one circuit instance, its public fields changed between permutations:
//!                   permuted, permuted again with NAME's parameters, and again with its own
//!                   parameters and first words
//!   drop            the current instance is dropped, its parameters too if no twin has them
//!   circ MODES WORDS  circuit with operands allocated as MODES (c, i, w per word)
use ark_r1cs_std::prelude::*;
use ark_relations::r1cs::ConstraintSystem;
use decaf377::r1cs::FqVar;
use poseidon_parameters::v1::*;
use poseidon_permutation::{r1cs::InstanceVar, Instance};
use vnative::*;

trait G {
    fn run(&mut self, opt: bool, w: &[Fq]) -> (Fq, Vec<Fq>);
    fn circ(&self, modes: &str, w: &[Fq]) -> String;
    fn echo(&self) -> String;
    fn twin(&self) -> Box<dyn G>;
    fn chain(&self, other: &dyn std::any::Any, modes: &str, w: &[Fq]) -> String;
    fn any(&self) -> &dyn std::any::Any;
    /// the instance's operations on recorded words, and on recorded operands in a circuit
    #[cfg(feature = "watch")]
    fn circ_out(&self, cs: ark_relations::r1cs::ConstraintSystemRef<Fq>, modes: &str, w: &[Fq]) -> Vec<Fq>;
}
#[cfg(feature = "watch")]
#[path = "../../../watch/src/record.rs"]
mod record;
#[cfg(feature = "watch")]
#[path = "../../../watch/src/circuit.rs"]
mod circuit;

struct It<'a>(std::slice::Iter<'a, Fq>);
impl<'a> It<'a> {
    fn take(&mut self, n: usize) -> Vec<Fq> { (0..n).map(|_| *self.0.next().expect("HARNESS numbers")).collect() }
}

macro_rules! shapes { ($($m:ident [$t:literal $t1:literal $tt:literal $t11:literal $rows:literal $n:literal $rp:literal];)*) => {
    $(mod $m {
        use super::*;
        pub type Pm = PoseidonParameters<$t, $t1, $tt, $t11, $rows, $t, $n, $rp>;
        thread_local! { static FREE: std::cell::RefCell<Vec<*mut Pm>> = std::cell::RefCell::new(vec![]); }
        /// parameters that live until the last instance over them is dropped; the next
        /// parameters of the shape are put where they were
        pub struct Own(*mut Pm);
        impl Drop for Own { fn drop(&mut self) { let _ = FREE.try_with(|f| f.borrow_mut().push(self.0)); } }
        fn own(p: Pm) -> std::rc::Rc<Own> {
            let at = match FREE.with(|f| f.borrow_mut().pop()) {
                Some(at) => { unsafe { at.write(p) }; at }
                None => Box::into_raw(Box::new(p)),
            };
            std::rc::Rc::new(Own(at))
        }
        pub struct I { p: &'static Pm, i: Instance<'static, $t, $t1, $tt, $t11, $rows, $t, $n, $rp>, own: std::rc::Rc<Own> }
        pub fn make(rf: usize, alpha: Alpha, level: usize, nums: &[Fq]) -> Box<dyn G> {
            let mut z = It(nums.iter());
            let mds = MdsMatrix::new(&z.take($tt));
            let arc = ArcMatrix::new(&z.take($n));
            let optimized_arc = OptimizedArcMatrix::new(&z.take($n));
            let m_i = Matrix::new(&z.take($tt));
            let v: [Matrix<1, $t1, $t1>; $rp] = core::array::from_fn(|_| Matrix::new(&z.take($t1)));
            let w: [Matrix<$t1, 1, $t1>; $rp] = core::array::from_fn(|_| Matrix::new(&z.take($t1)));
            let m00 = mds.get_element(0, 0);
            let o = OptimizedMdsMatrices {
                M_hat: mds.hat(), v: mds.v(), w: mds.w(),
                M_prime: SquareMatrix::identity(), M_doubleprime: SquareMatrix::identity(),
                M_inverse: SquareMatrix::new(&z.take($tt)), M_hat_inverse: SquareMatrix::new(&z.take($t11)),
                M_00: m00, M_i: m_i, v_collection: v, w_hat_collection: w,
            };
            over(own(PoseidonParameters {
                M: level, alpha, rounds: RoundNumbers { r_P: $rp, r_F: rf }, mds, arc, optimized_arc, optimized_mds: o,
            }))
        }
        fn over(own: std::rc::Rc<Own>) -> Box<dyn G> {
            let p: &'static Pm = unsafe { &*own.0 };
            Box::new(I { p, own, i: Instance::new(p) })
        }
        impl G for I {
            fn twin(&self) -> Box<dyn G> { over(self.own.clone()) }
            fn run(&mut self, opt: bool, w: &[Fq]) -> (Fq, Vec<Fq>) {
                let a: [Fq; $t] = w.try_into().expect("HARNESS width");
                let r = if opt { self.i.n_to_1_fixed_hash(&a) } else { self.i.unoptimized_n_to_1_fixed_hash(a) };
                (r, self.i.output_words().to_vec())
            }
            fn circ(&self, modes: &str, w: &[Fq]) -> String {
                let cs = ConstraintSystem::<Fq>::new_ref();
                let ops: Vec<FqVar> = w.iter().zip(modes.chars()).map(|(x, m)| match m {
                    'c' => FqVar::new_constant(cs.clone(), *x),
                    'i' => FqVar::new_input(cs.clone(), || Ok(*x)),
                    _ => FqVar::new_witness(cs.clone(), || Ok(*x)),
                }.expect("HARNESS alloc")).collect();
                let a: [FqVar; $t] = ops.clone().try_into().ok().expect("HARNESS width");
                let h = InstanceVar::n_to_1_fixed_hash(self.p.clone(), cs.clone(), a);
                let n1 = cs.num_constraints();
                let mut iv = InstanceVar { parameters: self.p.clone(), cs: cs.clone(), state_words: ops };
                iv.permute();
                let st: Vec<Fq> = iv.state_words.iter().map(|x| x.value().expect("HARNESS value")).collect();
                format!("\"h\":{},\"st\":{},\"nc\":[{},{}],\"sat\":{}", qx(&h.value().expect("HARNESS value")), row(&st), n1,
                    cs.num_constraints() - n1, cs.is_satisfied().expect("HARNESS sat"))
            }
            fn any(&self) -> &dyn std::any::Any { self }
            fn chain(&self, other: &dyn std::any::Any, modes: &str, w: &[Fq]) -> String {
                let other = other.downcast_ref::<I>().expect("HARNESS other shape");
                let cs = ConstraintSystem::<Fq>::new_ref();
                let ops: Vec<FqVar> = w.iter().zip(modes.chars()).map(|(x, m)| match m {
                    'c' => FqVar::new_constant(cs.clone(), *x),
                    'i' => FqVar::new_input(cs.clone(), || Ok(*x)),
                    _ => FqVar::new_witness(cs.clone(), || Ok(*x)),
                }.expect("HARNESS alloc")).collect();
                let mut iv = InstanceVar { parameters: self.p.clone(), cs: cs.clone(), state_words: ops.clone() };
                let value = |v: &[FqVar]| row(&v.iter().map(|x| x.value().expect("HARNESS value")).collect::<Vec<_>>());
                iv.permute();
                let a = value(&iv.state_words);
                iv.parameters = other.p.clone();
                iv.permute();
                let b = value(&iv.state_words);
                iv.parameters = self.p.clone();
                iv.state_words = ops;
                iv.permute();
                format!("\"st\":{},\"then\":{},\"again\":{},\"sat\":{}", a, b, value(&iv.state_words), cs.is_satisfied().expect("HARNESS sat"))
            }
            #[cfg(feature = "watch")]
            fn circ_out(&self, cs: ark_relations::r1cs::ConstraintSystemRef<Fq>, modes: &str, w: &[Fq]) -> Vec<Fq> {
                let ops: Vec<FqVar> = w.iter().zip(modes.chars()).map(|(x, m)| match m {
                    'c' => FqVar::new_constant(cs.clone(), *x),
                    'i' => FqVar::new_input(cs.clone(), || Ok(*x)),
                    _ => FqVar::new_witness(cs.clone(), || Ok(*x)),
                }.expect("HARNESS alloc")).collect();
                let mut iv = InstanceVar { parameters: self.p.clone(), cs: cs.clone(), state_words: ops };
                iv.permute();
                iv.state_words.iter().map(|x| x.value().expect("HARNESS value")).collect()
            }
            fn echo(&self) -> String {
                let p = self.p;
                let o = &p.optimized_mds;
                let (k, e) = match p.alpha { Alpha::Exponent(e) => ("exp", format!("{:x}", e)), Alpha::Inverse => ("inv", "0".into()) };
                format!("\"alpha\":{},\"e\":{},\"t\":{},\"rF\":{},\"rP\":{},\"mds\":{},\"arc\":{},\"oarc\":{},\"Mi\":{},\"m00\":{},\"v\":{},\"what\":{}",
                    q(k), q(&e), p.mds.n_rows(), p.rounds.full(), p.rounds.partial(), rows(p.mds.elements(), $t), rows(p.arc.elements(), $t),
                    rows(p.optimized_arc.elements(), $t), rows(o.M_i.elements(), $t), qx(&o.M_00),
                    arr(&o.v_collection.iter().map(|v| row(v.elements())).collect::<Vec<_>>()),
                    arr(&o.w_hat_collection.iter().map(|v| row(v.elements())).collect::<Vec<_>>()))
            }
        }
    })*
    fn make(t: usize, rf: usize, rp: usize, alpha: Alpha, level: usize, nums: &[Fq]) -> Box<dyn G> {
        match (t, rf + rp, rp) { $(($t, $rows, $rp) => $m::make(rf, alpha, level, nums),)* _ => panic!("HARNESS shape {} {} {}", t, rf, rp) }
    }
} }
include!("generic_shapes.in");

#[cfg(not(feature = "watch"))]
fn num(s: &str) -> Fq { fq(s) }
#[cfg(not(feature = "watch"))]
fn op<T>(f: impl FnOnce() -> T) -> Result<T, String> { guard(f) }
/// set: parameters and words are marked, and looks at them reported
#[cfg(feature = "watch")]
pub static MARK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[cfg(feature = "watch")]
fn marking() -> bool { MARK.load(std::sync::atomic::Ordering::Relaxed) }
#[cfg(feature = "watch")]
fn num(s: &str) -> Fq { if marking() { fq(s).mark() } else { fq(s) } }
#[cfg(feature = "watch")]
fn op<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    if !marking() { return guard(f) }
    Fq::go_on();
    let r = guard(f);
    Fq::pause();
    r
}

#[allow(dead_code)]
fn main() { serve(machine()); }

pub fn machine() -> impl FnMut(&[&str]) -> String {
    let mut g: Option<Box<dyn G>> = None;
    let mut aside: std::collections::BTreeMap<String, Box<dyn G>> = Default::default();
    move |w| {
        let words = |k: usize| -> Vec<Fq> { w[k..].iter().map(|x| num(x)).collect() };
        match w[0] {
            "set" => {
                let u = |k: usize| w[k].parse::<usize>().expect("HARNESS number");
                let alpha = if w[4] == "inv" { Alpha::Inverse } else { Alpha::Exponent(u32::from_str_radix(w[4], 16).expect("HARNESS alpha")) };
                let x = op(|| make(u(1), u(2), u(3), alpha, u(5), &words(6))).unwrap_or_else(|e| panic!("{}", e));
                let s = format!("{{\"op\":\"set\",\"fail\":\"\",{}}}", x.echo());
                g = Some(x);
                s
            }
            "run" => {
                let x = words(1);
                let i = g.as_mut().expect("HARNESS set");
                match op(|| (i.run(true, &x), i.run(false, &x))) {
                    Ok((o, u)) => format!("{{\"op\":\"run\",\"fail\":\"\",\"in\":{},\"opt\":{},\"ost\":{},\"unopt\":{},\"ust\":{}}}",
                        row(&x), qx(&o.0), row(&o.1), qx(&u.0), row(&u.1)),
                    Err(m) => format!("{{\"op\":\"run\",\"in\":{},\"fail\":{}}}", row(&x), q(&format!("panic: {}", m))),
                }
            }
            "half" => {
                let x = words(2);
                let i = g.as_mut().expect("HARNESS set");
                match op(|| i.run(w[1] == "opt", &x)) {
                    Ok((o, st)) => format!("{{\"op\":\"half\",\"fail\":\"\",\"kind\":{},\"in\":{},\"out\":{},\"st\":{}}}", q(w[1]), row(&x), qx(&o), row(&st)),
                    Err(m) => format!("{{\"op\":\"half\",\"kind\":{},\"in\":{},\"fail\":{}}}", q(w[1]), row(&x), q(&format!("panic: {}", m))),
                }
            }
            "keep" => {
                aside.insert(w[1].into(), g.take().expect("HARNESS set"));
                format!("{{\"op\":\"keep\",\"fail\":\"\",\"name\":{}}}", q(w[1]))
            }
            "use" => {
                assert!(g.is_none(), "HARNESS keep or drop first");
                g = Some(aside.remove(w[1]).expect("HARNESS name"));
                format!("{{\"op\":\"use\",\"fail\":\"\",\"name\":{},{}}}", q(w[1]), g.as_ref().unwrap().echo())
            }
            "twin" => {
                aside.insert(w[1].into(), g.as_ref().expect("HARNESS set").twin());
                format!("{{\"op\":\"twin\",\"fail\":\"\",\"name\":{}}}", q(w[1]))
            }
            "chain" => {
                let x = words(3);
                let i = g.as_ref().expect("HARNESS set");
                let o = aside.get(w[1]).expect("HARNESS name");
                match guard(|| i.chain(o.any(), w[2], &x)) {
                    Ok(s) => format!("{{\"op\":\"chain\",\"fail\":\"\",\"name\":{},\"in\":{},\"modes\":{},{}}}", q(w[1]), row(&x), q(w[2]), s),
                    Err(m) => format!("{{\"op\":\"chain\",\"name\":{},\"in\":{},\"modes\":{},\"fail\":{}}}", q(w[1]), row(&x), q(w[2]), q(&format!("panic: {}", m))),
                }
            }
            "drop" => {
                g = None;
                "{\"op\":\"drop\",\"fail\":\"\"}".into()
            }
            "circ" => {
                let x = words(2);
                let i = g.as_ref().expect("HARNESS set");
                match guard(|| i.circ(w[1], &x)) {
                    Ok(s) => format!("{{\"op\":\"circ\",\"fail\":\"\",\"in\":{},\"modes\":{},{}}}", row(&x), q(w[1]), s),
                    Err(m) => format!("{{\"op\":\"circ\",\"in\":{},\"modes\":{},\"fail\":{}}}", row(&x), q(w[1]), q(&format!("panic: {}", m))),
                }
            }
            #[cfg(feature = "watch")]
            "prog" => {
                let i = g.as_mut().expect("HARNESS set");
                let both = ["opt", "unopt"].map(|k| record::native(0, k, words(1), |x| { let (r, mut o) = i.run(k == "opt", x); o.push(r); o }));
                format!("{{\"op\":\"prog\",\"opt\":{},\"unopt\":{}}}", both[0], both[1])
            }
            #[cfg(feature = "watch")]
            "circprog" => {
                let i = g.as_ref().expect("HARNESS set");
                format!("{{\"op\":\"circprog\",\"p\":{}}}", circuit::circuit(0, w[1], words(2), |cs, x| i.circ_out(cs, w[1], x)))
            }
            _ => panic!("HARNESS command {}", w[0]),
        }
    }
}
