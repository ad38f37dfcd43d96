//! Fq with a mark.  Arithmetic carries the mark along; whatever looks at a marked
//! element (comparison, bytes, limbs, inversion of a possible zero) is reported.
extern crate std;
use ark_ed_on_bls12_377::Fq as ArkworksFq;
use ark_ff::{biginteger::BigInt, Field, PrimeField};
use ark_serialize::CanonicalSerialize;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

use super::super::{N_64, N_8};

const N: usize = N_64;

/// value and mark
#[derive(Copy)]
pub struct Fq(ArkworksFq, Mark);
impl Clone for Fq {
    fn clone(&self) -> Fq { point(); *self }
}
/// id: 0 for data that does not depend on the input, otherwise the number of the
/// recorded operation that made it (NOTED without recording); bounds on the degrees
/// of numerator and denominator of the rational function of the inputs it is
#[derive(Copy, Clone)]
struct Mark { id: u32, num: u32, den: u32 }
const NOTED: u32 = u32::MAX;
const NOMARK: Mark = Mark { id: 0, num: 0, den: 0 };
const INPUT: Mark = Mark { id: NOTED, num: 1, den: 0 };

/// A recorded operation: its name and operands
#[derive(Copy, Clone)]
pub struct Op(pub &'static str, pub Fq, pub Fq);

/// What was looked at: kind, the two sides, and what was seen
pub struct Look {
    pub kind: &'static str,
    pub a: Fq,
    pub b: Fq,
    pub seen: bool,
}

std::thread_local! {
    static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static OPS: std::cell::RefCell<Option<std::vec::Vec<Op>>> = const { std::cell::RefCell::new(None) };
    static DEGREE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LOOKS: std::cell::RefCell<std::vec::Vec<Look>> = const { std::cell::RefCell::new(std::vec::Vec::new()) };
}

/// called at every operation, when set: the points where a scheduler may switch threads
static STEP: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
fn point() {
    if let Some(f) = STEP.get() { f(); }
}

fn look(kind: &'static str, a: &Fq, b: &Fq, seen: bool) {
    point();
    if (a.1.id != 0 || b.1.id != 0) && ON.with(|x| x.get()) {
        LOOKS.with(|l| l.borrow_mut().push(Look { kind, a: a.unmark(), b: b.unmark(), seen }));
    }
}

/// the mark of the result of an operation
fn op(name: &'static str, a: &Fq, b: &Fq) -> Mark {
    point();
    if a.1.id == 0 && b.1.id == 0 { return NOMARK; }
    let (x, y) = (a.1, b.1);
    let (num, den) = match name {
        "mul" => (x.num.saturating_add(y.num), x.den.saturating_add(y.den)),
        "inv" => (x.den, x.num),
        "in" | "neg" => (x.num, x.den),
        _ if x.den == 0 && y.den == 0 => (x.num.max(y.num), 0),
        _ => (x.num.saturating_add(y.den).max(y.num.saturating_add(x.den)), x.den.saturating_add(y.den)),
    };
    DEGREE.with(|d| d.set(d.get().max(num.saturating_add(den))));
    let id = OPS.with(|l| match l.borrow_mut().as_mut() {
        Some(v) => { v.push(Op(name, *a, *b)); v.len() as u32 }
        None => NOTED,
    });
    Mark { id, num, den }
}

impl PartialEq for Fq {
    fn eq(&self, other: &Self) -> bool {
        let r = match (self.is_sentinel(), other.is_sentinel()) {
            (true, true) => true,
            (true, false) => false,
            (false, true) => false,
            (false, false) => self.0 == other.0,
        };
        look("eq", self, other, r);
        r
    }
}

impl Eq for Fq {}

impl zeroize::Zeroize for Fq {
    fn zeroize(&mut self) {
        self.0 .0.zeroize();
        self.1 = NOMARK;
    }
}

impl Fq {
    pub fn mark(self) -> Fq {
        Fq(self.0, INPUT)
    }
    pub fn on_step(f: fn()) { let _ = STEP.set(f); }
    pub fn unmark(self) -> Fq { Fq(self.0, NOMARK) }
    pub fn id(&self) -> u32 { self.1.id }
    /// record operations from here on; inputs are the first operations
    pub fn record(inputs: &mut [Fq]) {
        OPS.with(|l| *l.borrow_mut() = Some(std::vec::Vec::new()));
        for x in inputs {
            let y = x.mark();
            x.1 = op("in", &y, &y);
        }
    }
    pub fn recorded() -> std::vec::Vec<Op> { OPS.with(|l| l.take().unwrap_or_default()) }
    pub fn watch() {
        LOOKS.with(|l| l.borrow_mut().clear());
        ON.with(|x| x.set(true));
    }
    pub fn go_on() { ON.with(|x| x.set(true)); }
    pub fn pause() { ON.with(|x| x.set(false)); }
    /// the largest degree since the last question
    pub fn degree() -> u32 { DEGREE.with(|d| d.replace(0)) }
    pub fn seen() -> std::vec::Vec<Look> {
        ON.with(|x| x.set(false));
        LOOKS.with(|l| l.take())
    }

    pub(crate) fn from_le_limbs(limbs: [u64; N_64]) -> Fq {
        let mut bytes = [0u8; N_8];
        for i in 0..N_64 {
            let this_byte = limbs[i].to_le_bytes();
            for j in 0..8 {
                bytes[8 * i + j] = this_byte[j];
            }
        }

        Self::from_raw_bytes(&bytes)
    }

    pub(crate) fn from_raw_bytes(bytes: &[u8; N_8]) -> Fq {
        Self(ArkworksFq::from_le_bytes_mod_order(bytes), NOMARK)
    }

    pub(crate) fn to_le_limbs(&self) -> [u64; N_64] {
        debug_assert!(!self.is_sentinel());

        let le_bytes = self.to_bytes_le();
        let mut out = [0u64; N_64];
        for i in 0..N_64 {
            out[i] = u64::from_le_bytes([
                le_bytes[8 * i],
                le_bytes[8 * i + 1],
                le_bytes[8 * i + 2],
                le_bytes[8 * i + 3],
                le_bytes[8 * i + 4],
                le_bytes[8 * i + 5],
                le_bytes[8 * i + 6],
                le_bytes[8 * i + 7],
            ]);
        }
        out
    }

    pub fn to_bytes_le(&self) -> [u8; N_8] {
        debug_assert!(!self.is_sentinel());
        look("bytes", self, &Self::ZERO, false);

        let mut bytes = [0u8; 32];
        self.0
            .serialize_compressed(&mut bytes[..])
            .expect("serialization into array should be infallible");
        bytes
    }

    /// Instantiate a constant field element from its montgomery limbs.
    ///
    /// This should only be used if you are familiar with the internals of the library.
    pub const fn from_montgomery_limbs(limbs: [u64; N]) -> Fq {
        // The Arkworks `Fp::new_unchecked` method does not perform montgomery reduction.
        Self(ArkworksFq::new_unchecked(BigInt::new(limbs)), NOMARK)
    }

    pub const ZERO: Self = Self(ArkworksFq::new(BigInt::new([0; N])), NOMARK);
    pub const ONE: Self = Self(ArkworksFq::new(BigInt::one()), NOMARK);

    /// A sentinel value which exists only to not be equal to any other field element.
    ///
    /// Operations involving this element are undefined.
    pub const SENTINEL: Self = Self::from_montgomery_limbs([u64::MAX; N_64]);

    fn is_sentinel(&self) -> bool {
        self.0 .0 == Self::SENTINEL.0 .0
    }

    pub fn square(&self) -> Fq {
        debug_assert!(!self.is_sentinel());
        Fq(self.0.square(), op("mul", self, self))
    }

    pub fn inverse(&self) -> Option<Fq> {
        debug_assert!(!self.is_sentinel());

        let zero = self.0 == Self::ZERO.0;
        look("inv", self, &Self::ZERO, zero);
        if zero {
            return None;
        }

        Some(Fq(self.0.inverse()?, op("inv", self, self)))
    }

    pub fn add(self, other: &Fq) -> Fq {
        debug_assert!(!self.is_sentinel() && !other.is_sentinel());
        Fq(self.0 + other.0, op("add", &self, other))
    }

    pub fn sub(self, other: &Fq) -> Fq {
        debug_assert!(!self.is_sentinel() && !other.is_sentinel());
        Fq(self.0 - other.0, op("sub", &self, other))
    }

    pub fn mul(self, other: &Fq) -> Fq {
        debug_assert!(!self.is_sentinel() && !other.is_sentinel());
        Fq(self.0 * other.0, op("mul", &self, other))
    }

    pub fn neg(self) -> Fq {
        debug_assert!(!self.is_sentinel());
        Fq(-self.0, op("neg", &self, &self))
    }
}

impl ConditionallySelectable for Fq {
    fn conditional_select(a: &Self, b: &Self, choice: subtle::Choice) -> Self {
        let mut out = [0u64; 4];
        let a_limbs = a.0 .0 .0;
        let b_limbs = b.0 .0 .0;
        for i in 0..4 {
            out[i] = u64::conditional_select(&a_limbs[i], &b_limbs[i], choice);
        }
        let bigint = BigInt::new(out);
        Self(ArkworksFq::new(bigint), if bool::from(choice) { b.1 } else { a.1 })
    }
}

impl ConstantTimeEq for Fq {
    fn ct_eq(&self, other: &Fq) -> Choice {
        let self_limbs = self.0 .0 .0;
        let other_limbs = other.0 .0 .0;
        let mut is_equal = true;
        for i in 0..4 {
            is_equal &= self_limbs[i] == other_limbs[i];
        }
        look("eq", self, other, is_equal);
        Choice::from(is_equal as u8)
    }
}
