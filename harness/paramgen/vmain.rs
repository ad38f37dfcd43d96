//! Parameter generator harness, compiled inside a copy of the generator's own
//! sources (its modules are private).
//!
//!   field K                      the modulus of field K
//!   alpha K 0|1                  exponent choice
//!   enc E|inv                    encodings of an exponent (hexadecimal)
//!   rounds V M T ALPHA LIMBS P   round numbers (M, T, P hexadecimal)
//!   rn RF RP OPS..               round-number record, ops: F=x F+x P=x P+x (hexadecimal)
//!   new I LABEL | sep I K M T RF RP ALPHA | sq I K N | dup I J | app I LABEL HEX
use crate::{alpha, input::InputParameters, rounds, transcript::TranscriptProtocol};
use ark_ff::{BigInt, BigInteger, PrimeField};
use merlin::Transcript;
use poseidon_parameters::v1::{Alpha, RoundNumbers};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}
fn hex_of(le: &[u8]) -> String {
    let s: String = le.iter().rev().map(|b| format!("{:02x}", b)).collect();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}
fn hex<T: BigInteger>(x: &T) -> String { hex_of(&x.to_bytes_le()) }
fn num(s: &str) -> usize { usize::from_str_radix(s, 16).expect("HARNESS number") }
fn bytes(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("HARNESS hex")).collect()
}
fn big<const N: usize>(h: &str) -> BigInt<N> {
    let mut b = BigInt::<N>([0u64; N]);
    for (i, c) in h.bytes().rev().enumerate() {
        b.0[i / 16] |= ((c as char).to_digit(16).expect("HARNESS hex") as u64) << (4 * (i % 16));
    }
    b
}
fn alpha_of(s: &str) -> Alpha {
    if s == "inv" { Alpha::Inverse } else { Alpha::Exponent(u32::from_str_radix(s, 16).expect("HARNESS alpha")) }
}
fn show(a: &Alpha) -> String { match a { Alpha::Exponent(e) => format!("{:x}", e), Alpha::Inverse => "inv".into() } }
fn input<T: BigInteger>(m: usize, t: usize, p: T, inv: bool) -> InputParameters<T> { InputParameters::generate(m, t, p, inv) }

type Ts = HashMap<String, Transcript>;
fn do_field<F: PrimeField>(k: &str) -> String {
    format!("{{\"op\":\"field\",\"fail\":\"\",\"k\":{},\"p\":{},\"nbytes\":{}}}", q(k), q(&hex(&F::MODULUS)), F::MODULUS.to_bytes_le().len())
}
fn do_alpha<F: PrimeField>(inv: bool) -> String {
    let r = guard(|| alpha::generate::<F>(F::MODULUS, inv));
    format!("{{\"op\":\"alpha\",\"fail\":\"\",\"p\":{},\"inv\":{},\"out\":{}}}", q(&hex(&F::MODULUS)), inv,
        match r { Ok(a) => q(&show(&a)), Err(_) => q("refused") })
}
fn do_sep<F: PrimeField>(ts: &mut Ts, w: &[&str]) -> String {
    let t = ts.get_mut(w[1]).expect("HARNESS transcript");
    let (m, width, rf, rp, a) = (num(w[3]), num(w[4]), num(w[5]), num(w[6]), alpha_of(w[7]));
    let r = guard(|| t.domain_sep::<F>(&input(m, width, F::MODULUS, true), RoundNumbers { r_F: rf, r_P: rp }, a));
    let s = F::MODULUS.to_bytes_le().len();
    format!("{{\"op\":\"sep\",\"fail\":{},\"i\":{},\"M\":{},\"t\":{},\"p\":{},\"nbytes\":{},\"rF\":{},\"rP\":{},\"alpha\":{}}}",
        q(&r.err().unwrap_or_default()), q(w[1]), q(w[3]), q(w[4]), q(&hex(&F::MODULUS)), s, q(w[5]), q(w[6]), q(w[7]))
}
fn do_sq<F: PrimeField>(ts: &mut Ts, w: &[&str]) -> String {
    let t = ts.get_mut(w[1]).expect("HARNESS transcript");
    let n = num(w[3]);
    let r = guard(|| (0..n).map(|_| q(&hex(&t.round_constant::<F>().into_bigint()))).collect::<Vec<_>>());
    let (f, o) = match r { Ok(v) => (String::new(), v.join(",")), Err(e) => (format!("panic: {}", e), String::new()) };
    format!("{{\"op\":\"sq\",\"fail\":{},\"i\":{},\"p\":{},\"n\":{},\"out\":[{}]}}", q(&f), q(w[1]), q(&hex(&F::MODULUS)), n, o)
}

/// consts I K V M T RF RP ALPHA: the round-constant matrix; optc I K T RF RP C.. M..: the
/// optimized one (entries of the constants and of the matrix by rows)
#[cfg(feature = "consts")]
fn do_consts<F: PrimeField>(_: &mut Ts, w: &[&str]) -> String {
    use crate::round_constants as rc;
    let (m, t, rf, rp, a) = (num(w[4]), num(w[5]), num(w[6]), num(w[7]), alpha_of(w[8]));
    let (i, r) = (input(m, t, F::MODULUS, true), RoundNumbers { r_F: rf, r_P: rp });
    let o = guard(|| if w[3] == "1" { rc::v1_generate::<F>(&i, r, a) } else { rc::v2_generate::<F>(&i, r, a) });
    format!("{{\"op\":\"consts\",{},\"v\":{},\"M\":{},\"t\":{},\"p\":{},\"rF\":{},\"rP\":{},\"alpha\":{}}}",
        mat(o), w[3], q(w[4]), t, q(&hex(&F::MODULUS)), rf, rp, q(w[8]))
}
#[cfg(feature = "consts")]
fn mat<F: PrimeField>(o: Result<poseidon_parameters::v1::ArcMatrix<F>, String>) -> String {
    use poseidon_parameters::v1::MatrixOperations;
    match o {
        Ok(o) => format!("\"fail\":\"\",\"rows\":{},\"cols\":{},\"out\":[{}]", o.n_rows(), o.n_cols(),
            o.elements().iter().map(|x| q(&hex(&x.into_bigint()))).collect::<Vec<_>>().join(",")),
        Err(e) => format!("\"fail\":{},\"rows\":0,\"cols\":0,\"out\":[]", q(&e)),
    }
}
#[cfg(feature = "consts")]
fn do_optc<F: PrimeField>(_: &mut Ts, w: &[&str]) -> String {
    use crate::round_constants as rc;
    use poseidon_parameters::v1::{ArcMatrix, MatrixOperations, MdsMatrix};
    let (t, rf, rp) = (num(w[3]), num(w[4]), num(w[5]));
    let e: Vec<F> = w[6..].iter().map(|x| {
        let h = if x.len() % 2 == 1 { format!("0{}", x) } else { x.to_string() };
        F::from_be_bytes_mod_order(&bytes(&h))
    }).collect();
    let n = (rf + rp) * t;
    let (arc, mds) = (ArcMatrix::new(rf + rp, t, e[..n].to_vec()), MdsMatrix::new(t, t, e[n..].to_vec()));
    let o = guard(|| rc::generate_optimized(&arc, &mds, &RoundNumbers { r_F: rf, r_P: rp }).0);
    format!("{{\"op\":\"optc\",{},\"t\":{},\"p\":{},\"rF\":{},\"rP\":{},\"arc\":[{}],\"mds\":[{}]}}", mat(o), t, q(&hex(&F::MODULUS)), rf, rp,
        e[..n].iter().map(|x| q(&hex(&x.into_bigint()))).collect::<Vec<_>>().join(","),
        e[n..].iter().map(|x| q(&hex(&x.into_bigint()))).collect::<Vec<_>>().join(","))
}

macro_rules! sep {
    (sep $f:ident $m:ident $F:ident $ts:ident $w:ident) => { $f::<$m::$F>($ts, $w) };
    (no $f:ident $m:ident $F:ident $ts:ident $w:ident) => { panic!("HARNESS no transcripts over this field") };
}
macro_rules! fields { ($($m:ident $F:ident $i:literal $n:literal $sep:ident $p:tt;)*) => {
    $(mod $m {
        use ark_ff::fields::{Fp, MontBackend, MontConfig};
        pub struct C;
        // roots of unity are not used by the generator
        impl MontConfig<$n> for C {
            const MODULUS: ark_ff::BigInt<$n> = ark_ff::BigInt::new($p);
            const GENERATOR: Fp<MontBackend<Self, $n>, $n> = Fp::new_unchecked(<Self as MontConfig<$n>>::R);
            const TWO_ADIC_ROOT_OF_UNITY: Fp<MontBackend<Self, $n>, $n> = Fp::new_unchecked(<Self as MontConfig<$n>>::R);
        }
        pub type $F = Fp<MontBackend<C, $n>, $n>;
    })*
    fn on_field(k: &str, ts: &mut Ts, w: &[&str]) -> String {
        match k.parse::<usize>().expect("HARNESS field") {
            $($i => match w[0] {
                "field" => do_field::<$m::$F>(k),
                "alpha" => do_alpha::<$m::$F>(w[2] == "1"),
                "sep" => sep!($sep do_sep $m $F ts w),
                "sq" => sep!($sep do_sq $m $F ts w),
                #[cfg(feature = "consts")]
                "consts" => sep!($sep do_consts $m $F ts w),
                #[cfg(feature = "consts")]
                "optc" => sep!($sep do_optc $m $F ts w),
                _ => unreachable!(),
            },)*
            _ => panic!("HARNESS field {}", k),
        }
    }
} }
include!("fields.in");

fn do_rounds<const N: usize>(w: &[&str]) -> String {
    let (m, t, a, p) = (num(w[2]), num(w[3]), alpha_of(w[4]), big::<N>(w[6]));
    let i = guard(|| input(m, t, p, true));
    let (lg, same) = match &i {
        Ok(i) => ((i.log_2_p * 1024.0).floor() as i64, i.M == m && i.t == t && i.p == p && i.allow_inverse),
        Err(_) => (-1, false),
    };
    let r = i.map_err(|_| "input".to_string()).and_then(|i| guard(|| if w[1] == "1" { rounds::v1_generate(&i, &a) } else { rounds::v2_generate(&i, &a) }));
    let out = match r { Ok(r) => format!("[{},{}]", r.full(), r.partial()), Err(_) => "[]".into() };
    format!("{{\"op\":\"rounds\",\"fail\":\"\",\"v\":{},\"M\":{},\"t\":{},\"alpha\":{},\"p\":{},\"lg\":{},\"same\":{},\"out\":{}}}", w[1], m, t, q(w[4]), q(w[6]), lg, same, out)
}
fn do_rn(w: &[&str]) -> String {
    let mut r = RoundNumbers { r_F: num(w[1]), r_P: num(w[2]) };
    let mut out = Vec::new();
    let mut see = |r: &RoundNumbers| out.push(format!("[{},{},{},{},{}]", q(&format!("{:x}", r.full())), q(&format!("{:x}", r.partial())),
        q(&format!("{:x}", r.total())), q(&format!("{:x}", r.r_F)), q(&format!("{:x}", r.r_P))));
    see(&r);
    for o in &w[3..] {
        let x = num(&o[2..]);
        match &o[..2] {
            "F=" => *r.full_mut() = x,
            "F+" => *r.full_mut() += x,
            "P=" => *r.partial_mut() = x,
            "P+" => *r.partial_mut() += x,
            _ => panic!("HARNESS op"),
        }
        see(&r);
    }
    format!("{{\"op\":\"rn\",\"fail\":\"\",\"start\":[{},{}],\"ops\":[{}],\"seen\":[{}]}}", q(w[1]), q(w[2]),
        w[3..].iter().map(|o| format!("[{},{},{}]", q(&o[..1]), q(&o[1..2]), q(&o[2..]))).collect::<Vec<_>>().join(","), out.join(","))
}
fn do_enc(s: &str) -> String {
    let a = alpha_of(s);
    let r = guard(|| (a.to_bytes_le(), f64::from(a)));
    match r {
        Ok((b, f)) => format!("{{\"op\":\"enc\",\"fail\":\"\",\"alpha\":{},\"le\":[{}],\"whole\":{},\"num\":{},\"eq\":{}}}", q(s),
            b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), f.fract() == 0.0,
            q(&if f < 0.0 { format!("-{:x}", (-f) as u128) } else { format!("{:x}", f as u128) }),
            a == alpha_of(s) && a != Alpha::Exponent(18) && (a == Alpha::Inverse) == (s == "inv")),
        Err(m) => format!("{{\"op\":\"enc\",\"alpha\":{},\"fail\":{}}}", q(s), q(&m)),
    }
}

pub fn main() {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); if m.contains("HARNESS") { eprintln!("{}", m); } }));
    let flush = std::env::var("VFLUSH").is_ok();
    let stdout = std::io::stdout();
    let mut o = std::io::BufWriter::new(stdout.lock());
    let mut ts: Ts = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("HARNESS stdin");
        let w: Vec<&str> = line.split_ascii_whitespace().collect();
        let plain = |op: &str, rest: String| format!("{{\"op\":{},\"fail\":\"\",{}}}", q(op), rest);
        let s = match w[0] {
            "field" | "alpha" => on_field(w[1], &mut ts, &w),
            "sep" | "sq" | "consts" | "optc" => on_field(w[2], &mut ts, &w),
            "enc" => do_enc(w[1]),
            "rn" => do_rn(&w),
            "rounds" => match w[5] {
                "1" => do_rounds::<1>(&w), "2" => do_rounds::<2>(&w), "3" => do_rounds::<3>(&w), "4" => do_rounds::<4>(&w),
                "5" => do_rounds::<5>(&w), "6" => do_rounds::<6>(&w), "7" => do_rounds::<7>(&w), "8" => do_rounds::<8>(&w), "12" => do_rounds::<12>(&w),
                _ => panic!("HARNESS limbs"),
            },
            "new" => {
                let l: &'static [u8] = Box::leak(w[2].as_bytes().to_vec().into_boxed_slice());
                ts.insert(w[1].into(), Transcript::new(l));
                plain("new", format!("\"i\":{},\"label\":{}", q(w[1]), q(w[2])))
            }
            "dup" => {
                let t = ts[w[1]].clone();
                ts.insert(w[2].into(), t);
                plain("dup", format!("\"i\":{},\"j\":{}", q(w[1]), q(w[2])))
            }
            "app" => {
                let l: &'static [u8] = Box::leak(w[2].as_bytes().to_vec().into_boxed_slice());
                let d = bytes(w[3]);
                ts.get_mut(w[1]).expect("HARNESS transcript").append_message(l, &d);
                plain("app", format!("\"i\":{},\"label\":{},\"data\":[{}]", q(w[1]), q(w[2]), d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            }
            x => panic!("HARNESS command {}", x),
        };
        writeln!(o, "{}", s).expect("HARNESS stdout");
        if flush { o.flush().expect("HARNESS stdout"); }
    }
}
