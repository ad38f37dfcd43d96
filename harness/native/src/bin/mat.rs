//! Matrix harness: a table of matrix objects, one command per line.
use std::any::Any;
use std::collections::BTreeMap;
use vnative::*;
use poseidon_parameters::v1::*;

/// values and operations; the watched build marks values and reports looks at them
#[cfg(feature = "watch")]
fn fq(s: &str) -> Fq { vnative::fq(s).mark() }
#[cfg(not(feature = "watch"))]
fn op<T>(f: impl FnOnce() -> T) -> Result<T, String> { guard(f) }
#[cfg(feature = "watch")]
fn op<T>(f: impl FnOnce() -> T) -> Result<T, String> { Fq::go_on(); let r = guard(f); Fq::pause(); r }

type B = Box<dyn Obj>;
trait Obj: Any {
    fn any(&self) -> &dyn Any;
    fn ty(&self) -> &'static str;
    fn nr(&self) -> usize;
    fn nc(&self) -> usize;
    fn elems(&self) -> Vec<Fq>;
    fn rows_(&self) -> Vec<Vec<Fq>>;
    fn at(&self, i: usize, j: usize) -> Fq;
    fn put(&mut self, i: usize, j: usize, v: Fq);
    fn copy(&self) -> B;
    fn any_mut(&mut self) -> &mut dyn Any;
    /// `clone_from` into an object of the same type; false: another type
    fn copy_into(&self, to: &mut dyn Obj) -> bool;
    fn same(&self, o: &dyn Obj) -> bool;
    fn ne_(&self, o: &dyn Obj) -> bool;
    fn rebuilt(&self) -> B;
    fn tr(&self) -> B;
    fn had(&self, o: &dyn Obj) -> Result<B, String>;
    fn scale(&self, _x: Fq) -> B { panic!("HARNESS scale") }
    fn row(&self, _i: usize) -> B { panic!("HARNESS row") }
    fn inner(&self) -> B { panic!("HARNESS inner") }
    fn wrap(&self) -> B { panic!("HARNESS wrap") }
    fn cof(&self) -> B { panic!("HARNESS cof") }
    fn minors_(&self) -> B { panic!("HARNESS minors") }
    fn inv(&self) -> Result<B, String> { panic!("HARNESS inv") }
    fn det(&self) -> Fq { panic!("HARNESS det") }
    fn split(&self, _w: &str) -> B { panic!("HARNESS split") }
    fn other_elems(&self) -> Vec<Fq> { self.elems() }
}
macro_rules! common {
    ($ty:literal) => {
        fn any(&self) -> &dyn Any { self }
        fn ty(&self) -> &'static str { $ty }
        fn nr(&self) -> usize { self.n_rows() }
        fn nc(&self) -> usize { self.n_cols() }
        fn elems(&self) -> Vec<Fq> { self.elements().to_vec() }
        fn rows_(&self) -> Vec<Vec<Fq>> { self.iter_rows().map(|r| r.to_vec()).collect() }
        fn at(&self, i: usize, j: usize) -> Fq { self.get_element(i, j) }
        fn put(&mut self, i: usize, j: usize, v: Fq) { self.set_element(i, j, v) }
        fn copy(&self) -> B { Box::new(self.clone()) }
        fn any_mut(&mut self) -> &mut dyn Any { self }
        fn copy_into(&self, to: &mut dyn Obj) -> bool {
            match to.any_mut().downcast_mut::<Self>() { Some(x) => { x.clone_from(self); true } None => false }
        }
        fn same(&self, o: &dyn Obj) -> bool { self == o.any().downcast_ref::<Self>().expect("HARNESS types") }
        fn ne_(&self, o: &dyn Obj) -> bool { self != o.any().downcast_ref::<Self>().expect("HARNESS types") }
        fn rebuilt(&self) -> B { Box::new(Self::new(&self.elements().to_vec())) }
        fn had(&self, o: &dyn Obj) -> Result<B, String> {
            match self.hadamard_product(o.any().downcast_ref::<Self>().expect("HARNESS types")) {
                Ok(x) => Ok(Box::new(x)),
                Err(e) => Err(format!("{}", e)),
            }
        }
    };
}
impl<const R: usize, const C: usize, const N: usize> Obj for Matrix<R, C, N> {
    common!("M");
    fn tr(&self) -> B { Box::new(self.transpose()) }
    fn scale(&self, x: Fq) -> B { Box::new(self.clone() * x) }
    fn row(&self, i: usize) -> B { Box::new(self.row_vector(i)) }
    fn wrap(&self) -> B { Box::new(ArcMatrix(self.clone())) }
    fn other_elems(&self) -> Vec<Fq> { self.elements.to_vec() }
}
impl<const R: usize, const C: usize, const N: usize> Obj for ArcMatrix<R, C, N> {
    common!("A");
    fn tr(&self) -> B { Box::new(self.transpose()) }
    fn inner(&self) -> B { Box::new(self.0.clone()) }
    fn wrap(&self) -> B { Box::new(OptimizedArcMatrix(self.clone())) }
    fn other_elems(&self) -> Vec<Fq> { self.inner_elements().to_vec() }
}
impl<const R: usize, const C: usize, const N: usize> Obj for OptimizedArcMatrix<R, C, N> {
    common!("O");
    fn tr(&self) -> B { Box::new(self.transpose()) }
    fn inner(&self) -> B { Box::new(self.0.clone()) }
    fn other_elems(&self) -> Vec<Fq> { self.0.inner_elements().to_vec() }
}
impl<const R: usize, const N: usize> Obj for SquareMatrix<R, N> {
    common!("S");
    fn tr(&self) -> B { Box::new(self.transpose()) }
    fn scale(&self, x: Fq) -> B { Box::new(self.clone() * x) }
    fn row(&self, i: usize) -> B { Box::new(self.row_vector(i)) }
    fn inner(&self) -> B { Box::new(self.0.clone()) }
    fn cof(&self) -> B { Box::new(self.cofactors()) }
    fn minors_(&self) -> B { Box::new(self.minors()) }
    fn inv(&self) -> Result<B, String> {
        match self.inverse() { Ok(x) => Ok(Box::new(x)), Err(e) => Err(format!("{:?}", e)) }
    }
    fn det(&self) -> Fq { self.determinant() }
}
impl<const R: usize, const R1: usize, const N: usize, const N1: usize> Obj for MdsMatrix<R, R1, N, N1> {
    common!("D");
    fn tr(&self) -> B { Box::new(self.transpose()) }
    fn inner(&self) -> B { Box::new(self.0.clone()) }
    fn inv(&self) -> Result<B, String> { Ok(Box::new(self.inverse())) }
    fn split(&self, w: &str) -> B {
        match w { "v" => Box::new(self.v()), "w" => Box::new(self.w()), _ => Box::new(self.hat()) }
    }
}

macro_rules! rect { ($($r:literal $c:literal $n:literal,)*) => {
    fn make_rect(ty: &str, how: &str, r: usize, c: usize, e: &[Fq]) -> B {
        match (r, c) { $(($r, $c) => match (ty, how) {
            ("M", "new") => Box::new(Matrix::<$r, $c, $n>::new(e)),
            ("A", "new") => Box::new(ArcMatrix::<$r, $c, $n>::new(e)),
            ("O", "new") => Box::new(OptimizedArcMatrix::<$r, $c, $n>::new(e)),
            ("M", "known") => Box::new(Matrix::<$r, $c, $n>::new_from_known(e.try_into().expect("HARNESS len"))),
            ("A", "known") => Box::new(ArcMatrix::<$r, $c, $n>::new_from_known(e.try_into().expect("HARNESS len"))),
            ("O", "known") => Box::new(OptimizedArcMatrix::<$r, $c, $n>::new_from_known(e.try_into().expect("HARNESS len"))),
            _ => panic!("HARNESS make"),
        },)* _ => panic!("HARNESS shape {} {}", r, c) }
    }
} }
macro_rules! square { ($($r:literal $n:literal,)*) => {
    fn make_square(how: &str, r: usize, e: &[Fq]) -> B {
        match r { $($r => match how {
            "new" => Box::new(SquareMatrix::<$r, $n>::new(e)),
            "known" => Box::new(SquareMatrix::<$r, $n>::new_from_known(e.try_into().expect("HARNESS len"))),
            "ident" => Box::new(SquareMatrix::<$r, $n>::identity()),
            "m22" => Box::new(SquareMatrix::<$r, $n>::new_2x2(e[0], e[1], e[2], e[3])),
            _ => panic!("HARNESS make"),
        },)* _ => panic!("HARNESS shape") }
    }
    fn wrap_square(m: &dyn Obj) -> B {
        match m.nr() { $($r => Box::new(SquareMatrix(m.any().downcast_ref::<Matrix<$r, $r, $n>>().expect("HARNESS sq").clone())),)* _ => panic!("HARNESS shape") }
    }
    fn mul_square(a: &dyn Obj, b: &dyn Obj) -> B {
        match a.nr() { $($r => Box::new(square_mat_mul::<$r, $n, $r, $n, $n>(
            a.any().downcast_ref().expect("HARNESS sq"), b.any().downcast_ref().expect("HARNESS sq"))),)* _ => panic!("HARNESS shape") }
    }
} }
macro_rules! mds { ($($r:literal $r1:literal $n:literal $n1:literal,)*) => {
    fn make_mds(how: &str, r: usize, e: &[Fq]) -> B {
        match r { $($r => match how {
            "new" => Box::new(MdsMatrix::<$r, $r1, $n, $n1>::new(e)),
            "from" => Box::new(MdsMatrix::<$r, $r1, $n, $n1>::from_elements(e)),
            "known" => Box::new(MdsMatrix::<$r, $r1, $n, $n1>::new_from_known(e.try_into().expect("HARNESS len"))),
            _ => panic!("HARNESS make"),
        },)* _ => panic!("HARNESS shape") }
    }
    fn wrap_mds(m: &dyn Obj) -> B {
        match m.nr() { $($r => Box::new(MdsMatrix::<$r, $r1, $n, $n1>(m.any().downcast_ref::<SquareMatrix<$r, $n>>().expect("HARNESS sq").clone())),)* _ => panic!("HARNESS shape") }
    }
} }
macro_rules! muls { ($($r:literal $k:literal $c:literal $a:literal $b:literal $n:literal,)*) => {
    fn mul_rect(a: &dyn Obj, b: &dyn Obj) -> B {
        match (a.nr(), a.nc(), b.nc()) { $(($r, $k, $c) => Box::new(mat_mul::<$r, $k, $a, $k, $c, $b, $n>(
            a.any().downcast_ref().expect("HARNESS rect"), b.any().downcast_ref().expect("HARNESS rect"))),)*
            _ => panic!("HARNESS mul shape") }
    }
} }
include!("mat_shapes.in");

/// constructions that every type must refuse
fn bad() -> Vec<(&'static str, bool)> {
    let z = |n: usize| vec![Fq::from(7u64); n];
    let mut v = Vec::new();
    macro_rules! b { ($name:literal, $e:expr) => { v.push(($name, guard(|| { let _ = $e; }).is_err())); } }
    b!("Matrix<2,3,5>::new of 5", Matrix::<2, 3, 5>::new(&z(5)));
    b!("Matrix<2,3,5>::new of 6", Matrix::<2, 3, 5>::new(&z(6)));
    b!("Matrix<2,3,7>::new of 7", Matrix::<2, 3, 7>::new(&z(7)));
    b!("Matrix<2,3,7>::new of 6", Matrix::<2, 3, 7>::new(&z(6)));
    b!("Matrix<2,3,5>::new_from_known", Matrix::<2, 3, 5>::new_from_known([Fq::from(1u64); 5]));
    b!("Matrix<2,3,7>::new_from_known", Matrix::<2, 3, 7>::new_from_known([Fq::from(1u64); 7]));
    b!("Matrix<1,1,0>::new_from_known", Matrix::<1, 1, 0>::new_from_known([]));
    b!("ArcMatrix<3,2,5>::new of 5", ArcMatrix::<3, 2, 5>::new(&z(5)));
    b!("ArcMatrix<3,2,5>::new_from_known", ArcMatrix::<3, 2, 5>::new_from_known([Fq::from(1u64); 5]));
    b!("OptimizedArcMatrix<3,2,7>::new of 7", OptimizedArcMatrix::<3, 2, 7>::new(&z(7)));
    b!("OptimizedArcMatrix<3,2,7>::new_from_known", OptimizedArcMatrix::<3, 2, 7>::new_from_known([Fq::from(1u64); 7]));
    b!("SquareMatrix<3,8>::new of 8", SquareMatrix::<3, 8>::new(&z(8)));
    b!("SquareMatrix<3,10>::new of 10", SquareMatrix::<3, 10>::new(&z(10)));
    b!("SquareMatrix<3,8>::new_from_known", SquareMatrix::<3, 8>::new_from_known([Fq::from(1u64); 8]));
    b!("MdsMatrix<3,2,8,4>::new of 8", MdsMatrix::<3, 2, 8, 4>::new(&z(8)));
    b!("MdsMatrix<3,2,10,4>::new_from_known", MdsMatrix::<3, 2, 10, 4>::new_from_known([Fq::from(1u64); 10]));
    b!("MdsMatrix<3,2,8,4>::from_elements of 8", MdsMatrix::<3, 2, 8, 4>::from_elements(&z(8)));
    b!("MdsMatrix<3,1,9,1>::new of 9", MdsMatrix::<3, 1, 9, 1>::new(&z(9)));
    b!("MdsMatrix<3,2,9,9>::new of 9", MdsMatrix::<3, 2, 9, 9>::new(&z(9)));
    v
}

#[allow(dead_code)]
fn main() { serve(machine()); }

pub fn machine() -> impl FnMut(&[&str]) -> String {
    let mut tab: BTreeMap<String, B> = BTreeMap::new();
    move |w| {
        let n = |k: usize| w[k].parse::<usize>().expect("HARNESS number");
        let val = |k: usize| fq(w[k]);
        let done = |head: String, r: Result<String, String>| -> String {
            match r {
                Ok(x) => format!("{{{},\"fail\":\"\",\"res\":{}}}", head, x),
                Err(m) => { if m.contains("HARNESS") { panic!("{}", m) } format!("{{{},\"fail\":{}}}", head, q(&format!("panic: {}", m))) }
            }
        };
        match w[0] {
            "reset" => { tab.clear(); "{\"op\":\"reset\",\"fail\":\"\"}".into() }
            // new|known|from id ty r c e..      m22 id S 2 2 e..
            "new" | "known" | "from" | "m22" => {
                let (r, c) = (n(3), n(4));
                let e: Vec<Fq> = w[5..].iter().map(|x| fq(x)).collect();
                let m = op(|| match w[2] {
                    "S" => make_square(w[0], r, &e),
                    "D" => make_mds(w[0], r, &e),
                    t => make_rect(t, w[0], r, c, &e),
                });
                let head = format!("\"op\":{},\"i\":{},\"ty\":{},\"r\":{},\"c\":{},\"e\":{}", q(w[0]), q(w[1]), q(w[2]), r, c, row(&e));
                let ok = e.len() == r * c;
                match m {
                    Ok(x) => { tab.insert(w[1].into(), x); done(head, Ok("\"ok\"".into())) }
                    Err(m) if m.contains("HARNESS") => panic!("{}", m),
                    Err(m) => done(head, if ok { Err(m) } else { Ok("\"refused\"".into()) }),
                }
            }
            "ident" => {
                let m = op(|| make_square("ident", n(2), &[]));
                done(format!("\"op\":\"ident\",\"i\":{},\"r\":{}", q(w[1]), n(2)), m.map(|x| { tab.insert(w[1].into(), x); "\"ok\"".into() }))
            }
            // one-operand creators: op id a ..
            "copy" | "tr" | "inner" | "cof" | "minors" | "inv" | "dinv" | "v" | "w" | "hat" | "scale" | "row" | "wrap" => {
                // a copy over an object of the same type assigns in place
                let old = if w[0] == "copy" && w[1] != w[2] { tab.remove(w[1]) } else { None };
                let a = &tab[w[2]];
                let mut head = format!("\"op\":{},\"i\":{},\"a\":{}", q(w[0]), q(w[1]), q(w[2]));
                let r: Result<Result<B, String>, String> = op(|| Ok(match w[0] {
                    "copy" => match old {
                        Some(mut x) => if a.copy_into(x.as_mut()) { x } else { a.copy() },
                        None => a.copy(),
                    },
                    "tr" => a.tr(),
                    "inner" => a.inner(),
                    "cof" => a.cof(),
                    "minors" => a.minors_(),
                    "inv" | "dinv" => return a.inv(),
                    "scale" => a.scale(val(3)),
                    "row" => a.row(n(3)),
                    "wrap" => match w[3] { "S" => wrap_square(a.as_ref()), "D" => wrap_mds(a.as_ref()), _ => a.wrap() },
                    s => a.split(s),
                }));
                match w[0] {
                    "scale" => head += &format!(",\"x\":{}", q(w[3])),
                    "row" => head += &format!(",\"r\":{}", n(3)),
                    "wrap" => head += &format!(",\"ty\":{}", q(w[3])),
                    _ => {}
                }
                let r = match r {
                    Ok(Ok(x)) => { tab.insert(w[1].into(), x); Ok("\"ok\"".to_string()) }
                    Ok(Err(e)) => Ok(if e == "NoMatrixInverse" { "\"singular\"".into() } else { q(&format!("error: {}", e)) }),
                    Err(m) => Err(m),
                };
                done(head, r)
            }
            "had" | "mul" => {
                let (a, b) = (&tab[w[2]], &tab[w[3]]);
                let r: Result<Result<B, String>, String> = op(|| match w[0] {
                    "had" => a.had(b.as_ref()),
                    _ => Ok(if a.ty() == "S" { mul_square(a.as_ref(), b.as_ref()) } else { mul_rect(a.as_ref(), b.as_ref()) }),
                });
                let head = format!("\"op\":{},\"i\":{},\"a\":{},\"b\":{}", q(w[0]), q(w[1]), q(w[2]), q(w[3]));
                let r = match r {
                    Ok(Ok(x)) => { tab.insert(w[1].into(), x); Ok("\"ok\"".to_string()) }
                    Ok(Err(e)) => Ok(q(&format!("error: {}", e))),
                    Err(m) => Err(m),
                };
                done(head, r)
            }
            "eq" => done(format!("\"op\":\"eq\",\"a\":{},\"b\":{}", q(w[1]), q(w[2])), op(|| {
                let (x, y) = (tab[w[1]].same(tab[w[2]].as_ref()), tab[w[1]].ne_(tab[w[2]].as_ref()));
                if x == y { panic!("eq and ne agree") }
                x.to_string()
            })),
            "det" => { let r = op(|| tab[w[1]].det()).map(|x| qx(&x)); done(format!("\"op\":\"det\",\"a\":{}", q(w[1])), r) }
            "set" => {
                let m = tab.get_mut(w[1]).expect("HARNESS id");
                let r = op(|| { m.put(n(2), n(3), val(4)); "\"ok\"".into() });
                done(format!("\"op\":\"set\",\"i\":{},\"r\":{},\"c\":{},\"x\":{}", q(w[1]), n(2), n(3), q(w[4])), r)
            }
            "get" => { let r = op(|| tab[w[1]].at(n(2), n(3))).map(|x| qx(&x)); done(format!("\"op\":\"get\",\"i\":{},\"r\":{},\"c\":{}", q(w[1]), n(2), n(3)), r) }
            "drop" => { tab.remove(w[1]); done(format!("\"op\":\"drop\",\"i\":{}", q(w[1])), Ok("\"ok\"".into())) }
            "view" => {
                let m = &tab[w[1]];
                let _ = op(|| (m.nr(), m.nc(), m.elems(), m.rows_(), m.other_elems(), m.copy()));
                let r = guard(|| {
                    let (r, c) = (m.nr(), m.nc());
                    let mut copy = m.same(m.copy().as_ref()) && m.same(m.rebuilt().as_ref()) && m.rebuilt().same(m.as_ref()) && !m.ne_(m.copy().as_ref());
                    copy = copy && m.other_elems() == m.elems();
                    let mut differs = true;
                    for i in 0..r { for j in 0..c {
                        for d in [Fq::from(1u64), Fq::from(1u64 << 63) * Fq::from(4u64), -m.at(i, j)] {
                            if d == Fq::from(0u64) { continue; }
                            let mut x = m.copy();
                            x.put(i, j, m.at(i, j) + d);
                            if x.same(m.as_ref()) || m.same(x.as_ref()) || !x.ne_(m.as_ref()) { differs = false }
                            if !m.copy_into(x.as_mut()) { panic!("HARNESS types") }
                            copy = copy && x.elems() == m.elems() && m.same(x.as_ref());
                        }
                    } }
                    let gets: Vec<String> = (0..r).map(|i| row(&(0..c).map(|j| m.at(i, j)).collect::<Vec<_>>())).collect();
                    format!("{{\"r\":{},\"c\":{},\"elements\":{},\"rows\":{},\"gets\":{},\"copy\":{},\"differs\":{}}}",
                        r, c, row(&m.elems()), arr(&m.rows_().iter().map(|r| row(r)).collect::<Vec<_>>()), arr(&gets), copy, differs)
                });
                done(format!("\"op\":\"view\",\"i\":{}", q(w[1])), r)
            }
            "snap" => {
                let r = guard(|| format!("{{\"-\":[],{}}}", tab.iter().map(|(k, m)| format!("{}:{}", q(k), row(&m.elems()))).collect::<Vec<_>>().join(",")).replace(",}", "}"));
                done("\"op\":\"snap\"".into(), r)
            }
            "bad" => {
                let v: Vec<String> = bad().iter().filter(|x| !x.1).map(|x| q(x.0)).collect();
                format!("{{\"op\":\"bad\",\"fail\":\"\",\"accepted\":{}}}", arr(&v))
            }
            _ => panic!("HARNESS command {}", w[0]),
        }
    }
}
