//! The matrix interface the generator's round-constant module is written against
//! (matrices over any field, sizes known at run time), which poseidon-parameters no
//! longer has.  A stand-in, so that the module can be run at all.
#![allow(non_snake_case)]
pub mod v1 {
    use ark_ff::PrimeField;
    pub use real::v1::{Alpha, RoundNumbers};
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Matrix<F: PrimeField> { n: usize, m: usize, e: Vec<F> }
    pub trait MatrixOperations<F> {
        fn new(n_rows: usize, n_cols: usize, elements: Vec<F>) -> Self;
        fn elements(&self) -> &Vec<F>;
        fn get_element(&self, i: usize, j: usize) -> F;
        fn set_element(&mut self, i: usize, j: usize, val: F);
        fn n_rows(&self) -> usize;
        fn n_cols(&self) -> usize;
        fn rows(&self) -> Vec<&[F]>;
        fn transpose(&self) -> Self;
    }
    impl<F: PrimeField> MatrixOperations<F> for Matrix<F> {
        fn new(n: usize, m: usize, e: Vec<F>) -> Self {
            assert_eq!(n * m, e.len(), "matrix has the wrong number of elements");
            Matrix { n, m, e }
        }
        fn elements(&self) -> &Vec<F> { &self.e }
        fn get_element(&self, i: usize, j: usize) -> F { assert!(i < self.n && j < self.m); self.e[i * self.m + j] }
        fn set_element(&mut self, i: usize, j: usize, v: F) { assert!(i < self.n && j < self.m); self.e[i * self.m + j] = v }
        fn n_rows(&self) -> usize { self.n }
        fn n_cols(&self) -> usize { self.m }
        fn rows(&self) -> Vec<&[F]> { self.e.chunks(self.m).collect() }
        fn transpose(&self) -> Self {
            Matrix { n: self.m, m: self.n, e: (0..self.m).flat_map(|j| (0..self.n).map(move |i| self.e[i * self.m + j])).collect() }
        }
    }
    impl<F: PrimeField> Matrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> { assert!(i < self.n); Matrix { n: 1, m: self.m, e: self.e[i * self.m..(i + 1) * self.m].to_vec() } }
    }
    pub fn mat_mul<F: PrimeField>(a: &Matrix<F>, b: &Matrix<F>) -> Result<Matrix<F>, String> {
        if a.m != b.n { return Err("matrices do not conform".into()); }
        let mut e = vec![];
        for i in 0..a.n {
            for j in 0..b.m {
                e.push((0..a.m).map(|k| a.e[i * a.m + k] * b.e[k * b.m + j]).sum());
            }
        }
        Ok(Matrix { n: a.n, m: b.m, e })
    }
    macro_rules! wrapper { ($W:ident $I:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $W<F: PrimeField>(pub $I<F>);
        impl<F: PrimeField> MatrixOperations<F> for $W<F> {
            fn new(n: usize, m: usize, e: Vec<F>) -> Self { $W($I::new(n, m, e)) }
            fn elements(&self) -> &Vec<F> { self.0.elements() }
            fn get_element(&self, i: usize, j: usize) -> F { self.0.get_element(i, j) }
            fn set_element(&mut self, i: usize, j: usize, v: F) { self.0.set_element(i, j, v) }
            fn n_rows(&self) -> usize { self.0.n_rows() }
            fn n_cols(&self) -> usize { self.0.n_cols() }
            fn rows(&self) -> Vec<&[F]> { self.0.rows() }
            fn transpose(&self) -> Self { $W(self.0.transpose()) }
        }
    } }
    wrapper!(SquareMatrix Matrix);
    wrapper!(MdsMatrix SquareMatrix);
    wrapper!(ArcMatrix Matrix);
    wrapper!(OptimizedArcMatrix ArcMatrix);
    impl<F: PrimeField> SquareMatrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> { self.0.row_vector(i) }
        /// Gauss-Jordan
        pub fn inverse(&self) -> Result<SquareMatrix<F>, String> {
            let n = self.0.n;
            let mut a = self.0.e.clone();
            let mut b: Vec<F> = (0..n * n).map(|k| if k / n == k % n { F::one() } else { F::zero() }).collect();
            for c in 0..n {
                let p = (c..n).find(|&r| !a[r * n + c].is_zero()).ok_or("no inverse")?;
                for k in 0..n { a.swap(c * n + k, p * n + k); b.swap(c * n + k, p * n + k); }
                let d = a[c * n + c].inverse().unwrap();
                for k in 0..n { a[c * n + k] *= d; b[c * n + k] *= d; }
                for r in 0..n {
                    if r != c {
                        let f = a[r * n + c];
                        for k in 0..n { let (x, y) = (a[c * n + k], b[c * n + k]); a[r * n + k] -= f * x; b[r * n + k] -= f * y; }
                    }
                }
            }
            Ok(SquareMatrix(Matrix { n, m: n, e: b }))
        }
    }
    impl<F: PrimeField> MdsMatrix<F> {
        pub fn inverse(&self) -> SquareMatrix<F> { self.0.inverse().expect("all well-formed MDS matrices should have inverses") }
    }
    impl<F: PrimeField> ArcMatrix<F> {
        pub fn row_vector(&self, i: usize) -> Matrix<F> { self.0.row_vector(i) }
    }
    impl<F: PrimeField> From<ArcMatrix<F>> for Vec<Vec<F>> {
        fn from(a: ArcMatrix<F>) -> Self { a.0.rows().into_iter().map(|r| r.to_vec()).collect() }
    }
}
