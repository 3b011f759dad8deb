//! Feature vectors in every storage form, read back without using the code
//! under test, and tolerant comparison.
use lfa::{Features, SparseActivations};
use ndarray::{s, Array1, Array2, ArrayView1, ArrayViewMut1, Axis};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Dense,
    /// Sparse, zero activations left out.
    Sparse,
    /// Sparse, every coordinate stored, zeros included.
    SparseFull,
    /// Dense array that is a reversed view of its buffer.
    DenseRev,
    /// Dense array with stride 2 over its buffer.
    DenseStride,
    /// Dense array that starts inside its buffer.
    DenseOffset,
}

pub const KINDS: [Kind; 6] = [
    Kind::Dense,
    Kind::Sparse,
    Kind::SparseFull,
    Kind::DenseRev,
    Kind::DenseStride,
    Kind::DenseOffset,
];
pub const KINDS4: [Kind; 4] = [Kind::Dense, Kind::Sparse, Kind::SparseFull, Kind::DenseStride];

impl Kind {
    pub fn is_sparse(self) -> bool {
        matches!(self, Kind::Sparse | Kind::SparseFull)
    }
}

pub fn array(kind: Kind, v: &[f64]) -> Array1<f64> {
    let n = v.len();
    match kind {
        Kind::DenseRev => {
            let mut a: Array1<f64> = v.iter().rev().copied().collect();
            a.invert_axis(Axis(0));
            a
        }
        Kind::DenseStride => {
            let mut buf = vec![777.0; 2 * n];
            for i in 0..n {
                buf[2 * i] = v[i];
            }
            Array1::from(buf).slice_move(s![..;2])
        }
        Kind::DenseOffset => {
            let mut buf = vec![777.0; 2];
            buf.extend_from_slice(v);
            buf.push(888.0);
            Array1::from(buf).slice_move(s![2..2 + n])
        }
        _ => Array1::from(v.to_vec()),
    }
}

pub fn build(kind: Kind, v: &[f64]) -> Features {
    match kind {
        Kind::Sparse => Features::Sparse(SparseActivations {
            dim: v.len(),
            activations: v.iter().copied().enumerate().filter(|(_, x)| *x != 0.0).collect(),
        }),
        Kind::SparseFull => Features::Sparse(SparseActivations {
            dim: v.len(),
            activations: v.iter().copied().enumerate().collect(),
        }),
        k => Features::Dense(array(k, v)),
    }
}

/// The plain array a feature vector stands for, read from its public
/// representation only.
pub fn denote(f: &Features) -> Result<Vec<f64>, String> {
    match f {
        Features::Dense(a) => Ok(a.iter().copied().collect()),
        Features::Sparse(sa) => {
            if sa.dim > 1 << 24 {
                return Err(format!("absurd dimension {}", sa.dim));
            }
            let mut v = vec![0.0; sa.dim];
            for (i, x) in sa.activations.iter() {
                if *i >= sa.dim {
                    return Err(format!("active index {} in a vector of length {}", i, sa.dim));
                }
                v[*i] = *x;
            }
            Ok(v)
        }
    }
}

pub fn dim_of(f: &Features) -> usize {
    match f {
        Features::Dense(a) => a.len(),
        Features::Sparse(sa) => sa.dim,
    }
}

pub fn is_sparse(f: &Features) -> bool {
    matches!(f, Features::Sparse(_))
}

pub fn close_tol(a: f64, b: f64, rtol: f64, atol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= atol + rtol * a.abs().max(b.abs())
}

pub fn close(a: f64, b: f64) -> bool {
    close_tol(a, b, 1e-9, 1e-12)
}

pub fn close_vec(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y))
}

pub fn expect_vec(what: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    if close_vec(got, want) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}

pub fn expect_vec_tol(what: &str, got: &[f64], want: &[f64], rtol: f64, atol: f64) -> Result<(), String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(x, y)| close_tol(*x, *y, rtol, atol)) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}

pub fn expect(what: &str, got: f64, want: f64) -> Result<(), String> {
    if close(got, want) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}

/// A sum of terms, accurate relative to their magnitudes only.
pub fn expect_sum(what: &str, got: f64, terms: impl Iterator<Item = f64> + Clone) -> Result<(), String> {
    let want: f64 = terms.clone().sum();
    let scale: f64 = terms.map(f64::abs).sum();
    if close_tol(got, want, 1e-9, 1e-13 * scale) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}

pub fn expect_eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want {:?}", what, got, want))
    }
}

pub fn same_features(what: &str, f: &Features, want: &[f64]) -> Result<(), String> {
    let d = denote(f).map_err(|e| format!("{}: {}", what, e))?;
    expect_vec(what, &d, want)
}

/// Values that are only stored, moved and read come back as they were.
pub fn expect_exact(what: &str, got: f64, want: f64) -> Result<(), String> {
    if got == want || (got.is_nan() && want.is_nan()) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want exactly {:?}", what, got, want))
    }
}

pub fn exact_vec(what: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())) {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, want exactly {:?}", what, got, want))
    }
}

pub fn same_exact(what: &str, f: &Features, want: &[f64]) -> Result<(), String> {
    let d = denote(f).map_err(|e| format!("{}: {}", what, e))?;
    exact_vec(what, &d, want)
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// Where a weight vector of `n` elements lives.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Layout {
    Contiguous,
    /// A column of a row-major matrix.
    Column,
    /// A reversed view.
    Reversed,
    /// Every third element of a longer buffer.
    Strided,
    /// A row of a row-major matrix (contiguous, with neighbours).
    Row,
    /// A column of a column-major matrix.
    FColumn,
}

pub const LAYOUTS: [Layout; 6] = [
    Layout::Contiguous,
    Layout::Column,
    Layout::Reversed,
    Layout::Strided,
    Layout::Row,
    Layout::FColumn,
];

const SENTINEL: f64 = -4321.5;

/// Weights embedded in a larger buffer of sentinels.
#[derive(Clone, Debug)]
pub struct Weights {
    layout: Layout,
    n: usize,
    m: Array2<f64>,
}

impl Weights {
    pub fn new(layout: Layout, w: &[f64]) -> Self {
        use ndarray::ShapeBuilder;
        let n = w.len();
        let mut m = match layout {
            Layout::Contiguous | Layout::Reversed => Array2::from_elem((1, n), SENTINEL),
            Layout::Column => Array2::from_elem((n, 3), SENTINEL),
            Layout::FColumn => Array2::from_elem((n, 3).f(), SENTINEL),
            Layout::Strided => Array2::from_elem((1, 3 * n + 1), SENTINEL),
            Layout::Row => Array2::from_elem((3, n), SENTINEL),
        };
        for i in 0..n {
            let ix = Self::at(layout, n, i);
            m[ix] = w[i];
        }
        Weights { layout, n, m }
    }

    fn at(layout: Layout, n: usize, i: usize) -> (usize, usize) {
        match layout {
            Layout::Contiguous => (0, i),
            Layout::Reversed => (0, n - 1 - i),
            Layout::Column | Layout::FColumn => (i, 1),
            Layout::Strided => (0, 3 * i + 1),
            Layout::Row => (1, i),
        }
    }

    pub fn view_mut(&mut self) -> ArrayViewMut1<'_, f64> {
        let n = self.n;
        match self.layout {
            Layout::Contiguous => self.m.row_mut(0),
            Layout::Reversed => {
                let mut v = self.m.row_mut(0);
                v.invert_axis(Axis(0));
                v
            }
            Layout::Column | Layout::FColumn => self.m.column_mut(1),
            Layout::Strided => self.m.slice_mut(s![0, 1..3 * n + 1;3]),
            Layout::Row => self.m.row_mut(1),
        }
    }

    pub fn view(&self) -> ArrayView1<'_, f64> {
        let n = self.n;
        match self.layout {
            Layout::Contiguous => self.m.row(0),
            Layout::Reversed => {
                let mut v = self.m.row(0);
                v.invert_axis(Axis(0));
                v
            }
            Layout::Column | Layout::FColumn => self.m.column(1),
            Layout::Strided => self.m.slice(s![0, 1..3 * n + 1;3]),
            Layout::Row => self.m.row(1),
        }
    }

    pub fn get(&self) -> Vec<f64> {
        (0..self.n).map(|i| self.m[Self::at(self.layout, self.n, i)]).collect()
    }

    /// Everything outside the view must still be a sentinel.
    pub fn check_surroundings(&self) -> Result<(), String> {
        let own: std::collections::HashSet<_> = (0..self.n).map(|i| Self::at(self.layout, self.n, i)).collect();
        for (ix, v) in self.m.indexed_iter() {
            if !own.contains(&ix) && *v != SENTINEL {
                return Err(format!("element {:?} outside the weight view was changed to {}", ix, v));
            }
        }
        Ok(())
    }
}

/// Structured long vectors, so that size-dependent shortcuts are exercised.
pub fn long_vectors(n: usize) -> Vec<Vec<f64>> {
    let mut out = vec![
        vec![0.0; n],
        vec![1.0; n],
        // (full mantissas: no shorter format holds them or their sums)
        (0..n).map(|i| (i as f64 - 4.0) * 0.1 + 0.013).collect(),
        (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        (0..n).map(|i| if i % 3 == 0 { 0.0 } else { 0.37 * (i as f64 + 1.0) }).collect(),
    ];
    let at: Vec<usize> = if n <= 130 {
        (0..n).collect()
    } else {
        // the ends, the middle and around the powers of two
        let mut at: Vec<usize> = [0, 1, n / 2, n - 2, n - 1].to_vec();
        for p in 5..20 {
            at.extend([(1usize << p) - 1, 1 << p].iter().copied().filter(|i| *i < n));
        }
        at.sort();
        at.dedup();
        at
    };
    for i in at {
        let mut v = vec![0.0; n];
        v[i] = 1.5;
        out.push(v);
    }
    out
}
