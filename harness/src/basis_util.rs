//! A catalogue of bases behind one object-safe interface, and the faulty
//! parts used for fault injection.
use lfa::basis::*;
use lfa::{Error, Features, IndexT, Result};
use spaces::real::Interval;
use spaces::{Card, Dim, Equipartition, ProductSpace, Space};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::BuildHasherDefault;
use std::rc::Rc;

pub type Bh = BuildHasherDefault<DefaultHasher>;

pub trait DynBasis {
    fn dim(&self) -> usize;
    fn n_features(&self) -> usize;
    fn project(&self, x: &[f64]) -> Result<Features>;
    /// None when the basis does not support single-feature evaluation.
    fn ith(&self, x: &[f64], i: usize) -> Option<Result<f64>>;
    fn dup(&self) -> Dyn;
    fn any(&self) -> &dyn std::any::Any;
    /// `clone_from`; false if the other one is of another type.
    fn assign(&mut self, o: &dyn DynBasis) -> bool;
}

struct Enumerable<B>(B);
struct Plain<B>(B);

impl<B> DynBasis for Enumerable<B>
where
    B: for<'a> EnumerableBasis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + 'static,
{
    fn dim(&self) -> usize {
        Space::dim(&self.0).into()
    }
    fn n_features(&self) -> usize {
        Basis::<&[f64]>::n_features(&self.0)
    }
    fn project(&self, x: &[f64]) -> Result<Features> {
        self.0.project(x)
    }
    fn ith(&self, x: &[f64], i: usize) -> Option<Result<f64>> {
        Some(self.0.ith(x, i))
    }
    fn dup(&self) -> Dyn {
        en(self.0.clone())
    }
    fn any(&self) -> &dyn std::any::Any {
        &self.0
    }
    fn assign(&mut self, o: &dyn DynBasis) -> bool {
        o.any().downcast_ref::<B>().map(|o| self.0.clone_from(o)).is_some()
    }
}

impl<B> DynBasis for Plain<B>
where
    B: for<'a> Basis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + 'static,
{
    fn dim(&self) -> usize {
        Space::dim(&self.0).into()
    }
    fn n_features(&self) -> usize {
        Basis::<&[f64]>::n_features(&self.0)
    }
    fn project(&self, x: &[f64]) -> Result<Features> {
        self.0.project(x)
    }
    fn ith(&self, _: &[f64], _: usize) -> Option<Result<f64>> {
        None
    }
    fn dup(&self) -> Dyn {
        plain(self.0.clone())
    }
    fn any(&self) -> &dyn std::any::Any {
        &self.0
    }
    fn assign(&mut self, o: &dyn DynBasis) -> bool {
        o.any().downcast_ref::<B>().map(|o| self.0.clone_from(o)).is_some()
    }
}

pub fn en<B>(b: B) -> Dyn
where
    B: for<'a> EnumerableBasis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + 'static,
{
    Dyn(Rc::new(Enumerable(b)))
}

pub fn plain<B>(b: B) -> Dyn
where
    B: for<'a> Basis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + 'static,
{
    Dyn(Rc::new(Plain(b)))
}

/// Any basis over slices; usable wherever the library wants a basis.
pub struct Dyn(pub Rc<dyn DynBasis>);

impl Clone for Dyn {
    /// Clones the library's value, not merely the handle.
    fn clone(&self) -> Dyn {
        self.0.dup()
    }
    fn clone_from(&mut self, o: &Dyn) {
        let done = Rc::get_mut(&mut self.0).map_or(false, |b| b.assign(&*o.0));
        if !done {
            *self = o.0.dup()
        }
    }
}

impl Space for Dyn {
    type Value = Features;
    fn dim(&self) -> Dim {
        Dim::Finite(self.0.dim())
    }
    fn card(&self) -> Card {
        Card::Infinite
    }
}

impl Combinators for Dyn {}

impl<'a> Basis<&'a [f64]> for Dyn {
    fn n_features(&self) -> usize {
        self.0.n_features()
    }
    fn project(&self, x: &'a [f64]) -> Result<Features> {
        self.0.project(x)
    }
}

impl<'a> EnumerableBasis<&'a [f64]> for Dyn {
    fn ith(&self, x: &'a [f64], i: IndexT) -> Result<f64> {
        self.0.ith(x, i).expect("harness: not an enumerable basis")
    }
}

/// A basis that returns the vectors it is told to and fails for inputs whose
/// first coordinate is the trigger; counts its calls.
#[derive(Clone)]
pub struct Mock {
    pub n: usize,
    pub f: Rc<dyn Fn(&[f64]) -> Features>,
    pub fail_on: f64,
    pub tag: usize,
    pub calls: Rc<Cell<usize>>,
}

pub const FAIL: f64 = 1313.0;

pub fn mock(n: usize, f: impl Fn(&[f64]) -> Features + 'static) -> Mock {
    Mock { n, f: Rc::new(f), fail_on: FAIL, tag: 0, calls: Rc::new(Cell::new(0)) }
}

impl Mock {
    pub fn failing(mut self, on: f64, tag: usize) -> Mock {
        self.fail_on = on;
        self.tag = tag;
        self
    }
    pub fn error(&self) -> Error {
        Error::index_error(9000 + self.tag, self.n)
    }
}

impl Space for Mock {
    type Value = Features;
    fn dim(&self) -> Dim {
        Dim::Finite(self.n)
    }
    fn card(&self) -> Card {
        Card::Infinite
    }
}

impl Combinators for Mock {}

impl<'a> Basis<&'a [f64]> for Mock {
    fn project(&self, x: &'a [f64]) -> Result<Features> {
        self.calls.set(self.calls.get() + 1);
        if x.first() == Some(&self.fail_on) {
            return Err(self.error());
        }
        Ok((self.f)(x))
    }
}

// The default single-feature evaluation of the library.
impl<'a> EnumerableBasis<&'a [f64]> for Mock {}

pub type Make = Box<dyn Fn() -> Dyn + Send + Sync>;

pub struct Entry {
    pub name: String,
    /// Input dimension.
    pub d: usize,
    pub make: Make,
    /// Number of features, worked out independently.
    pub n: usize,
    /// Storage of projections.
    pub sparse: bool,
    pub enumerable: bool,
}

pub fn entry(name: &str, d: usize, n: usize, sparse: bool, make: impl Fn() -> Dyn + Send + Sync + 'static) -> Entry {
    Entry { name: name.to_string(), d, make: Box::new(make), n, sparse, enumerable: true }
}

pub fn equi(cells: &[usize]) -> ProductSpace<Equipartition> {
    let lims = [(-1.0, 1.0), (0.0, 3.0), (-2.0, 0.5), (5.0, 6.0)];
    ProductSpace::new(
        cells
            .iter()
            .enumerate()
            .map(|(i, c)| Equipartition::new(lims[i % 4].0, lims[i % 4].1, *c))
            .collect::<Vec<_>>(),
    )
}

pub fn limits(d: usize) -> Vec<(f64, f64)> {
    [(-1.0, 1.0), (0.0, 3.0), (-2.0, 0.5), (5.0, 6.0)][..d].to_vec()
}

pub fn intervals(l: &[(f64, f64)]) -> ProductSpace<Interval> {
    ProductSpace::new(l.iter().map(|(a, b)| Interval::bounded(*a, *b)).collect::<Vec<_>>())
}

/// Points within the limits of every catalogue basis.
pub fn inputs(d: usize, per_dim: usize) -> Vec<Vec<f64>> {
    let fr: &[f64] = match per_dim {
        2 => &[0.15, 0.8],
        3 => &[0.0, 0.35, 1.0],
        4 => &[0.0, 0.3, 0.55, 1.0],
        _ => &[0.0, 0.13, 0.4, 0.65, 0.9, 1.0],
    };
    let l = limits(d);
    let mut out: Vec<Vec<f64>> = vec![vec![]];
    for (a, b) in l {
        out = out
            .into_iter()
            .flat_map(|p| {
                fr.iter().map(move |f| {
                    let mut q = p.clone();
                    q.push(a + f * (b - a));
                    q
                })
            })
            .collect();
    }
    out
}

fn protos(d: usize, n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|i| (0..d).map(|j| 0.7 * i as f64 - 0.4 * j as f64).collect()).collect()
}

pub fn base_entries(d: usize) -> Vec<Entry> {
    use lfa::basis::kernels::*;
    let p = |n: usize| n.pow(d as u32);
    let mut v = vec![];
    let maxo = [0, 6, 3, 2, 2][d];
    for o in 0..=maxo {
        v.push(entry(&format!("Polynomial({},{})", d, o), d, p(o + 1) - 1, false, move || en(Polynomial::new(d, o as u8))));
        v.push(entry(&format!("Polynomial({},{}).with_zeroth", d, o), d, p(o + 1), false, move || {
            en(Polynomial::new(d, o as u8).with_zeroth())
        }));
        v.push(entry(&format!("Chebyshev({},{})", d, o), d, p(o + 1) - 1, false, move || en(Chebyshev::new(o as u8, limits(d)))));
        v.push(entry(&format!("Chebyshev({},{}).with_zeroth", d, o), d, p(o + 1), false, move || {
            en(Chebyshev::new(o as u8, limits(d)).with_zeroth())
        }));
        v.push(entry(&format!("Fourier({},{})", d, o), d, p(o + 1) - 1, false, move || en(Fourier::new(o as u8, limits(d)))));
    }
    v.push(entry(&format!("Fourier::from_space({})", d), d, p(3) - 1, false, move || en(Fourier::from_space(2, intervals(&limits(d))))));
    v.push(entry(&format!("Chebyshev::from_space({})", d), d, p(3) - 1, false, move || en(Chebyshev::from_space(2, intervals(&limits(d))))));
    let cells = [3usize, 2, 4, 1][..d].to_vec();
    let nc: usize = cells.iter().product();
    {
        let c = cells.clone();
        v.push(entry(&format!("UniformGrid({:?})", cells), d, nc, true, move || en(UniformGrid::new(equi(&c)))));
    }
    for (t, m) in [(1usize, 16usize), (4, 64), (5, 3), (8, 1), (3, 1000)] {
        v.push(entry(&format!("TileCoding({}d,{},{})", d, t, m), d, m, true, move || en(TileCoding::new(Bh::default(), t, m))));
    }
    let ls: Vec<f64> = [0.5, 2.0, 1.25, 0.75][..d].to_vec();
    macro_rules! kern {
        ($k:ident) => {{
            let l = ls.clone();
            v.push(entry(&format!("KernelBasis({}d,{})", d, stringify!($k)), d, 4, false, move || {
                en(KernelBasis::homogeneous(protos(d, 4), $k::new(1.5, l.clone())))
            }));
        }};
    }
    kern!(Exponential);
    kern!(Matern32);
    kern!(Matern52);
    kern!(ExpQuad);
    kern!(Cosine);
    {
        let l = ls.clone();
        v.push(entry(&format!("KernelBasis({}d,RationalQuadratic)", d), d, 3, false, move || {
            en(KernelBasis::homogeneous(protos(d, 3), RationalQuadratic::new(1.5, l.clone(), 2.0)))
        }));
    }
    v.push(entry(&format!("KernelBasis({}d,empty)", d), d, 0, false, move || {
        en(KernelBasis::homogeneous(protos(d, 0), ExpQuad::default()))
    }));
    for (i, name) in ["exp_quad", "matern_32", "matern_52"].iter().enumerate() {
        let c = cells.clone();
        v.push(entry(&format!("KernelBasis::{}({:?})", name, cells), d, nc, false, move || match i {
            0 => en(KernelBasis::exp_quad(equi(&c))),
            1 => en(KernelBasis::matern_32(equi(&c))),
            _ => en(KernelBasis::matern_52(equi(&c))),
        }));
    }
    v.push(entry(&format!("Bias::unit/{}", d), d, 1, false, || en(Bias::unit())));
    v.push(entry(&format!("Bias(-2)/{}", d), d, 1, false, || en(Bias(-2.0))));
    v.push(entry(&format!("Fixed::dense/{}", d), d, 4, false, || en(Fixed::dense(vec![1.0, -2.0, 0.0, 0.5]))));
    v.push(entry(&format!("Fixed::dense([])/{}", d), d, 0, false, || en(Fixed::dense(vec![]))));
    v.push(entry(&format!("Fixed::sparse/{}", d), d, 6, true, || en(Fixed::sparse(6, vec![0, 3, 4]))));
    v.push(entry(&format!("Fixed::sparse(empty)/{}", d), d, 3, true, || en(Fixed::sparse(3, vec![]))));
    let mut c = entry(&format!("Closure/{}", d), d, 3, false, || {
        plain(Closure::new(3, |x: &[f64]| -> Result<Features> {
            let s: f64 = x.iter().sum();
            Ok(Features::dense(vec![s, s * s, 1.0]))
        }))
    });
    c.enumerable = false;
    v.push(c);
    let mut c = entry(&format!("Closure(sparse)/{}", d), d, 4, true, || {
        plain(Closure::new(4, |x: &[f64]| -> Result<Features> {
            Ok(Features::sparse(4, vec![(1, x[0]), (3, -2.0)]))
        }))
    });
    c.enumerable = false;
    v.push(c);
    v
}

/// Bases of the same kinds and sizes as those of [`base_entries`], with other
/// parameters: what one computes must never serve another.
pub fn variant_entries(d: usize) -> Vec<Entry> {
    use lfa::basis::kernels::*;
    let p = |n: usize| n.pow(d as u32);
    let mut v = vec![];
    for (name, w) in [("wider", 2.0), ("shifted", -0.5)] {
        let l: Vec<(f64, f64)> = limits(d)
            .into_iter()
            .enumerate()
            .map(|(i, (a, b))| if w > 0.0 { (a - w * (i + 1) as f64, b + 1.0) } else { (a + w, b - w / 2.0) })
            .collect();
        let (l1, l2, l3) = (l.clone(), l.clone(), l.clone());
        v.push(entry(&format!("Fourier({},2) {}", d, name), d, p(3) - 1, false, move || en(Fourier::new(2, l1.clone()))));
        v.push(entry(&format!("Chebyshev({},2) {}", d, name), d, p(3) - 1, false, move || en(Chebyshev::new(2, l2.clone()))));
        let cells = [3usize, 2, 4, 1][..d].to_vec();
        let nc: usize = cells.iter().product();
        let part = move || {
            spaces::ProductSpace::new(l3.iter().zip(&cells).map(|((a, b), c)| Equipartition::new(*a, *b, *c)).collect::<Vec<_>>())
        };
        let (p1, p2) = (part.clone(), part);
        v.push(entry(&format!("UniformGrid {} {}d", name, d), d, nc, true, move || en(UniformGrid::new(p1()))));
        v.push(entry(&format!("KernelBasis::exp_quad {} {}d", name, d), d, nc, false, move || en(KernelBasis::exp_quad(p2()))));
    }
    {
        let cells = [2usize, 3, 2, 2][..d].to_vec();
        let nc: usize = cells.iter().product();
        v.push(entry(&format!("UniformGrid({:?})", cells), d, nc, true, move || en(UniformGrid::new(equi(&cells)))));
    }
    for (t, m) in [(3usize, 16usize), (8, 64), (4, 3), (2, 1), (16, 1000)] {
        v.push(entry(&format!("TileCoding({}d,{},{})", d, t, m), d, m, true, move || en(TileCoding::new(Bh::default(), t, m))));
    }
    macro_rules! kern {
        ($k:ident) => {{
            v.push(entry(&format!("KernelBasis({}d,{}) other lengthscales", d, stringify!($k)), d, 4, false, move || {
                en(KernelBasis::homogeneous(protos(d, 4), $k::new(1.5, vec![0.9; d])))
            }));
            v.push(entry(&format!("KernelBasis({}d,{}) other variance", d, stringify!($k)), d, 4, false, move || {
                en(KernelBasis::homogeneous(protos(d, 4), $k::new(2.5, [0.5, 2.0, 1.25, 0.75][..d].to_vec())))
            }));
        }};
    }
    kern!(Exponential);
    kern!(Matern32);
    kern!(Matern52);
    kern!(ExpQuad);
    kern!(Cosine);
    v.push(entry(&format!("KernelBasis({}d,ExpQuad) other centres", d), d, 4, false, move || {
        let c: Vec<Vec<f64>> = protos(d, 4).into_iter().rev().map(|c| c.iter().map(|v| v * 0.5 - 0.1).collect()).collect();
        en(KernelBasis::homogeneous(c, ExpQuad::new(1.5, [0.5, 2.0, 1.25, 0.75][..d].to_vec())))
    }));
    v.push(entry(&format!("KernelBasis({}d,RationalQuadratic) other power", d), d, 3, false, move || {
        en(KernelBasis::homogeneous(protos(d, 3), RationalQuadratic::new(1.5, [0.5, 2.0, 1.25, 0.75][..d].to_vec(), 1.0)))
    }));
    v.push(entry(&format!("Fixed::dense other/{}", d), d, 4, false, || en(Fixed::dense(vec![0.25, 3.0, -1.0, 0.0]))));
    v.push(entry(&format!("Fixed::sparse other/{}", d), d, 6, true, || en(Fixed::sparse(6, vec![1, 3, 5]))));
    v
}

/// One-dimensional bases of the same kind whose parameters collide in their
/// low bits, in their high bits, in some of their fields, or nearly.
pub fn colliding_entries() -> Vec<Entry> {
    use lfa::basis::kernels::*;
    let mut v = vec![];
    for o in [1usize, 3, 5, 8, 17, 33] {
        v.push(entry(&format!("Polynomial(1,{})", o), 1, o, false, move || en(Polynomial::new(1, o as u8))));
        v.push(entry(&format!("Fourier(1,{})", o), 1, o, false, move || en(Fourier::new(o as u8, limits(1)))));
        let o = if o > 10 { o / 3 } else { o };
        v.push(entry(&format!("Chebyshev(1,{})", o), 1, o, false, move || en(Chebyshev::new(o as u8, limits(1)))));
    }
    let (a, b) = limits(1)[0];
    for (name, l) in [
        ("upper limit nearby", (a, b + (b - a) * 1e-9)),
        ("lower limit nearby", (a - (b - a) * 1e-9, b)),
        ("same width", (a - 0.125, b - 0.125)),
        ("same upper limit", (a - 1.0, b)),
        ("same lower limit", (a, b + 1.0)),
        ("same centre", (a - 1.0, b + 1.0)),
        ("large", (a - 1e6, b + 1e6)),
    ] {
        v.push(entry(&format!("Fourier(1,3), {}", name), 1, 3, false, move || en(Fourier::new(3, vec![l]))));
        v.push(entry(&format!("Chebyshev(1,3), {}", name), 1, 3, false, move || en(Chebyshev::new(3, vec![l]))));
        v.push(entry(&format!("UniformGrid(3), {}", name), 1, 3, true, move || {
            en(UniformGrid::new(spaces::ProductSpace::new(vec![Equipartition::new(l.0, l.1, 3)])))
        }));
    }
    for n in [1usize, 3, 35, 257, 259] {
        v.push(entry(&format!("UniformGrid({})", n), 1, n, true, move || en(UniformGrid::new(equi(&[n])))));
    }
    for (t, m) in [(1usize, 16usize), (2, 16), (4, 16), (8, 16), (20, 16), (257, 16), (258, 16), (260, 16), (65537, 16), (4, 17), (4, 32), (4, 272), (4, 65552)] {
        v.push(entry(&format!("TileCoding({},{})", t, m), 1, m, true, move || en(TileCoding::new(Bh::default(), t, m))));
    }
    for n in [1usize, 3, 4, 36, 257, 260] {
        v.push(entry(&format!("KernelBasis({} centres)", n), 1, n, false, move || en(KernelBasis::homogeneous(protos(1, n), ExpQuad::new(1.5, vec![0.5])))));
    }
    for (var, l) in [(1.5, 0.5 + 1e-9), (1.5 + 1e-9, 0.5), (0.5, 1.5), (1.0, 1.0), (1.5, 1.5)] {
        v.push(entry(&format!("KernelBasis(Matern52 {} {})", var, l), 1, 3, false, move || en(KernelBasis::homogeneous(protos(1, 3), Matern52::new(var, vec![l])))));
        v.push(entry(&format!("KernelBasis(Exponential {} {})", var, l), 1, 3, false, move || en(KernelBasis::homogeneous(protos(1, 3), Exponential::new(var, vec![l])))));
    }
    for n in [4usize, 5, 260] {
        v.push(entry(&format!("Fixed::dense({})", n), 1, n, false, move || en(Fixed::dense((0..n).map(|i| 0.5 + i as f64).collect::<Vec<_>>()))));
        v.push(entry(&format!("Fixed::sparse({})", n), 1, n, true, move || en(Fixed::sparse(n, vec![0, 2]))));
    }
    v.push(entry("Bias(1)", 1, 1, false, || en(Bias(1.0))));
    v.push(entry("Bias(1+1e-9)", 1, 1, false, || en(Bias(1.0 + 1e-9))));
    v.push(entry("Bias(-1)", 1, 1, false, || en(Bias(-1.0))));
    v
}

/// Compositions of the bases by the library's combinators.
pub fn composed_entries(d: usize) -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let parts = || -> Vec<Entry> {
        base_entries(d)
            .into_iter()
            .filter(|e| {
                e.name.starts_with(&format!("Polynomial({},2)", d))
                    || e.name.starts_with(&format!("Chebyshev({},1)", d))
                    || e.name == format!("Fourier({},1)", d)
                    || e.name.starts_with("UniformGrid")
                    || e.name.contains(",4,64)")
                    || e.name.contains(",5,3)")
                    || e.name.contains(",Matern32)")
                    || e.name.starts_with("Bias::unit")
                    || e.name.starts_with("Fixed::dense")
                    || e.name.starts_with("Fixed::sparse")
            })
            .collect()
    };
    let n = parts().len();
    for i in 0..n {
        for j in 0..n {
            let (mut a, mut b) = (parts(), parts());
            let (a, b) = (a.swap_remove(i), b.swap_remove(j));
            let (ma, mb) = (a.make, b.make);
            v.push(Entry {
                name: format!("{} ++ {}", a.name, b.name),
                d,
                n: a.n + b.n,
                sparse: a.sparse && b.sparse,
                enumerable: a.enumerable && b.enumerable,
                make: Box::new(move || en(ma().stack(mb()))),
            });
        }
        let a = |i: usize| parts().swap_remove(i);
        let e = a(i);
        let (m0, m1, m2, m3, m4, m5, m6) = (a(i).make, a(i).make, a(i).make, a(i).make, a(i).make, a(i).make, a(i).make);
        let mut add = |name: &str, n: usize, sparse: bool, make: Make| {
            v.push(Entry { name: format!("{}.{}", e.name, name), d, n, sparse, enumerable: e.enumerable, make })
        };
        add("normalise_l0", e.n, e.sparse, Box::new(move || en(m0().normalise_l0())));
        add("normalise_l1", e.n, e.sparse, Box::new(move || en(m1().normalise_l1())));
        add("normalise_l2", e.n, e.sparse, Box::new(move || en(m2().normalise_l2())));
        add("normalise_linf", e.n, e.sparse, Box::new(move || en(m3().normalise_linf())));
        add("with_bias", e.n + 1, false, Box::new(move || en(m4().with_bias())));
        add("with_bias.normalise_l2", e.n + 1, false, Box::new(move || en(m5().with_bias().normalise_l2())));
        add("normalise_l1.with_bias.with_bias", e.n + 2, false, Box::new(move || en(m6().normalise_l1().with_bias().with_bias())));
    }
    v
}

/// The same combinators applied to the library's concrete types.
/// Bases whose public parts the caller has changed since construction.
pub fn edited_polynomial(k: usize) -> Polynomial {
    let mut b = Polynomial::new(2, 2);
    match k {
        0 => b.exponents = vec![vec![3, 0], vec![0, 5], vec![2, 2]],
        1 => drop(b.exponents.pop()),
        2 => b.exponents.push(vec![1, 0]),
        3 => b.exponents.clear(),
        _ => b.exponents.reverse(),
    }
    b
}

pub fn edited_fourier(k: usize) -> Fourier {
    let mut b = Fourier::new(2, limits(2));
    match k {
        0 => b.coefficients = vec![vec![3.0, 0.0], vec![0.0, 0.5], vec![-2.0, 2.0]],
        1 => drop(b.coefficients.pop()),
        2 => b.coefficients.push(vec![0.0, 0.0]),
        3 => b.coefficients.clear(),
        _ => b.limits = vec![(-4.0, 4.0), (-10.0, 30.0)],
    }
    b
}

pub fn edited_chebyshev(k: usize) -> Chebyshev {
    let mut b = Chebyshev::new(2, limits(2));
    match k {
        0 => b.polynomials = vec![vec![|x| x * x, |_| 2.0], vec![|_| 0.5, |x| x]],
        1 => drop(b.polynomials.pop()),
        2 => b.polynomials.push(vec![|_| 1.0, |x| 3.0 * x]),
        3 => b.polynomials.clear(),
        _ => b.limits = vec![(-4.0, 4.0), (-10.0, 30.0)],
    }
    b
}

pub fn edited_kernels(k: usize) -> KernelBasis<Vec<f64>, lfa::basis::kernels::ExpQuad> {
    use lfa::basis::kernels::ExpQuad;
    let mut b = KernelBasis::homogeneous(protos(2, 3), ExpQuad::new(1.0, vec![0.5, 2.0]));
    match k {
        0 => b.prototypes.push(Prototype { centroid: vec![0.25, 0.5], kernel: ExpQuad::new(2.0, vec![1.0]) }),
        1 => drop(b.prototypes.pop()),
        2 => b.prototypes[1].centroid[0] += 0.75,
        3 => b.prototypes.clear(),
        _ => b.prototypes[0].kernel.lengthscales[1] = 0.125,
    }
    b
}

/// Bases of sizes and shapes the catalogue does not reach.
pub fn wide_entries(t: bool) -> Vec<Entry> {
    use lfa::basis::kernels::*;
    let mut v = vec![];
    let lim = |d: usize| -> Vec<(f64, f64)> { (0..d).map(|i| [(-1.0, 1.0), (0.0, 3.0), (-2.0, 0.5), (5.0, 6.0)][i % 4]).collect() };
    let mut sizes = vec![(1usize, 11usize), (1, 40), (1, 255), (2, 9), (2, 11), (3, 5), (5, 2), (6, 2), (8, 1), (12, 1)];
    if t {
        sizes.extend([(17, 1), (2, 255), (3, 40)]);
    }
    for (d, o) in sizes {
        let n = (o + 1).pow(d as u32);
        v.push(entry(&format!("Polynomial({},{})", d, o), d, n - 1, false, move || en(Polynomial::new(d, o as u8))));
        v.push(entry(&format!("Polynomial({},{}).with_zeroth", d, o), d, n, false, move || en(Polynomial::new(d, o as u8).with_zeroth())));
        v.push(entry(&format!("Fourier({},{})", d, o), d, n - 1, false, move || en(Fourier::new(o as u8, lim(d)))));
        v.push(entry(&format!("Fourier({},{}).with_bias", d, o), d, n, false, move || en(Fourier::new(o as u8, lim(d)).with_bias())));
        if o <= 11 {
            v.push(entry(&format!("Chebyshev({},{})", d, o), d, n - 1, false, move || en(Chebyshev::new(o as u8, lim(d)))));
            v.push(entry(&format!("Chebyshev({},{}).with_zeroth", d, o), d, n, false, move || {
                en(Chebyshev::new(o as u8, lim(d)).with_zeroth())
            }));
        }
    }
    for cells in [vec![300usize], vec![65_537], vec![17, 19], vec![2, 40_000], vec![9, 8, 7], vec![3; 6], vec![2, 1, 3, 1, 4]] {
        let n = cells.iter().product();
        let c = cells.clone();
        v.push(entry(&format!("UniformGrid({:?})", cells), cells.len(), n, true, move || en(UniformGrid::new(equi(&c)))));
        if n < 1000 {
            v.push(entry(&format!("KernelBasis::matern_52({:?})", cells), cells.len(), n, false, move || en(KernelBasis::matern_52(equi(&cells)))));
        }
    }
    for d in [1usize, 2, 5, 9] {
        for (n, m) in [(1usize, 2usize), (2, 7), (3, 64), (6, 4096), (7, 10), (16, 16), (32, 100_000), (33, 1 << 20), (100, 3)] {
            v.push(entry(&format!("TileCoding({}d,{},{})", d, n, m), d, m, true, move || en(TileCoding::new(Bh::default(), n, m))));
        }
    }
    // prototypes that differ in centre only, in kernel only, or not at all
    for d in 1..=3usize {
        for n in [2usize, 9, 40, 300] {
            v.push(entry(&format!("KernelBasis({}d,{} mixed prototypes)", d, n), d, n, false, move || {
                let p = (0..n)
                    .map(|i| {
                        let c = [0, 0, 1, 1, 0, 2, 2, 3, 0][i % 9] + i / 18;
                        let k = [0, 1, 0, 1, 2, 0, 0, 3, 0][i % 9];
                        Prototype {
                            centroid: (0..d).map(|j| 0.3 * c as f64 - 0.4 * j as f64).collect::<Vec<f64>>(),
                            kernel: Matern32::new([1.0, 2.0, 1.0, 0.0][k], [vec![1.0], vec![1.0], vec![0.5; d], vec![2.0]][k].clone()),
                        }
                    })
                    .collect::<Vec<_>>();
                en(KernelBasis::new(p))
            }));
        }
    }
    let row = |n: usize, i: usize| (0..n).map(move |j| ((j * 7 + i) % 11) as f64 - 4.0);
    for n in [1usize, 7, 8, 9, 64, 65, 1000] {
        v.push(entry(&format!("Fixed::dense, {}", n), 1, n, false, move || en(Fixed::dense(row(n, 0)))));
        v.push(entry(&format!("Fixed::sparse, {}", n), 1, n, true, move || en(Fixed::sparse(n, (0..n).filter(|j| j % 3 == 1)))));
        for m in [0usize, 1, 8, 31, 64, 500] {
            v.push(entry(&format!("Fixed::dense {} ++ Fixed::dense {}", n, m), 1, n + m, false, move || {
                en(Fixed::dense(row(n, 1)).stack(Fixed::dense(row(m, 5))))
            }));
            v.push(entry(&format!("Fixed::sparse {} ++ (Fixed::sparse {} ++ Fixed::sparse {})", n, m, n), 1, 2 * n + m, true, move || {
                let f = |n: usize, k: usize| Fixed::sparse(n, (0..n).filter(move |j| j % 4 == k));
                en(f(n, 0).stack(f(m, 2).stack(f(n, 1))))
            }));
            v.push(entry(&format!("(Fixed::dense {} ++ Fixed::sparse {}).normalise_l1 ++ Bias", n, m), 1, n + m + 1, false, move || {
                en(Fixed::dense(row(n, 3)).stack(Fixed::sparse(m, (0..m).filter(|j| j % 2 == 0))).normalise_l1().with_bias())
            }));
        }
    }
    v
}

pub fn edited_entries() -> Vec<Entry> {
    let mut v = vec![];
    for k in 0..5 {
        let n = [3, 7, 9, 0, 8][k];
        v.push(entry(&format!("Polynomial, edited {}", k), 2, n, false, move || en(edited_polynomial(k))));
        v.push(entry(&format!("Fourier, edited {}", k), 2, n, false, move || en(edited_fourier(k))));
        v.push(entry(&format!("Chebyshev, edited {}", k), 2, [2, 7, 9, 0, 8][k], false, move || en(edited_chebyshev(k))));
        v.push(entry(&format!("KernelBasis, edited {}", k), 2, [4, 2, 3, 0, 3][k], false, move || en(edited_kernels(k))));
        v.push(entry(&format!("Polynomial, edited {} .normalise_l2().with_bias()", k), 2, n + 1, false, move || en(edited_polynomial(k).normalise_l2().with_bias())));
    }
    v
}

pub fn static_entries() -> Vec<Entry> {
    use lfa::basis::kernels::*;
    let mut v = vec![];
    macro_rules! all {
        ($name:expr, $d:expr, $n:expr, $sparse:expr, $b:expr) => {{
            v.push(entry(concat!($name, ".stack(Bias(3))"), $d, $n + 1, false, || en($b.stack(Bias(3.0)))));
            v.push(entry(concat!($name, ".with_bias()"), $d, $n + 1, false, || en($b.with_bias())));
            v.push(entry(concat!($name, ".normalise_l0()"), $d, $n, $sparse, || en($b.normalise_l0())));
            v.push(entry(concat!($name, ".normalise_l1()"), $d, $n, $sparse, || en($b.normalise_l1())));
            v.push(entry(concat!($name, ".normalise_l2()"), $d, $n, $sparse, || en($b.normalise_l2())));
            v.push(entry(concat!($name, ".normalise_linf()"), $d, $n, $sparse, || en($b.normalise_linf())));
            v.push(entry(concat!($name, ".normalise_l2().with_bias()"), $d, $n + 1, false, || en($b.normalise_l2().with_bias())));
            v.push(entry(concat!($name, ".with_bias().normalise_linf()"), $d, $n + 1, false, || en($b.with_bias().normalise_linf())));
            v.push(entry(concat!($name, ".with_bias().with_bias()"), $d, $n + 2, false, || en($b.with_bias().with_bias())));
            v.push(entry(concat!($name, " under 4 norms"), $d, $n, $sparse, || en($b.normalise_l0().normalise_l1().normalise_l2().normalise_linf())));
        }};
    }
    all!("Polynomial(2,2)", 2, 8, false, Polynomial::new(2, 2));
    all!("Chebyshev(2,2)", 2, 8, false, Chebyshev::new(2, limits(2)));
    all!("Fourier(2,2)", 2, 8, false, Fourier::new(2, limits(2)));
    all!("UniformGrid(3,2)", 2, 6, true, UniformGrid::new(equi(&[3, 2])));
    all!("TileCoding(4,64)", 2, 64, true, TileCoding::new(Bh::default(), 4, 64));
    all!("KernelBasis(ExpQuad)", 2, 3, false, KernelBasis::homogeneous(protos(2, 3), ExpQuad::new(1.0, vec![0.5, 2.0])));
    all!("KernelBasis(Matern52)", 2, 3, false, KernelBasis::homogeneous(protos(2, 3), Matern52::new(1.0, vec![0.5, 2.0])));
    all!("Bias(2)", 2, 1, false, Bias(2.0));
    all!("Fixed::dense", 2, 3, false, Fixed::dense(vec![1.0, -2.0, 0.0]));
    all!("Fixed::sparse", 2, 5, true, Fixed::sparse(5, vec![1, 4]));
    all!("Stack(grid,tiles)", 2, 22, true, UniformGrid::new(equi(&[3, 2])).stack(TileCoding::new(Bh::default(), 2, 16)));
    all!("L1(Polynomial)", 2, 3, false, L1Normaliser::new(Polynomial::new(2, 1)));
    all!("L0(grid)", 2, 6, true, L0Normaliser::new(UniformGrid::new(equi(&[3, 2]))));
    all!("L2(tiles)", 2, 16, true, L2Normaliser::new(TileCoding::new(Bh::default(), 4, 16)));
    all!("Linf(Fixed)", 2, 3, false, LinfNormaliser::new(Fixed::dense(vec![1.0, -2.0, 0.0])));
    v
}
