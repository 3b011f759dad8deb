//! C28: save and restore at every point of a history.
use crate::basis_util::*;
use crate::engine::*;
use crate::util::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Error, Features, SparseActivations, LFA};
use ndarray::{Array1, Array2};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_crate as serde;
use spaces::Space;
use std::collections::hash_map::DefaultHasher;
use std::hash::BuildHasher;
use std::result::Result as R;

/// A hasher builder that can be saved.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(crate = "serde_crate")]
struct Sip(u64);

impl BuildHasher for Sip {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        use std::hash::Hasher;
        let mut h = DefaultHasher::new();
        h.write_u64(self.0);
        h
    }
}

/// Saved values up to this size are also cut off at every byte (a torn
/// write): what is left must be rejected, and without a panic.
const TORN: usize = 512;

const FORMATS: [&str; 4] = ["JSON text", "bincode", "JSON value", "JSON reader"];

fn rt<T: Serialize + DeserializeOwned>(v: &T, format: usize) -> R<T, String> {
    let what = FORMATS[format];
    guarded(what, || -> R<T, String> {
        match format {
            0 => {
                let s = serde_json::to_string(v).map_err(|e| format!("saving as {}: {}", what, e))?;
                // (a bare number cut short may well be another number)
                if s.starts_with(|c| "{[\"".contains(c)) && s.len() <= TORN {
                    for n in (0..s.len()).filter(|n| s.is_char_boundary(*n)) {
                        if serde_json::from_str::<T>(&s[..n]).is_ok() {
                            return Err(format!("{:?}, the first {} bytes of {:?}, is accepted as a saved value", &s[..n], n, s));
                        }
                    }
                }
                serde_json::from_str(&s).map_err(|e| format!("restoring from {} {}: {}", what, s, e))
            }
            1 => {
                let s = bincode::serialize(v).map_err(|e| format!("saving as {}: {}", what, e))?;
                if s.len() <= TORN {
                    for n in 0..s.len() {
                        if bincode::deserialize::<T>(&s[..n]).is_ok() {
                            return Err(format!("the first {} of {} bytes ({}) are accepted as a saved value", n, s.len(), what));
                        }
                    }
                }
                bincode::deserialize(&s).map_err(|e| format!("restoring from {}: {}", what, e))
            }
            2 => {
                let s = serde_json::to_value(v).map_err(|e| format!("saving as {}: {}", what, e))?;
                let t = s.to_string();
                serde_json::from_value(s).map_err(|e| format!("restoring from {} {}: {}", what, t, e))
            }
            _ => {
                let mut s = vec![];
                serde_json::to_writer_pretty(&mut s, v).map_err(|e| format!("saving as {}: {}", what, e))?;
                serde_json::from_reader(&s[..]).map_err(|e| format!("restoring from {}: {}", what, e))
            }
        }
    })?
}

// ------------------------------------------------------------------ features

fn features(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for n in 0..=(if t { 5 } else { 4 }) {
        out.push(scenario(format!("features n={}", n), move |ctx| {
            let kind = *ctx.pick(&KINDS);
            let fmt = ctx.choose(FORMATS.len());
            let v = ctx.pick_vec(n, &[0.0, 1.0, -0.1, 1e-300, 12345.678, -1e20]);
            let f = build(kind, &v);
            ctx.log(|| format!("{:?} through {}", f, FORMATS[fmt]));
            let g = rt(&f, fmt)?;
            expect_eq("sparse storage", is_sparse(&g), is_sparse(&f))?;
            expect_eq("n_features", g.n_features(), n)?;
            same_features("restored", &g, &v)?;
            if !(f == g && g == f) {
                return Err(format!("restored {:?} is not equal to {:?}", g, f));
            }
            if let (Features::Sparse(a), Features::Sparse(b)) = (&f, &g) {
                let r: SparseActivations = rt(a, fmt)?;
                expect_eq("restored record: dim", r.dim, a.dim)?;
                if a.activations != b.activations || r.activations != a.activations {
                    return Err(format!("restored entries {:?} {:?}, saved {:?}", b.activations, r.activations, a.activations));
                }
            }
            // and it goes on behaving as the original does
            let mut f2 = f.clone();
            let mut g2 = g.clone();
            for x in [&mut f2, &mut g2] {
                x.map_inplace(|x| 2.0 * x);
                x.remove(0);
            }
            expect_vec("after further operations", &denote(&g2)?, &denote(&f2)?)?;
            expect_vec("stacked", &denote(&g.stack(f2))?, &denote(&f.stack(g2))?)?;
            ctx.steps(6);
            ctx.state((kind, fmt, bits(&v)));
            Ok(())
        }));
    }
    out.push(scenario("features, sizes", |ctx| {
        let n = *ctx.pick(&[5usize, 8, 9, 16, 17, 33, 64, 65, 100, 128, 130, 256, 300, 1000, 1025, 5000]);
        let kind = *ctx.pick(&KINDS);
        let fmt = ctx.choose(FORMATS.len());
        let vs = long_vectors(n);
        let v = &vs[ctx.choose(8)];
        let f = build(kind, v);
        let g = rt(&f, fmt)?;
        same_features("restored", &g, v)?;
        expect_eq("sparse storage", is_sparse(&g), is_sparse(&f))?;
        if f != g {
            return Err("not equal".into());
        }
        ctx.step();
        ctx.state((kind, fmt, bits(&v)));
        Ok(())
    }));
    out.push(scenario("features of huge dimensionality", |ctx| {
        let dims = [255usize, 256, 65_535, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40, (1 << 53) + 1, (1 << 61) + 1, usize::MAX - 1, usize::MAX];
        let dim = *ctx.pick(&dims);
        let fmt = ctx.choose(FORMATS.len());
        let twice = ctx.choose(FORMATS.len() + 1);
        let which = ctx.choose(4);
        let places: Vec<usize> = match which {
            0 => vec![],
            1 => vec![0],
            2 => vec![dim - 1],
            _ => dims.iter().flat_map(|d| [d - 1, *d]).chain([0, 1, 5]).filter(|i| *i < dim).collect(),
        };
        let at: std::collections::BTreeMap<usize, f64> = places.iter().map(|i| (*i, 0.1 + (*i % 97) as f64)).collect();
        ctx.log(|| format!("{:?} of {} through {}", at, dim, FORMATS[fmt]));
        let f = Features::sparse(dim, at.iter().map(|(i, x)| (*i, *x)));
        let mut g = rt(&f, fmt)?;
        if twice < FORMATS.len() {
            g = rt(&g, twice)?;
        }
        expect_eq("n_features", g.n_features(), dim)?;
        if !(f == g && g == f) {
            return Err(format!("restored {:?} is not equal to {:?}", g, f));
        }
        let Features::Sparse(s) = &g else { return Err("stored densely".into()) };
        let r: SparseActivations = rt(s, fmt)?;
        for (what, s) in [("features", s), ("record", &r)] {
            expect_eq(&format!("{}: size", what), s.dim, dim)?;
            let got: std::collections::BTreeMap<usize, f64> = s.activations.iter().map(|(i, x)| (*i, *x)).collect();
            if got != at {
                return Err(format!("{}: restored entries {:?}, saved {:?}", what, got, at));
            }
        }
        for i in &places {
            expect_exact(&format!("[{}]", i), g[*i], at[i])?;
        }
        ctx.steps(2);
        ctx.state((dim, fmt, twice, which));
        Ok(())
    }));
    out.push(scenario("errors", |ctx| {
        let fmt = ctx.choose(FORMATS.len());
        let e = Error::index_error(*ctx.pick(&[0usize, 1, 2, 255, 1 << 31, (1 << 32) + 3, 1 << 53, usize::MAX]), *ctx.pick(&[2usize, 0, 1 << 33, usize::MAX]));
        let r: Error = rt(&e, fmt)?;
        expect_eq("error", r.to_string(), e.to_string())?;
        if r != e {
            return Err(format!("restored {:?} is not equal to {:?}", r, e));
        }
        ctx.step();
        ctx.state((fmt, e.to_string()));
        Ok(())
    }));
    out
}

// --------------------------------------------------------------------- bases

fn basis<B, F>(name: &'static str, d: usize, make: F) -> Scenario
where
    B: for<'a> EnumerableBasis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + PartialEq + Serialize + DeserializeOwned + 'static,
    F: Fn() -> B + Send + Sync + 'static,
{
    scenario(format!("basis {}", name), move |ctx| {
        let fmt = ctx.choose(FORMATS.len());
        let twice = ctx.choose(FORMATS.len() + 1);
        let used = ctx.flag();
        let b = make();
        let xs = inputs(d, if d == 1 { 6 } else { 4 });
        if used {
            for x in xs.iter().take(5) {
                b.project(x).map_err(|e| e.to_string())?;
            }
        }
        let mut r = rt(&b, fmt)?;
        if twice < FORMATS.len() {
            r = rt(&r, twice)?;
        }
        if !(r == b && b == r) {
            return Err(format!("{}: the restored basis is not equal to the original ({})", name, FORMATS[fmt]));
        }
        let (b, r) = (en(b), en(r));
        expect_eq(&format!("{}: size", name), r.0.dim(), b.0.dim())?;
        expect_eq(&format!("{}: n_features", name), r.0.n_features(), b.0.n_features())?;
        for x in &xs {
            let p = b.0.project(x).map_err(|e| e.to_string())?;
            let q = guarded("project", || r.0.project(x))?.map_err(|e| e.to_string())?;
            expect_eq("sparse storage", is_sparse(&q), is_sparse(&p))?;
            let p = denote(&p)?;
            same_features(&format!("{}: restored from {}, at {:?}", name, FORMATS[fmt], x), &q, &p)?;
            for i in 0..p.len().min(20) {
                let a = guarded("ith", || r.0.ith(x, i))?.unwrap().map_err(|e| e.to_string())?;
                expect("ith", a, p[i])?;
            }
            ctx.steps(2);
        }
        ctx.state((name, fmt, twice, used));
        Ok(())
    })
}

fn bases() -> Vec<Scenario> {
    let tiles = |t, m| TileCoding::new(Sip(17), t, m);
    let ls = || vec![0.5, 2.0];
    let centres = || vec![vec![0.0, 0.0], vec![1.0, -1.0], vec![0.3, 0.7]];
    let mut v = vec![];
    macro_rules! b {
        ($($name:literal, $d:expr, $e:expr;)*) => { $( v.push(basis($name, $d, move || $e)); )* };
    }
    b! {
        "Polynomial(1,0)", 1, Polynomial::new(1, 0);
        "Polynomial(1,5)", 1, Polynomial::new(1, 5);
        "Polynomial(2,2)", 2, Polynomial::new(2, 2);
        "Polynomial(2,2).with_zeroth", 2, Polynomial::new(2, 2).with_zeroth();
        "Polynomial(2,0).with_zeroth", 2, Polynomial::new(2, 0).with_zeroth();
        "Polynomial(3,1)", 3, Polynomial::new(3, 1);
        "Chebyshev(1,0)", 1, Chebyshev::new(0, limits(1));
        "Chebyshev(1,11)", 1, Chebyshev::new(11, limits(1));
        "Chebyshev(2,3)", 2, Chebyshev::new(3, limits(2));
        "Chebyshev(3,1)", 3, Chebyshev::new(1, limits(3));
        "Chebyshev(2,2), own limits", 2, Chebyshev::new(2, vec![(-3.0, 7.5), (0.1, 0.2)]);
        "Fourier(1,0)", 1, Fourier::new(0, limits(1));
        "Fourier(1,4)", 1, Fourier::new(4, limits(1));
        "Fourier(2,2)", 2, Fourier::new(2, limits(2));
        "Fourier(3,1)", 3, Fourier::new(1, limits(3));
        "UniformGrid(5)", 1, UniformGrid::new(equi(&[5]));
        "UniformGrid(3,2)", 2, UniformGrid::new(equi(&[3, 2]));
        "UniformGrid(2,3,4)", 3, UniformGrid::new(equi(&[2, 3, 4]));
        "TileCoding(4,64)", 2, tiles(4, 64);
        "TileCoding(5,3)", 2, tiles(5, 3);
        "TileCoding(1,1000)", 2, tiles(1, 1000);
        "TileCoding(8,32), 3d", 3, tiles(8, 32);
        "KernelBasis<Exponential>", 2, KernelBasis::homogeneous(centres(), Exponential::new(1.5, ls()));
        "KernelBasis<Matern32>", 2, KernelBasis::homogeneous(centres(), Matern32::new(1.5, ls()));
        "KernelBasis<Matern52>", 2, KernelBasis::homogeneous(centres(), Matern52::new(1.5, ls()));
        "KernelBasis<ExpQuad>", 2, KernelBasis::homogeneous(centres(), ExpQuad::new(1.5, ls()));
        "KernelBasis<Cosine>", 2, KernelBasis::homogeneous(centres(), Cosine::new(1.5, ls()));
        "KernelBasis<RationalQuadratic>", 2, KernelBasis::homogeneous(centres(), RationalQuadratic::new(1.5, ls(), 2.0));
        "KernelBasis of nothing", 2, KernelBasis::homogeneous(Vec::<Vec<f64>>::new(), ExpQuad::new(1.5, ls()));
        "KernelBasis, unlike kernels", 2, KernelBasis::new(vec![
            Prototype { centroid: vec![0.0, 1.0], kernel: ExpQuad::new(1.0, vec![2.0]) },
            Prototype { centroid: vec![-0.5, 0.25], kernel: ExpQuad::new(3.0, vec![0.5, 4.0]) },
        ]);
        "KernelBasis::exp_quad", 2, KernelBasis::exp_quad(equi(&[3, 2]));
        "KernelBasis::matern_32", 1, KernelBasis::matern_32(equi(&[4]));
        "KernelBasis::matern_52", 2, KernelBasis::matern_52(equi(&[1, 4]));
        "Bias", 1, Bias(-2.5);
        "Bias::unit", 2, Bias::unit();
        "Fixed::dense", 1, Fixed::dense(vec![1.0, -2.0, 0.0]);
        "Fixed::sparse", 2, Fixed::sparse(6, vec![0, 3, 4]);
        "Fixed::sparse, empty", 2, Fixed::sparse(6, vec![]);
        "Polynomial, edited 0", 2, edited_polynomial(0);
        "Polynomial, edited 1", 2, edited_polynomial(1);
        "Polynomial, edited 2", 2, edited_polynomial(2);
        "Polynomial, edited 3", 2, edited_polynomial(3);
        "Polynomial, edited 4", 2, edited_polynomial(4);
        "Fourier, edited 0", 2, edited_fourier(0);
        "Fourier, edited 1", 2, edited_fourier(1);
        "Fourier, edited 2", 2, edited_fourier(2);
        "Fourier, edited 3", 2, edited_fourier(3);
        "Fourier, edited 4", 2, edited_fourier(4);
        "KernelBasis, edited 0", 2, edited_kernels(0);
        "KernelBasis, edited 1", 2, edited_kernels(1);
        "KernelBasis, edited 2", 2, edited_kernels(2);
        "KernelBasis, edited 3", 2, edited_kernels(3);
        "KernelBasis, edited 4", 2, edited_kernels(4);
        "Polynomial(3,0)", 3, Polynomial::new(3, 0);
        "Polynomial(1,1).with_zeroth", 1, Polynomial::new(1, 1).with_zeroth();
        "Polynomial(2,5)", 2, Polynomial::new(2, 5);
        "Polynomial(1,9)", 1, Polynomial::new(1, 9);
        "Chebyshev(1,1)", 1, Chebyshev::new(1, limits(1));
        "Chebyshev(2,1), unit limits", 2, Chebyshev::new(1, vec![(-1.0, 1.0), (-1.0, 1.0)]);
        "Chebyshev(2,2), unit intervals", 2, Chebyshev::new(2, vec![(0.0, 1.0), (0.0, 1.0)]);
        "Fourier(2,1), unit limits", 2, Fourier::new(1, vec![(0.0, 1.0), (0.0, 1.0)]);
        "Fourier(2,3), own limits", 2, Fourier::new(3, vec![(-3.0, 7.5), (0.1, 0.2)]);
        "Fourier(1,40)", 1, Fourier::new(40, vec![(-1.0, 1.0)]);
        "UniformGrid(1)", 1, UniformGrid::new(equi(&[1]));
        "UniformGrid(1,1)", 2, UniformGrid::new(equi(&[1, 1]));
        "UniformGrid(40,50)", 2, UniformGrid::new(equi(&[40, 50]));
        "TileCoding(0,8)", 2, tiles(0, 8);
        "TileCoding(1,1)", 2, tiles(1, 1);
        "TileCoding(32,5000)", 2, tiles(32, 5000);
        "KernelBasis<RationalQuadratic>, power 1", 2, KernelBasis::homogeneous(centres(), RationalQuadratic::new(1.0, vec![1.0], 1.0));
        "KernelBasis<RationalQuadratic>, power 0", 2, KernelBasis::homogeneous(centres(), RationalQuadratic::new(1.0, ls(), 0.0));
        "KernelBasis<RationalQuadratic>, default", 2, KernelBasis::homogeneous(centres(), RationalQuadratic::default());
        "KernelBasis<ExpQuad>, default", 2, KernelBasis::homogeneous(centres(), ExpQuad::default());
        "KernelBasis<Cosine>, default", 2, KernelBasis::homogeneous(centres(), Cosine::default());
        "KernelBasis<Matern52>, variance 0", 2, KernelBasis::homogeneous(centres(), Matern52::new(0.0, ls()));
        "KernelBasis, one prototype", 2, KernelBasis::homogeneous(vec![vec![0.0, 0.0]], Exponential::default());
        "KernelBasis, the same prototype twice", 2, KernelBasis::homogeneous(vec![vec![0.5, 0.0], vec![0.5, 0.0]], Exponential::default());
        "KernelBasis, many", 2, KernelBasis::exp_quad(equi(&[12, 11]));
        "Bias(0)", 1, Bias(0.0);
        "Bias(1e300)", 1, Bias(1e300);
        "Fixed::dense, empty", 1, Fixed::dense(vec![]);
        "Fixed::dense, zeros", 1, Fixed::dense(vec![0.0; 3]);
        "Fixed::dense, long", 1, Fixed::dense((0..300).map(|i| (i % 7) as f64 - 3.0).collect::<Vec<_>>());
        "Fixed::sparse, none of none", 2, Fixed::sparse(0, vec![]);
        "Fixed::sparse, all", 2, Fixed::sparse(3, vec![0, 1, 2]);
        "Fixed::sparse, long", 2, Fixed::sparse(1000, (0..300).map(|i| 3 * i).collect::<Vec<_>>());
        "Stack(Bias, Bias)", 2, Bias(0.0).stack(Bias(1.0));
        "Stack of five", 2, Polynomial::new(2, 1).with_bias().with_bias().stack(tiles(2, 8)).stack(Bias(3.0));
        "L1(Bias(0))", 2, Bias(0.0).normalise_l1();
        "L2(L2)", 2, Fourier::new(2, limits(2)).normalise_l2().normalise_l2();
        "Linf(Fixed)", 2, Fixed::dense(vec![3.0, -4.0]).normalise_linf();
        "L0(Tiles)", 2, tiles(3, 9).normalise_l0();
        "Stack(Polynomial, Bias)", 2, Polynomial::new(2, 1).with_bias();
        "Stack(Grid, Tiles)", 2, UniformGrid::new(equi(&[3, 2])).stack(tiles(2, 16));
        "Stack(Tiles, Grid)", 2, tiles(2, 16).stack(UniformGrid::new(equi(&[3, 2])));
        "Stack(Stack, Stack)", 2, Bias(2.0).stack(Chebyshev::new(1, limits(2))).stack(Fourier::new(1, limits(2)).stack(Fixed::dense(vec![7.0])));
        "L0", 2, Polynomial::new(2, 2).normalise_l0();
        "L1", 2, Polynomial::new(2, 2).normalise_l1();
        "L2", 2, Polynomial::new(2, 2).normalise_l2();
        "Linf", 2, Polynomial::new(2, 2).normalise_linf();
        "L1(Grid)", 2, UniformGrid::new(equi(&[3, 2])).normalise_l1();
        "L2(Tiles)", 2, tiles(4, 9).normalise_l2();
        "L2(Linf(Chebyshev)).with_bias", 2, Chebyshev::new(2, limits(2)).normalise_linf().normalise_l2().with_bias();
    }
    // The zeroth term of a Chebyshev basis.
    v.push(scenario("basis Chebyshev.with_zeroth", |ctx| {
        let fmt = ctx.choose(FORMATS.len());
        let order = ctx.choose(12) as u8;
        let d = if order <= 3 { 1 + ctx.choose(2) } else { 1 };
        let b = Chebyshev::new(order, limits(d)).with_zeroth();
        let plain = Chebyshev::new(order, limits(d));
        let r = rt(&b, fmt)?;
        ctx.step();
        ctx.state((fmt, order, d));
        let mut lost = false;
        for x in inputs(d, if d == 1 { 6 } else { 3 }) {
            let want = denote(&b.project(&x).map_err(|e| e.to_string())?)?;
            let without = denote(&plain.project(&x).map_err(|e| e.to_string())?)?;
            let got = denote(&guarded("project", || r.project(&x))?.map_err(|e| e.to_string())?)?;
            if close_vec(&got, &want) && !lost {
                continue;
            }
            if close_vec(&got, &without) {
                lost = true;
                continue;
            }
            return Err(format!(
                "Chebyshev({}, {}d).with_zeroth() restored from {} projects {:?} to {:?}; saved: {:?}",
                order, d, FORMATS[fmt], x, got, want
            ));
        }
        if lost {
            ctx.known("chebyshev-with-zeroth-lost", || {
                format!("Chebyshev::new({}, {:?}).with_zeroth() restored from {} has {} features instead of {}", order, limits(d), FORMATS[fmt], r.polynomials.len(), b.polynomials.len())
            });
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- kernels

const VARIANCES: [f64; 8] = [0.1, 1.0, 3.5, 0.0, 2.0, -1.0, 1e-9, 1e12];
const SCALES: [&[f64]; 10] = [&[0.3], &[1.0, 2.5], &[0.1, 0.2], &[1.0], &[1.0, 1.0], &[2.0], &[0.0], &[-1.0, 0.5], &[], &[1e-6, 1e6]];

fn kernel<K>(name: &'static str, powers: &'static [f64], make: fn(f64, Vec<f64>, f64) -> K) -> Scenario
where
    K: for<'a> Kernel<&'a [f64]> + Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    scenario(format!("kernel {}", name), move |ctx| {
        let fmt = ctx.choose(FORMATS.len());
        let sigma = *ctx.pick(&VARIANCES);
        let ls = ctx.pick(&SCALES).to_vec();
        let power = *ctx.pick(powers);
        let k = make(sigma, ls.clone(), power);
        let r = rt(&k, fmt)?;
        if !(k == r && r == k) {
            return Err(format!("{}: {:?} restored from {} is not equal to the original: {:?}", name, k, FORMATS[fmt], r));
        }
        // as a part of a prototype, of a basis and of a pair
        let p = Prototype { centroid: vec![sigma, 0.5], kernel: k.clone() };
        let q = rt(&p, fmt)?;
        if !(p == q && q == p) {
            return Err(format!("{}: restored prototype {:?} is not equal to {:?}", name, q, p));
        }
        let b = KernelBasis::new(vec![p.clone(), Prototype { centroid: vec![], kernel: k.clone() }, p.clone()]);
        let c = rt(&b, fmt)?;
        if !(b == c && c == b) || c.prototypes.len() != 3 {
            return Err(format!("{}: restored basis {:?} is not equal to {:?}", name, c, b));
        }
        let two = rt(&(k.clone(), k.clone()), fmt)?;
        if two.0 != k || two.1 != k {
            return Err(format!("{}: a pair of {:?} restored from {} as {:?}", name, k, FORMATS[fmt], two));
        }
        ctx.steps(4);
        // kernels with one lengthscale or none take points of that many coordinates
        for x in [[0.0, 0.0], [0.5, -1.0], [2.0, 3.0]] {
            for y in [[0.0, 0.0], [0.25, 0.75]] {
                for n in 1..=2 {
                    let (x, y) = (&x[..n], &y[..n]);
                    let want = match guarded("kernel", || k.kernel(x, y)) {
                        Ok(v) => v,
                        Err(_) => continue,
                    };
                    let what = format!("{}({}, {:?}, {}) at {:?} {:?}", name, sigma, ls, power, x, y);
                    for r in [&r, &q.kernel, &c.prototypes[2].kernel, &two.1] {
                        expect(&what, guarded(&what, || r.kernel(x, y))?, want)?;
                    }
                    ctx.step();
                }
            }
        }
        ctx.state_here((fmt, sigma.to_bits(), bits(&ls), power.to_bits()));
        Ok(())
    })
}

// ---------------------------------------------------------------- optimisers

fn optimiser<O>(name: &'static str, make: fn(usize) -> O) -> Scenario
where
    O: Optimiser<Features> + Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    scenario(format!("optimiser {}", name), move |ctx| {
        let fmt = ctx.choose(FORMATS.len());
        let n = 2;
        let mut a = (make(n), Array1::from(vec![0.5, -1.0]));
        let op = |o: &mut O, w: &mut Array1<f64>, k: usize| -> Res {
            let (v, kind, s) = match k {
                0 => (vec![1.0, 0.0], Kind::Dense, 0.5),
                1 => (vec![0.0, 2.0], Kind::Sparse, -1.0),
                2 => (vec![0.3, -1.0], Kind::SparseFull, 1.0),
                _ => {
                    o.reset();
                    return Ok(());
                }
            };
            guarded("step", || o.step_scaled(&mut w.view_mut(), &build(kind, &v), s))?.map_err(|e| e.to_string())
        };
        let mut h = vec![];
        for _ in 0..ctx.choose(if ctx.thorough { 8 } else { 6 }) {
            let k = ctx.choose(4);
            h.push(k);
            op(&mut a.0, &mut a.1, k)?;
        }
        let mut b = (rt(&a.0, fmt)?, rt(&a.1, fmt)?);
        if !(a.0 == b.0 && b.0 == a.0) {
            return Err(format!("{} saved after {:?} as {}: restored {:?} is not equal to {:?}", name, h, FORMATS[fmt], b.0, a.0));
        }
        let cut = h.len();
        for _ in 0..2 {
            let k = ctx.choose(4);
            h.push(k);
            op(&mut a.0, &mut a.1, k)?;
            op(&mut b.0, &mut b.1, k)?;
            ctx.steps(2);
            ctx.state_here((fmt, bits(&b.1.to_vec())));
            expect_vec(&format!("{} after {:?}, restored from {} after {} operations", name, h, FORMATS[fmt], cut), &b.1.to_vec(), &a.1.to_vec())?;
        }
        Ok(())
    })
}

/// States that have overflowed or underflowed, in the format that has numbers
/// for them.
fn overflowed<O>(name: &'static str, make: fn(usize) -> O) -> Scenario
where
    O: Optimiser<Features> + Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    scenario(format!("optimiser {}, extreme states", name), move |ctx| {
        let big = [1e160, -1e200, 1e308, -1e-200, 5e-324, f64::INFINITY, f64::NAN];
        let mut a = make(2);
        let mut w = Array1::from(vec![0.5, -1.0]);
        let step = |o: &mut O, w: &mut Array1<f64>, x: f64, y: f64| guarded("step", || o.step_scaled(&mut w.view_mut(), &build(Kind::Dense, &[x, y]), 1.0))?.map_err(|e| e.to_string());
        let mut h = vec![];
        for _ in 0..2 {
            let (x, y) = (*ctx.pick(&big), *ctx.pick(&[1.0, 1e200]));
            h.push((x, y));
            step(&mut a, &mut w, x, y)?;
        }
        let what = format!("{} saved in a positional format after {:?}", name, h);
        let mut b = rt(&a, 1).map_err(|e| format!("{}: {}", what, e))?;
        let mut v = rt(&w, 1)?;
        exact_vec(&what, &v.to_vec(), &w.to_vec())?;
        if a == a && !(a == b && b == a) {
            return Err(format!("{}: restored {:?} is not equal to {:?}", what, b, a));
        }
        for k in 0..3 {
            // weights from a common start, to see the state in them
            let s = Array1::from(vec![0.25, 1.0]);
            (v.assign(&s), w.assign(&s));
            let x = [1.0, -1e150, 1e-3][k];
            step(&mut a, &mut w, x, 0.5)?;
            step(&mut b, &mut v, x, 0.5)?;
            ctx.steps(2);
            expect_vec(&format!("{}: weights after {} more", what, k + 1), &v.to_vec(), &w.to_vec())?;
        }
        ctx.state_here(bits(&v.to_vec()));
        Ok(())
    })
}

/// Every combination of (ordinary, default-like and extreme) parameters and
/// sizes, saved fresh, after use, and after use and a reset.
fn parameters<O>(name: &'static str, rates: &'static [&'static [f64]], make: fn(usize, &[f64]) -> O) -> Scenario
where
    O: Optimiser<Features> + Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    scenario(format!("optimiser {}, parameters", name), move |ctx| {
        let fmt = ctx.choose(FORMATS.len());
        let n = *ctx.pick(&[2usize, 0, 1, 3, 8, 9, 32, 33, 70, 300]);
        let p: Vec<f64> = rates.iter().map(|r| *ctx.pick(r)).collect();
        let f: Features = Features::Dense((0..n).map(|i| if i % 3 == 1 { 0.0 } else { 1.0 + i as f64 * 0.125 }).collect());
        let g: Features = Features::Sparse(SparseActivations { dim: n, activations: (0..n).filter(|i| i % 2 == 1).map(|i| (i, -0.5)).collect() });
        let mut w = Array1::from_elem(n, 0.5);
        let step = |o: &mut O, w: &mut Array1<f64>, k: usize| guarded("step", || o.step_scaled(&mut w.view_mut(), [&f, &g][k % 2], 0.25 + k as f64))?.map_err(|e| e.to_string());
        let mut a = make(n, &p);
        let history = ctx.choose(4);
        for k in 0..[0, 1, 3, 2][history] {
            step(&mut a, &mut w, k)?;
        }
        if history == 3 {
            a.reset();
        }
        let finite = w.iter().all(|x| x.is_finite());
        let what = format!("{} with {} weights and parameters {:?} in state {} saved as {}", name, n, p, history, FORMATS[fmt]);
        // JSON has no infinities
        if !finite && fmt != 1 {
            return Ok(());
        }
        let mut b = match rt(&a, fmt) {
            Ok(b) => b,
            Err(e) if finite => return Err(format!("{}: {}", what, e)),
            Err(_) => return Ok(()),
        };
        if !(a == b && b == a) && a == a {
            return Err(format!("{}: restored {:?} is not equal to {:?}", what, b, a));
        }
        let mut v = w.clone();
        for k in 0..3 {
            step(&mut a, &mut w, k)?;
            step(&mut b, &mut v, k)?;
            ctx.steps(2);
            expect_vec(&format!("{}: weights after {} more", what, k + 1), &v.to_vec(), &w.to_vec())?;
        }
        a.reset();
        b.reset();
        step(&mut a, &mut w, 1)?;
        step(&mut b, &mut v, 1)?;
        ctx.steps(2);
        expect_vec(&format!("{}: weights after a reset", what), &v.to_vec(), &w.to_vec())?;
        ctx.state_here((fmt, n, bits(&p), history));
        Ok(())
    })
}

// ------------------------------------------------------------- approximators

fn lfa_op<B, O>(fa: &mut LFA<B, Array1<f64>, O>, xs: &[Vec<f64>], k: usize) -> Res
where
    B: for<'a> Basis<&'a [f64], Value = Features>,
    O: Optimiser<Features>,
{
    guarded("the operation", || match k {
        0 => fa.update(&xs[0][..], 1.0),
        1 => fa.update_with(&xs[1][..], |_, y| 2.0 - y),
        2 => fa.update(&xs[2][..], -0.5),
        _ => {
            fa.optimiser.reset();
            Ok(())
        }
    })?
    .map_err(|e| e.to_string())
}

fn vlfa_op<B, O>(fa: &mut LFA<B, Array2<f64>, O>, xs: &[Vec<f64>], k: usize) -> Res
where
    B: for<'a> Basis<&'a [f64], Value = Features>,
    O: Optimiser<Features>,
{
    guarded("the operation", || match k {
        0 => fa.update(&xs[0][..], vec![1.0, -2.0]),
        1 => fa.update_with(&xs[1][..], |_, y| 2.0 - y),
        2 => fa.update_index(&xs[2][..], 1, -0.5),
        _ => {
            fa.optimiser.reset();
            Ok(())
        }
    })?
    .map_err(|e| e.to_string())
}

fn points(d: usize) -> Vec<Vec<f64>> {
    let all = inputs(d, if d == 1 { 6 } else { 3 });
    let k = all.len();
    vec![all[1].clone(), all[k / 2].clone(), all[k - 1].clone()]
}

fn approx<B, O, F>(name: String, d: usize, mb: F, mo: fn(usize) -> O, vector: bool) -> Scenario
where
    B: for<'a> Basis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + PartialEq + Serialize + DeserializeOwned + 'static,
    O: Optimiser<Features> + Clone + PartialEq + Serialize + DeserializeOwned + 'static,
    F: Fn() -> B + Send + Sync + 'static,
{
    scenario(format!("{} {}", if vector { "vector" } else { "scalar" }, name), move |ctx| {
        let xs = points(d);
        let fmt = ctx.choose(3);
        let n: usize = mb().dim().into();
        let before = ctx.choose(if ctx.thorough { 5 } else { 4 });
        let mut h = vec![];
        macro_rules! go {
            ($make:expr, $op:ident, $read:expr) => {{
                let mut a = $make;
                for _ in 0..before {
                    let k = ctx.choose(4);
                    h.push(k);
                    $op(&mut a, &xs, k)?;
                }
                let mut b = rt(&a, fmt)?;
                if !(a.basis == b.basis && a.optimiser == b.optimiser) {
                    return Err(format!("{}: parts restored from {} after {:?} are not equal to the originals", name, FORMATS[fmt], h));
                }
                let mut k = 0;
                loop {
                    let what = format!("{}: saved as {} after {} operations, restored, after {:?}", name, FORMATS[fmt], before, h);
                    expect_vec(&format!("{}: weights", what), &b.weights.iter().copied().collect::<Vec<_>>(), &a.weights.iter().copied().collect::<Vec<_>>())?;
                    ctx.state_here((fmt, b.weights.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                    expect_eq(&format!("{}: shape", what), b.weights.shape().to_vec(), a.weights.shape().to_vec())?;
                    for x in &xs {
                        let p: Vec<f64> = $read(&a, &x[..]).map_err(|e: lfa::Error| e.to_string())?;
                        let q: Vec<f64> = guarded("evaluate", || $read(&b, &x[..]))?.map_err(|e: lfa::Error| e.to_string())?;
                        expect_vec(&format!("{}: evaluation at {:?}", what, x), &q, &p)?;
                    }
                    if k == 2 {
                        break;
                    }
                    k += 1;
                    let o = ctx.choose(4);
                    h.push(o);
                    $op(&mut a, &xs, o)?;
                    $op(&mut b, &xs, o)?;
                    ctx.steps(2);
                }
            }};
        }
        if vector {
            go!(LFA::vector(mb(), mo(n), 2), vlfa_op, |fa: &LFA<B, Array2<f64>, O>, x| fa.evaluate(x).map(|v| v.to_vec()));
        } else {
            go!(LFA::scalar(mb(), mo(n)), lfa_op, |fa: &LFA<B, Array1<f64>, O>, x| fa.evaluate(x).map(|v| vec![v]));
        }
        Ok(())
    })
}

// ------------------------------------------------- saves that are interrupted

/// A full disk: takes so many bytes, and fails or panics at the next.
struct Full(usize, bool);

impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            if self.1 {
                panic!("disk full");
            }
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

trait Saved {
    fn saved_len(&self, fmt: usize) -> usize;
    /// A save that stops after n bytes.
    fn save_cut(&self, fmt: usize, n: usize, panics: bool) -> Res;
    /// A restore from the first n bytes.
    fn load_cut(&self, fmt: usize, n: usize);
    fn there_and_back(&self, fmt: usize) -> Res;
}

impl<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug> Saved for T {
    fn saved_len(&self, fmt: usize) -> usize {
        match fmt {
            0 => serde_json::to_string(self).unwrap().len(),
            _ => bincode::serialize(self).unwrap().len(),
        }
    }
    fn save_cut(&self, fmt: usize, n: usize, panics: bool) -> Res {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match fmt {
            0 => serde_json::to_writer(Full(n, panics), self).is_ok(),
            _ => bincode::serialize_into(Full(n, panics), self).is_ok(),
        }));
        match r {
            Ok(true) => Err(format!("a save to a disk with room for {} bytes succeeds: {:?}", n, self)),
            Ok(false) if panics => Err(format!("a save of {:?} returns normally although its writer panicked", self)),
            _ => Ok(()),
        }
    }
    fn load_cut(&self, fmt: usize, n: usize) {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match fmt {
            0 => drop(serde_json::from_slice::<T>(&serde_json::to_vec(self).unwrap()[..n])),
            _ => drop(bincode::deserialize::<T>(&bincode::serialize(self).unwrap()[..n])),
        }));
    }
    fn there_and_back(&self, fmt: usize) -> Res {
        // (without the truncations of `rt`, which would come in between)
        let r: T = guarded("saving and restoring", || match fmt {
            0 => serde_json::from_slice(&serde_json::to_vec(self).unwrap()).map_err(|e| e.to_string()),
            _ => bincode::deserialize(&bincode::serialize(self).unwrap()).map_err(|e| e.to_string()),
        })??;
        if !(r == *self && *self == r) {
            return Err(format!("restored {:?} is not equal to the original {:?}", r, self));
        }
        Ok(())
    }
}

fn used<O: Optimiser<Features>>(mut o: O, v: &[f64]) -> O {
    let mut w = Array1::from(vec![0.5; v.len()]);
    let _ = o.step_scaled(&mut w.view_mut(), &build(Kind::Dense, v), 0.5);
    o
}

/// Pairs of values that share their types (two of each).
fn savables() -> Vec<Box<dyn Saved>> {
    let mut v: Vec<Box<dyn Saved>> = vec![];
    macro_rules! each { ($($e:expr;)*) => { $( v.push(Box::new($e)); )* } }
    each! {
        Features::sparse(9, vec![(3, 2.0), (5, 1.5)]);
        Features::sparse(7, vec![(1, 4.0)]);
        Features::dense(vec![1.0, -2.5, 0.0]);
        Features::dense(vec![0.5]);
        (Features::sparse(3, vec![(0, 2.0)]), Features::dense(vec![1.0]), Features::sparse(4, vec![(2, -1.0), (0, 8.0)]));
        (Features::dense(vec![-1.0]), Features::sparse(5, vec![(4, 2.0)]), Features::sparse(2, Vec::<(usize, f64)>::new()));
        used(Adam::new(2, 0.1, 0.9, 0.99), &[1.0, -2.0]);
        used(Adam::new(3, 0.2, 0.8, 0.9), &[0.5, 0.0, 4.0]);
        used(AdaMax::new(2, 0.1, 0.9, 0.99), &[1.0, -2.0]);
        used(AdaMax::new(3, 0.2, 0.8, 0.9), &[0.5, 0.0, 4.0]);
        used(Adagrad::new(2, 0.1), &[1.0, -2.0]);
        used(Adagrad::new(3, 0.5), &[0.5, 0.0, 4.0]);
        used(SGDMomentum::new(2, 0.9, 0.1), &[1.0, -2.0]);
        used(SGDMomentum::new(3, 0.5, 0.1), &[0.5, 0.0, 4.0]);
        used(NAG::new(2, 0.9, 0.1), &[1.0, -2.0]);
        used(NAG::new(3, 0.5, 0.1), &[0.5, 0.0, 4.0]);
        Polynomial::new(2, 1);
        Polynomial::new(1, 3).with_zeroth();
        Fourier::new(2, limits(1));
        Fourier::new(1, limits(2));
        Chebyshev::new(2, limits(1));
        Chebyshev::new(1, limits(2));
        UniformGrid::new(equi(&[3]));
        UniformGrid::new(equi(&[2, 4]));
        TileCoding::new(Sip(1), 2, 8);
        TileCoding::new(Sip(7), 3, 16);
        KernelBasis::exp_quad(equi(&[2]));
        KernelBasis::exp_quad(equi(&[2, 1]));
        Polynomial::new(1, 2).stack(Fourier::new(1, limits(1))).normalise_l2();
        Polynomial::new(1, 1).stack(Fourier::new(2, limits(1))).normalise_l2();
    }
    v
}

/// A save that stops after any number of bytes (with an error or a panic of
/// the writer), or a restore from what it left, is a failure of that one
/// operation: the next save of any value is complete, and restores to it.
fn interrupted() -> Scenario {
    scenario("saves and restores that are interrupted", |ctx| {
        let fmt = ctx.choose(2);
        let all = savables();
        let i = ctx.choose(all.len());
        let j = ctx.choose(all.len());
        let how = ctx.choose(3);
        let len = all[i].saved_len(fmt);
        for n in 0..len {
            match how {
                0 => all[i].save_cut(fmt, n, false)?,
                1 => all[i].save_cut(fmt, n, true)?,
                _ => all[i].load_cut(fmt, n),
            }
            // the other value, then this one
            for k in [j, i] {
                all[k].there_and_back(fmt).map_err(|e| {
                    format!("after a {} ({}) that stopped after {} of {} bytes: {}", ["save", "save whose writer panicked", "restore"][how], FORMATS[fmt], n, len, e)
                })?;
            }
            ctx.steps(3);
            ctx.state((fmt, i, j, how, n));
        }
        Ok(())
    })
}

pub fn c28(t: bool) -> Vec<Scenario> {
    let mut out = features(t);
    out.extend(bases());
    out.push(interrupted());
    out.push(kernel("Exponential", &[0.0], |v, l, _| Exponential::new(v, l)));
    out.push(kernel("Matern32", &[0.0], |v, l, _| Matern32::new(v, l)));
    out.push(kernel("Matern52", &[0.0], |v, l, _| Matern52::new(v, l)));
    out.push(kernel("ExpQuad", &[0.0], |v, l, _| ExpQuad::new(v, l)));
    out.push(kernel("Cosine", &[0.0], |v, l, _| Cosine::new(v, l)));
    out.push(kernel("RationalQuadratic", &[2.5, 1.0, 2.0, 0.5, 0.0, 1e-6, 1e6], |v, l, p| RationalQuadratic::new(v, l, p)));
    macro_rules! opts {
        ($($name:literal, $o:expr;)*) => { $(
            out.push(optimiser($name, $o));
            out.push(overflowed($name, $o));
            out.push(approx(concat!("Polynomial ", $name).into(), 2, || Polynomial::new(2, 1).with_zeroth(), $o, false));
            out.push(approx(concat!("Polynomial ", $name).into(), 2, || Polynomial::new(2, 1).with_zeroth(), $o, true));
            out.push(approx(concat!("UniformGrid ", $name).into(), 2, || UniformGrid::new(equi(&[3, 2])), $o, false));
            out.push(approx(concat!("UniformGrid ", $name).into(), 2, || UniformGrid::new(equi(&[3, 2])), $o, true));
            out.push(approx(concat!("Fourier ", $name).into(), 1, || Fourier::new(3, limits(1)), $o, false));
            out.push(approx(concat!("Chebyshev ", $name).into(), 1, || Chebyshev::new(3, limits(1)), $o, true));
            out.push(approx(concat!("TileCoding ", $name).into(), 2, || TileCoding::new(Sip(3), 4, 16), $o, true));
            out.push(approx(concat!("KernelBasis ", $name).into(), 2, || KernelBasis::exp_quad(equi(&[3, 2])), $o, false));
            out.push(approx(concat!("L2(Stack) ", $name).into(), 2, || UniformGrid::new(equi(&[3, 2])).with_bias().normalise_l2(), $o, false));
        )* };
    }
    const LR: &[f64] = &[0.1, 0.0, 1.0, 0.001, -0.5, 1e-12, 100.0];
    const BETA: &[f64] = &[0.9, 0.0, 0.5, 0.999, 1e-3];
    out.push(parameters("SGD", &[LR], |_, p| SGD(p[0])));
    out.push(parameters("ISGD", &[LR], |_, p| ISGD(p[0])));
    out.push(parameters("SGDMomentum", &[LR, BETA], |n, p| SGDMomentum::new(n, p[1], p[0])));
    out.push(parameters("NAG", &[LR, BETA], |n, p| NAG::new(n, p[1], p[0])));
    out.push(parameters("Adagrad", &[LR], |n, p| Adagrad::new(n, p[0])));
    out.push(parameters("Adam", &[LR, BETA, BETA], |n, p| Adam::new(n, p[0], p[1], p[2])));
    out.push(parameters("AdaMax", &[LR, BETA, BETA], |n, p| AdaMax::new(n, p[0], p[1], p[2])));
    opts! {
        "SGD", |_| SGD(0.1);
        "ISGD", |_| ISGD(0.7);
        "SGDMomentum", |n| SGDMomentum::new(n, 0.9, 0.1);
        "NAG", |n| NAG::new(n, 0.8, 0.1);
        "Adagrad", |n| Adagrad::new(n, 0.5);
        "Adam", |n| Adam::new(n, 0.1, 0.9, 0.99);
        "AdaMax", |n| AdaMax::new(n, 0.1, 0.9, 0.99);
    }
    out
}
