//! What a caller may do that few callers do: hand over iterators that do not
//! know their length, change the public parts of a value after its
//! construction.
use crate::basis_util::*;
use crate::engine::*;
use crate::util::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::{Features, LFA};

/// An iterator that promises as much about its length as `way` says.
#[derive(Clone)]
pub struct Hinted<I> {
    it: I,
    left: usize,
    way: usize,
}

pub const HINTS: usize = 7;

pub fn hinted<I: ExactSizeIterator>(it: I, way: usize) -> Hinted<I> {
    Hinted { left: it.len(), it, way }
}

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next();
        if x.is_some() {
            self.left -= 1;
        }
        x
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.way {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (0, Some(usize::MAX)),
            4 => (n, None),
            5 => (n / 2, Some(2 * n + 1)),
            _ => (n.min(1), Some(n + 1)),
        }
    }
}

fn point(d: usize, k: usize) -> Vec<f64> {
    (0..d).map(|i| [0.25, 0.7, -0.4, 0.9, 0.1][(i + k) % 5]).collect()
}

/// Inputs and the bases that take any iterator of numbers.
pub fn inputs_of_unknown_length(id: &'static str) -> Scenario {
    scenario("inputs of unknown length", move |ctx| {
        let way = ctx.choose(HINTS);
        let d = *ctx.pick(&[1usize, 2, 3, 5, 8]);
        let x = point(d, ctx.choose(3));
        ctx.log(|| format!("way {} input {:?}", way, x));
        macro_rules! check {
            ($what:literal, $b:expr, $it:expr) => {{
                let b = $b;
                let want = denote(&b.project(&x[..]).map_err(|e| e.to_string())?)?;
                let f = guarded($what, || b.project(hinted($it, way)))?.map_err(|e| e.to_string())?;
                same_features($what, &f, &want)?;
                let n = want.len();
                for i in (0..n.min(40)).chain(n.saturating_sub(3)..n) {
                    let v = guarded($what, || b.ith(hinted($it, way), i))?.map_err(|e| e.to_string())?;
                    expect(&format!("{}: single feature {}", $what, i), v, want[i])?;
                }
                for i in [n, n + 1, usize::MAX] {
                    if guarded($what, || b.ith(hinted($it, way), i))?.is_ok() {
                        return Err(format!("{}: single feature {} of {}", $what, i, n));
                    }
                }
                ctx.steps(n + 4);
                ctx.state(($what, d, way, bits(&want)));
            }};
        }
        let order = if d > 3 { 1 } else { 3 };
        let lim: Vec<(f64, f64)> = (0..d).map(|i| (-1.0 - i as f64, 2.0 + i as f64)).collect();
        let all = id == "C09" || id == "C10";
        if all || id == "C11" {
            check!("Polynomial", Polynomial::new(d, order).with_zeroth(), x.iter());
            check!("Polynomial", Polynomial::new(d, order), x.iter().copied());
        }
        if all || id == "C12" {
            check!("Chebyshev", Chebyshev::new(order, lim.clone()).with_zeroth(), x.iter());
            check!("Chebyshev", Chebyshev::new(order, lim.clone()), x.iter().copied());
        }
        if all || id == "C13" {
            check!("Fourier", Fourier::new(order, lim.clone()), x.iter());
            check!("Fourier", Fourier::new(order, lim.clone()), x.iter().copied());
        }
        if all || id == "C14" {
            check!("UniformGrid", UniformGrid::new(equi(&[3, 2, 4, 1, 2, 2, 1, 3][..d])), x.iter());
        }
        if all || id == "C15" {
            check!("TileCoding", TileCoding::new(Bh::default(), 5, 300), x.iter());
        }
        Ok(())
    })
}

const LENGTHS: [usize; 16] = [0, 1, 2, 3, 7, 8, 15, 16, 33, 64, 100, 257, 1023, 1025, 5000, 66_000];

/// Constructors that take any iterator.
pub fn vectors_from_unknown_lengths() -> Scenario {
    scenario("contents of unknown length", |ctx| {
        let way = ctx.choose(HINTS);
        let n = *ctx.pick(&LENGTHS);
        let v: Vec<f64> = (0..n).map(|i| [1.5, -2.0, 0.0, 0.25][i % 4] + (i / 4) as f64).collect();
        let ones = vec![1.0; n];
        // given twice, the last one counts
        let pairs: Vec<(usize, f64)> = v.iter().map(|x| x - 1.0).enumerate().chain(v.iter().copied().enumerate()).collect();
        ctx.log(|| format!("way {} length {}", way, n));
        let same = |what: &str, f: &Features, want: &[f64]| same_exact(what, f, want);
        same("dense", &guarded("dense", || Features::dense(hinted(v.iter().copied(), way)))?, &v)?;
        same("collect", &guarded("collect", || hinted(v.iter().copied(), way).collect::<Features>())?, &v)?;
        same("sparse", &guarded("sparse", || Features::sparse(n, hinted(pairs.iter().copied(), way)))?, &v)?;
        let wide = guarded("sparse", || Features::sparse(n + 5, hinted(v.iter().copied().enumerate(), way)))?;
        same("sparse with room", &wide, &v.iter().copied().chain([0.0; 5]).collect::<Vec<f64>>())?;
        same("unitary", &guarded("unitary", || Features::unitary(n, hinted(0..n, way)))?, &ones)?;
        let half: Vec<f64> = (0..n).map(|i| (i % 2 == 0) as u8 as f64).collect();
        let even = (n + 1) / 2;
        same("unitary", &guarded("unitary", || Features::unitary(n, hinted((0..even).map(|i| 2 * i), way)))?, &half)?;
        ctx.steps(6);
        ctx.state((way, n));
        Ok(())
    })
}

pub fn constants_of_unknown_length() -> Scenario {
    scenario("constants of unknown length", |ctx| {
        let way = ctx.choose(HINTS);
        let n = *ctx.pick(&LENGTHS);
        let v: Vec<f64> = (0..n).map(|i| [1.5, -2.0, 0.0, 0.25][i % 4] + (i / 4) as f64).collect();
        let f = guarded("Fixed::dense", || Fixed::dense(hinted(v.iter().copied(), way)).project(0.0))?.map_err(|e| e.to_string())?;
        same_exact("Fixed::dense", &f, &v)?;
        let half: Vec<f64> = (0..n).map(|i| (i % 2 == 0) as u8 as f64).collect();
        let even = (n + 1) / 2;
        let f = guarded("Fixed::sparse", || Fixed::sparse(n, hinted((0..even).map(|i| 2 * i), way)).project(0.0))?;
        same_exact("Fixed::sparse", &f.map_err(|e| e.to_string())?, &half)?;
        ctx.steps(2);
        ctx.state((way, n));
        Ok(())
    })
}

pub fn centroids_of_unknown_length() -> Scenario {
    scenario("centroids of unknown length", |ctx| {
        let way = ctx.choose(HINTS);
        let n = *ctx.pick(&LENGTHS);
        let at = |i: usize| vec![0.25 * i as f64 - 1.0];
        let b = guarded("homogeneous", || KernelBasis::homogeneous(hinted((0..n).map(at), way), Exponential::new(2.0, vec![3.0])))?;
        let x = [0.3];
        let want: Vec<f64> = (0..n).map(|i| 2.0 * (-(at(i)[0] - 0.3).abs() / 3.0).exp()).collect();
        expect_eq("prototypes", b.prototypes.len(), n)?;
        let f = guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())?;
        same_features("homogeneous", &f, &want)?;
        ctx.steps(2);
        ctx.state((way, n));
        Ok(())
    })
}

pub fn errors_of_unknown_length() -> Scenario {
    scenario("errors of unknown length", |ctx| {
        let way = ctx.choose(HINTS);
        let k = *ctx.pick(&[1usize, 2, 3, 9, 70]);
        let given = *ctx.pick(&[0, k / 2, k - 1, k, k + 1, 2 * k + 3]);
        let es: Vec<f64> = (0..given).map(|j| 0.5 * j as f64 - 1.0).collect();
        let mut fa = LFA::vector(Fixed::dense(vec![1.0, -0.5]), lfa::optim::SGD(0.5), k);
        for round in 1..=2 {
            guarded("update", || fa.update(0.0, hinted(es.iter().copied(), way)))?.map_err(|e| e.to_string())?;
            for j in 0..k {
                let e = es.get(j).copied().unwrap_or(0.0) * round as f64;
                expect_vec("weights of an output", &fa.weights.column(j).to_vec(), &[0.5 * e, -0.25 * e])?;
            }
        }
        ctx.steps(2);
        ctx.state((way, k, given));
        Ok(())
    })
}

/// Constant bases whose constants the caller changes.
pub fn edited_constants() -> Scenario {
    scenario("constants changed by the caller", |ctx| {
        let n = 1 + ctx.choose(3);
        let first = ctx.pick_vec(n, &[0.0, 1.0, -2.5]);
        let then = ctx.pick_vec(n, &[0.0, 0.25, 4.0]);
        let mut b = Fixed::dense(first.clone());
        let go = |b: &Fixed<Vec<f64>>| guarded("project", || b.project(0.0))?.map_err(|e| e.to_string());
        same_exact("before", &go(&b)?, &first)?;
        b.0 = then.clone();
        same_exact("after", &go(&b)?, &then)?;
        for i in 0..n {
            expect_eq("single feature", EnumerableBasis::<f64>::ith(&b, 0.0, i).map_err(|e| e.to_string())?, then[i])?;
        }
        b.0.push(7.0);
        let longer: Vec<f64> = then.iter().copied().chain([7.0]).collect();
        same_exact("longer", &go(&b)?, &longer)?;
        expect_eq("size", dims(&b), n + 1)?;
        b.0.truncate(1);
        same_exact("shorter", &go(&b)?, &then[..1])?;
        expect_eq("size", dims(&b), 1)?;
        let mut c = Bias(first[0]);
        let bias = |c: &Bias| guarded("project", || c.project(0.0))?.map_err(|e| e.to_string());
        same_exact("bias before", &bias(&c)?, &first[..1])?;
        c.0 = then[0];
        same_exact("bias after", &bias(&c)?, &then[..1])?;
        let mut s = Fixed::sparse(n, 0..n);
        let go = |s: &Fixed<(usize, std::collections::HashSet<usize>)>| guarded("project", || s.project(0.0))?.map_err(|e| e.to_string());
        same_exact("sparse before", &go(&s)?, &vec![1.0; n])?;
        let gone = ctx.choose(n);
        (s.0).1.remove(&gone);
        (s.0).0 = n + 2;
        let mut want = vec![1.0; n];
        want[gone] = 0.0;
        want.extend([0.0, 0.0]);
        same_exact("sparse after", &go(&s)?, &want)?;
        ctx.steps(8);
        ctx.state((bits(&first), bits(&then), gone));
        Ok(())
    })
}

/// Kernels and prototypes changed after the basis has been used.
pub fn edited_prototypes() -> Scenario {
    scenario("prototypes changed by the caller", |ctx| {
        let d = 1 + ctx.choose(2);
        let n = 1 + ctx.choose(3);
        let at = |i: usize| -> Vec<f64> { (0..d).map(|j| [0.0, 1.0, -0.5, 2.0][(i + j) % 4]).collect() };
        let x = point(d, 0);
        let mut b = KernelBasis::homogeneous((0..n).map(at), RationalQuadratic::new(2.0, vec![0.5; d], 1.5));
        // the oracle's own record
        let mut model: Vec<(Vec<f64>, f64, Vec<f64>, f64)> = (0..n).map(|i| (at(i), 2.0, vec![0.5; d], 1.5)).collect();
        for _ in 0..if ctx.thorough { 4 } else { 3 } {
            let k = ctx.choose(model.len());
            let what = ctx.choose(7);
            let p = &mut b.prototypes;
            match what {
                0 => {
                    p[k].centroid[0] += 0.75;
                    model[k].0[0] += 0.75;
                }
                1 => {
                    p[k].kernel.variance *= 3.0;
                    model[k].1 *= 3.0;
                }
                2 => {
                    p[k].kernel.lengthscales[d - 1] *= 4.0;
                    model[k].2[d - 1] *= 4.0;
                }
                3 => {
                    p[k].kernel.power += 1.0;
                    model[k].3 += 1.0;
                }
                4 => {
                    p.swap(0, k);
                    model.swap(0, k);
                }
                5 => {
                    p.insert(k, Prototype { centroid: vec![0.3; d], kernel: RationalQuadratic::new(1.0, vec![2.0; d], 1.0) });
                    model.insert(k, (vec![0.3; d], 1.0, vec![2.0; d], 1.0));
                }
                _ if model.len() > 1 => {
                    p.remove(k);
                    model.remove(k);
                }
                _ => {}
            }
            ctx.log(|| format!("edit {} at {}: {:?}", what, k, model));
            let want: Vec<f64> = model
                .iter()
                .map(|(c, v, l, p)| super::bases::kernel_model(super::bases::KernelKind::RQ, *v, l, *p, &x, c))
                .collect();
            let f = guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())?;
            same_features("after the change", &f, &want)?;
            for i in 0..want.len() {
                let v = guarded("ith", || b.ith(&x[..], i))?.map_err(|e| e.to_string())?;
                expect("single feature", v, want[i])?;
                expect("prototype", b.prototypes[i].distance_from(&x[..]), want[i])?;
            }
            expect_eq("size", dims(&b), want.len())?;
            ctx.steps(2 + 2 * want.len());
            ctx.state(bits(&want));
        }
        Ok(())
    })
}

/// Limits changed after the basis has been used.
pub fn edited_limits(id: &'static str) -> Scenario {
    scenario("limits changed by the caller", move |ctx| {
        let d = 1 + ctx.choose(3);
        let order = 1 + ctx.choose(3) as u8;
        let lims = [(-1.0, 1.0), (0.0, 3.0), (-4.0, -1.5)];
        let mut lim: Vec<(f64, f64)> = (0..d).map(|i| lims[i]).collect();
        let mut cheb = Chebyshev::new(order, lim.clone());
        let mut four = Fourier::new(order, lim.clone());
        let f = ctx.pick_vec(d, &[0.2, 0.75]);
        for _ in 0..2 {
            let i = ctx.choose(d);
            let new = match ctx.choose(3) {
                0 => (lim[i].0, lim[i].1 + 1.5),
                1 => (lim[i].0 - 0.5, lim[i].1),
                _ => (lim[i].0 + 10.0, lim[i].1 + 12.0),
            };
            lim[i] = new;
            let x: Vec<f64> = f.iter().zip(&lim).map(|(f, l)| l.0 + f * (l.1 - l.0)).collect();
            ctx.log(|| format!("limits {:?} x {:?}", lim, x));
            let (want, b): (Vec<f64>, Dyn) = if id == "C12" {
                cheb.limits[i] = new;
                let one = |k: usize, f: f64| (k as f64 * (2.0 * f - 1.0f64).acos()).cos();
                let want = super::bases::degree_vectors(d, order as usize).iter().map(|e| e.iter().zip(&f).map(|(k, f)| one(*k, *f)).product()).collect();
                (want, en(cheb.clone()))
            } else {
                four.limits[i] = new;
                let one = |c: &Vec<usize>| c.iter().zip(&f).map(|(k, f)| *k as f64 * f).sum::<f64>();
                let want = super::bases::degree_vectors(d, order as usize).iter().map(|c| (std::f64::consts::PI * one(c)).cos()).collect();
                (want, en(four.clone()))
            };
            let got = if id == "C12" { guarded("project", || cheb.project(&x[..]))? } else { guarded("project", || four.project(&x[..]))? };
            expect_vec_tol("after the change", &denote(&got.map_err(|e| e.to_string())?)?, &want, 1e-8, 1e-8)?;
            let got = guarded("project", || b.0.project(&x))?.map_err(|e| e.to_string())?;
            expect_vec_tol("clone after the change", &denote(&got)?, &want, 1e-8, 1e-8)?;
            for i in 0..want.len() {
                let v = guarded("ith", || b.0.ith(&x, i))?.unwrap().map_err(|e| e.to_string())?;
                expect_vec_tol("single feature", &[v], &[want[i]], 1e-8, 1e-8)?;
            }
            ctx.steps(2 + want.len());
            ctx.state(bits(&x));
        }
        Ok(())
    })
}

/// Kernels whose hyper-parameters the caller changes after use.
pub fn edited_kernels_in_place() -> Scenario {
    scenario("hyper-parameters changed by the caller", |ctx| {
        use super::bases::{kernel_model, KernelKind as K};
        let d = 1 + ctx.choose(2);
        let (v0, v1) = (*ctx.pick(&[1.0, 0.5]), *ctx.pick(&[2.0, 7.5]));
        let (l0, l1) = (*ctx.pick(&[1.0, 0.5]), *ctx.pick(&[3.0, 0.125]));
        let (p0, p1) = (*ctx.pick(&[1.0, 2.5]), *ctx.pick(&[0.5, 80.0]));
        let whole = ctx.flag();
        let (x, y) = (point(d, 0), point(d, 2));
        macro_rules! check {
            ($k:expr, $kind:expr, $power:expr) => {{
                let mut k = $k;
                let of = |what: &str, got: f64, v: f64, l: &[f64], p: f64| -> Res {
                    let want = kernel_model($kind, v, l, p, &x, &y);
                    if close_tol(got, want, 1e-9, 1e-12) { Ok(()) } else { Err(format!("{}: {} {}, want {}", stringify!($k), what, got, want)) }
                };
                of("before", k.kernel(&x[..], &y[..]), v0, &vec![l0; d], p0)?;
                k.variance = v1;
                of("another variance", k.kernel(&x[..], &y[..]), v1, &vec![l0; d], p0)?;
                let mut l = vec![l0; d];
                if whole {
                    l = vec![l1];
                    k.lengthscales = l.clone();
                } else {
                    l[0] = l1;
                    k.lengthscales[0] = l1;
                }
                of("another lengthscale", k.kernel(&x[..], &y[..]), v1, &l, p0)?;
                of("vector form", Kernel::<&Vec<f64>>::kernel(&k, &x, &y), v1, &l, p0)?;
                if d == 1 {
                    of("scalar form", Kernel::<f64>::kernel(&k, x[0], y[0]), v1, &l, p0)?;
                }
                let p = $power(&mut k);
                of("another power", k.kernel(&x[..], &y[..]), v1, &l, p)?;
                of("clone", k.clone().kernel(&x[..], &y[..]), v1, &l, p)?;
                ctx.steps(7);
            }};
        }
        check!(Exponential::new(v0, vec![l0; d]), K::Exp, |_: &mut Exponential| p0);
        check!(Matern32::new(v0, vec![l0; d]), K::M32, |_: &mut Matern32| p0);
        check!(Matern52::new(v0, vec![l0; d]), K::M52, |_: &mut Matern52| p0);
        check!(ExpQuad::new(v0, vec![l0; d]), K::EQ, |_: &mut ExpQuad| p0);
        check!(Cosine::new(v0, vec![l0; d]), K::Cos, |_: &mut Cosine| p0);
        check!(RationalQuadratic::new(v0, vec![l0; d], p0), K::RQ, |k: &mut RationalQuadratic| { k.power = p1; p1 });
        ctx.state((d, v0.to_bits(), v1.to_bits(), l0.to_bits(), l1.to_bits(), p0.to_bits(), p1.to_bits(), whole));
        Ok(())
    })
}

/// Hyper-parameters of every magnitude.
pub fn kernel_parameters() -> Scenario {
    scenario("hyper-parameters of every magnitude", |ctx| {
        use super::bases::{kernel_fns, kernel_model, KernelKind as K, KERNELS};
        let k = *ctx.pick(&KERNELS);
        let var = *ctx.pick(&[1.0, 1e-12, 1e-3, 64.0, 1e6, 1e100, 1e-100]);
        let power = if k == K::RQ { *ctx.pick(&[1.0, 1e-6, 0.01, 0.25, 3.0, 10.0, 16.0, 33.0, 65.0, 100.0, 129.0, 300.0, 1e3, 1e4, 1e6]) } else { 1.0 };
        let l = *ctx.pick(&[1.0, 1e-9, 1e-3, 0.1, 8.0, 100.0, 1e4, 1e9]);
        let r = *ctx.pick(&[0.0, 1e-4, 0.01, 0.1, 0.3, 0.5, 0.75, 0.9, 1.0, 1.1, 1.5, 2.0, 2.5, 3.0, 5.0, 7.0, 10.0, 20.0]);
        let d = 1 + ctx.choose(2);
        let share = if d == 1 { r } else { r / 2f64.sqrt() };
        let x = vec![0.0; d];
        let y = vec![share * l; d];
        ctx.log(|| format!("{:?} variance {} lengthscale {} power {} r {}", k, var, l, power, r));
        let want = kernel_model(k, var, &[l], power, &x, &y);
        // the exponent's rounding is magnified by its size
        let rtol = 1e-12 * (1.0 + power) * (1.0 + r * r) + 1e-9;
        let atol = if k == K::Cos { 1e-9 * var } else { 1e-290 };
        for ls in [vec![l], vec![l; d]] {
            let (f, fv, fs) = kernel_fns(k, var, &ls, power, false);
            let mut got = vec![("k(x,y)", f(&x, &y)), ("k(y,x)", f(&y, &x)), ("vector form", fv(&x, &y))];
            if d == 1 {
                got.push(("scalar form", fs(x[0], y[0])));
            }
            for (what, got) in got {
                if !close_tol(got, want, rtol, atol) {
                    return Err(format!("{} = {}, want {}", what, got, want));
                }
            }
        }
        ctx.steps(4);
        ctx.state((k, var.to_bits(), power.to_bits(), l.to_bits(), r.to_bits(), d));
        Ok(())
    })
}

/// Grids of many dimensions, most of them undivided.
pub fn grids_of_many_dimensions() -> Scenario {
    scenario("grids of many dimensions", |ctx| {
        let d = *ctx.pick(&[5usize, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 129, 257, 300]);
        let split = |ctx: &mut Ctx| { let k = ctx.choose(5); [0, 1, d / 2, d - 2, d - 1][k] };
        let (i, j) = (split(ctx), split(ctx));
        let mut s = vec![1usize; d];
        s[i] = 3;
        s[j] = 2 + (i == j) as usize;
        let cells: Vec<usize> = (0..d).map(|k| if s[k] > 1 { ctx.choose(s[k]) } else { 0 }).collect();
        let lim: Vec<(f64, f64)> = (0..d).map(|k| ([0.0, -4.0, 2.0][k % 3], [0.0, -4.0, 2.0][k % 3] + s[k] as f64)).collect();
        let outside = ctx.choose(3);
        let x: Vec<f64> = (0..d)
            .map(|k| lim[k].0 + cells[k] as f64 + 0.5 + if s[k] == 1 { [0.0, 5.0, -5.0][outside] } else { 0.0 })
            .collect();
        let n: usize = s.iter().product();
        let want = cells.iter().zip(&s).fold(0, |a, (c, n)| a * n + c);
        ctx.log(|| format!("{} dimensions, split at {} and {}, cells {} {}", d, i, j, cells[i], cells[j]));
        let b = guarded("UniformGrid::new", || {
            UniformGrid::new(spaces::ProductSpace::new(
                lim.iter().zip(&s).map(|(l, n)| spaces::Equipartition::new(l.0, l.1, *n)).collect::<Vec<_>>(),
            ))
        })?;
        let v = denote(&guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())?)?;
        expect_eq("size", v.len(), n)?;
        for k in 0..n {
            expect_eq("activation", v[k], (k == want) as u8 as f64)?;
            expect_eq("single feature", guarded("ith", || b.ith(&x[..], k))?.map_err(|e| e.to_string())?, v[k])?;
        }
        ctx.steps(1 + n);
        ctx.state((d, i, j, want, outside));
        Ok(())
    })
}

/// Coordinates without end on either side, alone and together.
pub fn grids_without_end() -> Scenario {
    scenario("coordinates of any magnitude", |ctx| {
        let d = 1 + ctx.choose(3);
        let parts: Vec<usize> = (0..d).map(|_| *ctx.pick(&[1usize, 2, 3, 7])).collect();
        let lim: Vec<(f64, f64)> = (0..d).map(|k| [(0.0, 1.0), (-4.0, 4.0), (2.0, 10.0)][k]).collect();
        let far = [f64::NEG_INFINITY, f64::INFINITY, -f64::MAX, f64::MAX, -1e300, 1e17, 0.0];
        let which: Vec<usize> = (0..d).map(|_| ctx.choose(far.len())).collect();
        let mut want = 0;
        let x: Vec<f64> = (0..d)
            .map(|k| {
                let (lo, hi) = lim[k];
                let last = which[k] + 1 == far.len();
                let cell = if last { parts[k] / 2 } else if far[which[k]] < 0.0 { 0 } else { parts[k] - 1 };
                want = want * parts[k] + cell;
                if last { lo + (hi - lo) * (cell as f64 + 0.5) / parts[k] as f64 } else { far[which[k]] }
            })
            .collect();
        let n: usize = parts.iter().product();
        ctx.log(|| format!("{:?} cells over {:?}, at {:?}", parts, lim, x));
        let b = UniformGrid::new(spaces::ProductSpace::new(
            lim.iter().zip(&parts).map(|(l, n)| spaces::Equipartition::new(l.0, l.1, *n)).collect::<Vec<_>>(),
        ));
        let v = denote(&guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())?)?;
        expect_eq("size", v.len(), n)?;
        for k in 0..n {
            expect_eq("activation", v[k], (k == want) as u8 as f64)?;
            expect_eq("single feature", guarded("ith", || b.ith(&x[..], k))?.map_err(|e| e.to_string())?, v[k])?;
        }
        ctx.steps(1 + n);
        ctx.state((&parts, &which));
        Ok(())
    })
}

pub fn dims<B: spaces::Space>(b: &B) -> usize {
    b.dim().into()
}
