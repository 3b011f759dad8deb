//! C32: equality.
use crate::basis_util::*;
use crate::engine::*;
use crate::util::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Error, Features};
use ndarray::Array1;
use spaces::Space;
use std::fmt::Debug;

/// `==` and `!=`, both ways round, must agree.
fn equal<T: PartialEq + Debug>(a: &T, b: &T) -> std::result::Result<bool, String> {
    let r = guarded("==", || [a == b, b == a, !(a != b), !(b != a)])?;
    if r != [r[0]; 4] {
        return Err(format!("{:?} and {:?}: a == b, b == a, not a != b, not b != a are {:?}", a, b, r));
    }
    Ok(r[0])
}

/// Feature vectors of one storage form.
fn vector_pairs(max: usize, vals: &'static [f64], dense: bool) -> Scenario {
    scenario(format!("{} vectors to length {} over {:?}", if dense { "dense" } else { "sparse" }, max, vals), move |ctx| {
        let kinds: &[Kind] = if dense {
            &[Kind::Dense, Kind::DenseRev, Kind::DenseStride, Kind::DenseOffset]
        } else {
            &[Kind::Sparse, Kind::SparseFull]
        };
        let (n, m) = (ctx.choose(max + 1), ctx.choose(max + 1));
        let (u, v) = (ctx.pick_vec(n, vals), ctx.pick_vec(m, vals));
        for k in kinds {
            for l in kinds {
                let (a, b) = (build(*k, &u), build(*l, &v));
                let eq = equal(&a, &b)?;
                ctx.step();
                if eq && u != v {
                    return Err(format!("{:?} {:?} equals {:?} {:?}", k, u, l, v));
                }
                if !eq && u == v && (dense || k == l) {
                    return Err(format!("{:?} {:?} does not equal {:?} {:?}", k, u, l, v));
                }
            }
            let a = build(*k, &u);
            if !equal(&a, &a.clone())? || !equal(&a, &a)? {
                return Err(format!("{:?} {:?} does not equal itself or its clone", k, u));
            }
        }
        ctx.state((dense, bits(&u), bits(&v)));
        Ok(())
    })
}

/// Sparse vectors as lists of entries, with explicit zeros anywhere.
fn entry_pairs(max: usize) -> Scenario {
    scenario(format!("sparse entries to length {}", max), move |ctx| {
        let n = ctx.choose(max + 1);
        // per coordinate: no entry, an explicit zero, or a value
        let pick = |ctx: &mut Ctx| -> Vec<(usize, f64)> {
            (0..n).filter_map(|i| [None, Some((i, 0.0)), Some((i, 1.0)), Some((i, -2.0))][ctx.choose(4)]).collect()
        };
        let (u, v) = (pick(ctx), pick(ctx));
        let mut taller = n;
        if ctx.flag() {
            taller += 1;
        }
        let (a, b) = (Features::sparse(n, u.clone()), Features::sparse(taller, v.clone()));
        let eq = equal(&a, &b)?;
        ctx.step();
        ctx.state((n, taller, format!("{:?}{:?}", u, v)));
        if eq && (n != taller || denote(&a)? != denote(&b)?) {
            return Err(format!("sparse {:?} of length {} equals {:?} of length {}", u, n, v, taller));
        }
        if !eq && n == taller && u == v {
            return Err(format!("sparse {:?} does not equal one built alike", u));
        }
        Ok(())
    })
}

fn long_vectors_differ() -> Scenario {
    scenario("long vectors", |ctx| {
        let kind = *ctx.pick(&KINDS);
        let n = *ctx.pick(&[7usize, 8, 9, 16, 33, 64, 65, 128, 257, 1000]);
        let i = ctx.choose(n.min(66));
        let i = if i < 33 { i } else { n - 1 - (i - 33).min(n - 1) };
        let u: Vec<f64> = (0..n).map(|i| [1.0, -0.5, 3.0][i % 3]).collect();
        let mut v = u.clone();
        match ctx.choose(4) {
            0 => v[i] = f64::from_bits(v[i].to_bits() + 1),
            1 => v[i] = -v[i],
            2 => v[i] += 1e-9,
            _ => v.swap(i, (i + 1) % n),
        }
        if u == v {
            return Ok(());
        }
        if equal(&build(kind, &u), &build(kind, &v))? {
            return Err(format!("{:?} vectors of length {} that differ at {} are equal", kind, n, i));
        }
        if !equal(&build(kind, &u), &build(kind, &u))? {
            return Err(format!("{:?} vectors of length {} built alike differ", kind, n));
        }
        // entries inserted the other way round, and a longer history
        if kind.is_sparse() {
            let rev = Features::sparse(n, u.iter().copied().enumerate().rev());
            if !equal(&rev, &build(Kind::Sparse, &u))? {
                return Err("the order of insertion matters".into());
            }
            let mut more = Features::sparse(n, u.iter().copied().enumerate());
            if let Features::Sparse(sa) = &mut more {
                for k in n..3 * n {
                    sa.activations.insert(k, 1.0);
                }
                for k in n..3 * n {
                    sa.activations.remove(&k);
                }
            }
            if !equal(&more, &rev)? {
                return Err("entries that were removed again matter".into());
            }
            let taller = Features::sparse(n + 1, u.iter().copied().enumerate());
            if equal(&taller, &rev)? {
                return Err(format!("sparse vectors of lengths {} and {} are equal", n + 1, n));
            }
        }
        ctx.steps(2);
        ctx.state((kind, n, i, bits(&v)));
        Ok(())
    })
}

/// Answers of a basis, as far as it can be asked.
fn answers<B>(b: &B, d: usize) -> std::result::Result<Vec<u64>, String>
where
    B: for<'a> Basis<&'a [f64], Value = Features> + Space<Value = Features>,
{
    let n: usize = b.dim().into();
    let mut out = vec![n as u64];
    for x in inputs(d, if d == 1 { 6 } else { 3 }) {
        let f = guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())?;
        out.push(is_sparse(&f) as u64);
        out.extend(bits(&denote(&f)?));
    }
    Ok(out)
}

/// All pairs of a list of bases of one type: equal ones answer alike; those
/// at the same place of two lists, and clones, are equal.
fn bases<B>(name: &str, d: usize, make: impl Fn() -> Vec<B> + Send + Sync + 'static) -> Scenario
where
    B: for<'a> Basis<&'a [f64], Value = Features> + Space<Value = Features> + Clone + PartialEq + Debug + 'static,
{
    let name = name.to_string();
    scenario(format!("{} {}d", name, d), move |ctx| {
        let (l, r) = (make(), make());
        let (i, j) = (ctx.choose(l.len()), ctx.choose(r.len()));
        let (a, b) = (&l[i], &r[j]);
        ctx.log(|| format!("{:?} and {:?}", a, b));
        let (pa, pb) = (answers(a, d)?, answers(b, d)?);
        let eq = equal(a, b)?;
        ctx.steps(2);
        ctx.state((&name, d, i, j));
        if eq && pa != pb {
            return Err(format!("{:?} equals {:?}, which projects differently", a, b));
        }
        if i == j && !(eq && equal(a, &a.clone())?) {
            return Err(format!("{:?} does not equal one built alike, or its clone", a));
        }
        if pa != pb {
            ctx.witness("distinguishable");
        }
        Ok(())
    })
}

fn kernels_of<K>(name: &'static str, make: fn() -> Vec<K>) -> Scenario
where
    K: for<'a> Kernel<&'a [f64]> + Clone + PartialEq + Debug + 'static,
{
    scenario(format!("kernel {}", name), move |ctx| {
        let (l, r) = (make(), make());
        let (i, j) = (ctx.choose(l.len()), ctx.choose(r.len()));
        let ask = |k: &K| -> Vec<u64> {
            let mut v = vec![];
            for r in [0.0, 0.1, 0.7, 2.0, 11.0] {
                for d in 0..2 {
                    let mut y = [0.0, 0.0];
                    y[d] = r;
                    v.push(k.kernel(&[0.0, 0.0][..], &y[..]).to_bits());
                }
            }
            v
        };
        let eq = equal(&l[i], &r[j])?;
        if eq && ask(&l[i]) != ask(&r[j]) {
            return Err(format!("{:?} equals {:?}, which evaluates differently", l[i], r[j]));
        }
        if i == j && !(eq && equal(&l[i], &l[i].clone())?) {
            return Err(format!("{:?} does not equal one built alike, or its clone", l[i]));
        }
        // as parts of a prototype and a basis
        for (c, e) in [(0.5, 0.5), (0.5, 0.25)] {
            let p = |c: f64, k: &K| Prototype { centroid: vec![c, 1.0], kernel: k.clone() };
            let (a, b) = (p(c, &l[i]), p(e, &r[j]));
            if equal(&a, &b)? != (eq && c == e) {
                return Err(format!("prototypes {:?} and {:?}", a, b));
            }
            let (a, b) = (KernelBasis::new(vec![a.clone(), p(3.0, &l[0])]), KernelBasis::new(vec![b, p(3.0, &l[0])]));
            if equal(&a, &b)? != (eq && c == e) {
                return Err(format!("bases {:?} and {:?}", a, b));
            }
        }
        // centroids of which one is the other with something left out
        let cs: [&[f64]; 7] = [&[0.5, 1.0], &[0.5], &[], &[0.5, 1.0, 0.0], &[1.0, 0.5], &[0.5, 0.0], &[0.0]];
        for (a, c) in cs.iter().enumerate() {
            for (b, e) in cs.iter().enumerate() {
                let p = |c: &[f64], k: &K| Prototype { centroid: c.to_vec(), kernel: k.clone() };
                let (p, q) = (p(c, &l[i]), p(e, &r[j]));
                if equal(&p, &q)? != (eq && a == b) {
                    return Err(format!("prototypes {:?} and {:?}", p, q));
                }
                let (p, q) = (KernelBasis::new(vec![p]), KernelBasis::new(vec![q]));
                if equal(&p, &q)? != (eq && a == b) {
                    return Err(format!("bases {:?} and {:?}", p, q));
                }
                ctx.steps(2);
            }
        }
        ctx.steps(5);
        ctx.state((name, i, j));
        Ok(())
    })
}

fn optimisers<O>(name: &'static str, make: fn() -> Vec<O>) -> Scenario
where
    O: Optimiser<Features> + Clone + PartialEq + Debug + 'static,
{
    scenario(format!("optimiser {}", name), move |ctx| {
        let (mut l, mut r) = (make(), make());
        let (i, j) = (ctx.choose(l.len()), ctx.choose(r.len()));
        let (mut a, mut b) = (l.swap_remove(i), r.swap_remove(j));
        let grads = [
            build(Kind::Dense, &[1.0, -0.5]),
            build(Kind::Sparse, &[0.0, 2.0]),
            build(Kind::Dense, &[0.0, 0.0]),
            build(Kind::SparseFull, &[1.0, -0.5 + 1e-12]),
        ];
        let step = |o: &mut O, g: usize| -> std::result::Result<Vec<u64>, String> {
            let mut w = Array1::from(vec![0.25, -1.0]);
            o.step_scaled(&mut w.view_mut(), &grads[g], 0.5).map_err(|e| e.to_string())?;
            Ok(bits(&w.to_vec()))
        };
        let max = if ctx.thorough { 4 } else { 3 };
        let hist = |ctx: &mut Ctx, o: &mut O| -> std::result::Result<Vec<usize>, String> {
            let mut h = vec![];
            for _ in 0..max {
                match ctx.choose(6) {
                    0 => break,
                    5 => {
                        o.reset();
                        h.push(5);
                    }
                    g => {
                        step(o, g - 1)?;
                        h.push(g);
                    }
                }
            }
            Ok(h)
        };
        let (h, k) = (hist(ctx, &mut a)?, hist(ctx, &mut b)?);
        let eq = equal(&a, &b)?;
        ctx.log(|| format!("{:?} after {:?} and {:?} after {:?}: {}", a, h, b, k, eq));
        if i == j && h == k && !eq {
            return Err(format!("equal histories {:?} of equal optimisers led to {:?} and {:?}", h, a, b));
        }
        if !equal(&a, &a.clone())? {
            return Err(format!("{:?} does not equal its clone", a));
        }
        ctx.steps(2 + h.len() + k.len());
        ctx.state((name, i, j, &h, &k));
        if eq {
            ctx.witness("equal");
            let show = format!("{:?} after {:?} and {:?} after {:?}", a, h, b, k);
            for g in [0, 1, 2, 0, 3] {
                let (u, v) = (step(&mut a, g)?, step(&mut b, g)?);
                if u != v {
                    return Err(format!("{} are equal but then step differently", show));
                }
            }
        } else {
            ctx.witness("unequal");
        }
        Ok(())
    })
}

pub fn c32(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for dense in [true, false] {
        out.push(vector_pairs(if t { 4 } else { 3 }, &[0.0, 1.0, -1.0], dense));
        out.push(vector_pairs(2, &[0.0, 1.0, 1.0 + f64::EPSILON, 1e-300, -1e-9, 1e9, -1.0], dense));
    }
    out.push(entry_pairs(if t { 5 } else { 4 }));
    out.push(long_vectors_differ());
    for d in 1..=2usize {
        out.push(bases("Polynomial", d, move || {
            let mut v: Vec<_> = (0..4).flat_map(|o| vec![Polynomial::new(d, o), Polynomial::new(d, o).with_zeroth()]).collect();
            v.extend((0..3).map(edited_polynomial).filter(|p| p.exponents[0].len() == d));
            // changed in place, their number and everything else as it was
            let mut b = Polynomial::new(d, 3);
            b.exponents.reverse();
            v.push(b.clone());
            b.exponents[0][d - 1] += 1;
            v.push(b.clone());
            b.exponents[1][0] = 200;
            v.push(b);
            v
        }));
        out.push(bases("Fourier", d, move || {
            let mut l2 = limits(d);
            l2[d - 1].1 += 0.25;
            let mut l3 = limits(d);
            l3[0].0 -= 1e-9;
            let mut v = vec![Fourier::new(1, limits(d)), Fourier::new(2, limits(d)), Fourier::new(2, l2), Fourier::new(2, l3), Fourier::new(3, limits(d))];
            let mut b = Fourier::new(2, limits(d));
            b.coefficients.reverse();
            v.push(b.clone());
            b.coefficients[0][d - 1] += 0.5;
            v.push(b.clone());
            let n = b.coefficients.len();
            b.coefficients[n - 1][0] = -1.0;
            v.push(b.clone());
            b.limits[0].0 -= 1.0;
            v.push(b.clone());
            b.coefficients.truncate(1);
            v.push(b);
            v
        }));
        out.push(bases("Chebyshev", d, move || {
            let mut l2 = limits(d);
            l2[d - 1].1 += 0.25;
            let mut b = Chebyshev::new(2, limits(d));
            b.limits[0].1 += 2.0;
            let mut c = Chebyshev::new(2, limits(d));
            c.polynomials.truncate(1);
            vec![
                Chebyshev::new(1, limits(d)),
                Chebyshev::new(2, limits(d)),
                Chebyshev::new(2, l2),
                Chebyshev::new(2, limits(d)).with_zeroth(),
                Chebyshev::new(5, limits(d)),
                b,
                c,
            ]
        }));
        out.push(bases("UniformGrid", d, move || {
            let grid = |cells: &[usize], shift: f64, stretch: f64| {
                UniformGrid::new(spaces::ProductSpace::new(
                    cells
                        .iter()
                        .enumerate()
                        .map(|(i, n)| {
                            let s = if i == d - 1 { (shift, stretch) } else { (0.0, 1.0) };
                            spaces::Equipartition::new(-1.0 + s.0, -1.0 + s.0 + 2.0 * s.1, *n)
                        })
                        .collect::<Vec<_>>(),
                ))
            };
            let c = |a: usize, b: usize| if d == 1 { vec![a] } else { vec![a, b] };
            vec![
                grid(&c(3, 2), 0.0, 1.0),
                grid(&c(2, 3), 0.0, 1.0),
                grid(&c(3, 3), 0.0, 1.0),
                grid(&c(6, 1), 0.0, 1.0),
                grid(&c(3, 2), 1.5, 1.0),
                grid(&c(3, 2), 0.0, 4.0),
            ]
        }));
        out.push(bases("TileCoding", d, move || {
            let mut v = vec![];
            for n in [1usize, 2, 4] {
                for m in [3usize, 16, 64] {
                    v.push(TileCoding::new(FixedState(0), n, m));
                    v.push(TileCoding::new(FixedState(7), n, m));
                }
            }
            v
        }));
    }
    out.push(bases("KernelBasis", 1, || {
        let p = |c: usize| {
            [(0.0, 1.0, 1.0), (0.0, 2.0, 1.0), (0.0, 1.0, 0.5), (1.0, 1.0, 1.0)]
                .map(|(x, v, l)| Prototype { centroid: vec![x], kernel: ExpQuad::new(v, vec![l]) })[c]
                .clone()
        };
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..2 {
            for l in lists.clone() {
                for c in 0..4 {
                    let mut m = l.clone();
                    m.push(c);
                    if !lists.contains(&m) {
                        lists.push(m);
                    }
                }
            }
        }
        lists.extend([vec![0, 1, 2], vec![0, 1, 2, 3], vec![3, 2, 1, 0]]);
        lists.into_iter().map(|l| KernelBasis::new(l.into_iter().map(p).collect::<Vec<_>>())).collect()
    }));
    out.push(bases("Bias", 1, || [0.0, 1.0, -1.0, 1.0 + 1e-15, 2.5].iter().map(|v| Bias(*v)).collect()));
    out.push(bases("Fixed::dense", 1, || {
        vec![
            Fixed::dense(vec![]),
            Fixed::dense(vec![0.0]),
            Fixed::dense(vec![1.0]),
            Fixed::dense(vec![1.0, 0.0]),
            Fixed::dense(vec![0.0, 1.0]),
            Fixed::dense(vec![1.0, 1e-12]),
        ]
    }));
    out.push(bases("Fixed::sparse", 1, || {
        vec![
            Fixed::sparse(3, vec![]),
            Fixed::sparse(4, vec![]),
            Fixed::sparse(4, vec![0]),
            Fixed::sparse(4, vec![1]),
            Fixed::sparse(4, vec![0, 3]),
            Fixed::sparse(4, vec![3, 0, 3]),
            Fixed::sparse(5, vec![0, 3]),
        ]
    }));
    fn parts() -> Vec<Fixed<Vec<f64>>> {
        vec![Fixed::dense(vec![1.0]), Fixed::dense(vec![2.0]), Fixed::dense(vec![1.0, 2.0]), Fixed::dense(vec![2.0, 1.0]), Fixed::dense(vec![])]
    }
    out.push(bases("Stack", 1, || parts().into_iter().flat_map(|a| parts().into_iter().map(move |b| a.clone().stack(b))).collect()));
    out.push(bases("Closure", 1, || {
        fn one(x: &[f64]) -> lfa::Result<Features> {
            Ok(vec![x[0], 1.0].into())
        }
        fn two(x: &[f64]) -> lfa::Result<Features> {
            Ok(vec![x[0], 2.0].into())
        }
        type Map = for<'a> fn(&'a [f64]) -> lfa::Result<Features>;
        [1usize, 2, 3, 1 << 40].into_iter().flat_map(|n| [Closure::new(n, one as Map), Closure::new(n, two as Map)]).collect()
    }));
    out.push(bases("Stack of stacks", 1, || {
        let p = || parts().into_iter().take(3);
        p().flat_map(|a| p().flat_map(move |b| { let a = a.clone(); p().map(move |c| a.clone().stack(b.clone()).stack(c)) })).collect()
    }));
    // Parts of every kind, on either side.
    macro_rules! stacked {
        ($name:expr, $mk:expr) => {{
            let mk = $mk;
            out.push(bases(concat!("Stack of Fixed and ", $name), 1, move || parts().into_iter().take(2).flat_map(|a| mk().into_iter().map(move |b| a.clone().stack(b))).collect()));
            out.push(bases(concat!("Stack of ", $name, " and Fixed"), 1, move || parts().into_iter().take(2).flat_map(|a| mk().into_iter().map(move |b| b.stack(a.clone()))).collect()));
            out.push(bases(concat!("Stack of ", $name, " twice"), 1, move || mk().into_iter().flat_map(|a| mk().into_iter().map(move |b| a.clone().stack(b))).collect()));
            out.push(bases(concat!("L0 of ", $name), 1, move || mk().into_iter().map(|b| b.normalise_l0()).collect()));
            out.push(bases(concat!("L1 of ", $name), 1, move || mk().into_iter().map(|b| b.normalise_l1()).collect()));
            out.push(bases(concat!("L2 of ", $name), 1, move || mk().into_iter().map(|b| b.normalise_l2()).collect()));
            out.push(bases(concat!("Linf of ", $name), 1, move || mk().into_iter().map(|b| b.normalise_linf()).collect()));
            out.push(bases(concat!("L2 of Stack of ", $name, " and Bias"), 1, move || {
                mk().into_iter().flat_map(|a| [1.0, -2.0, 0.5].into_iter().map(move |b| a.clone().stack(Bias(b)).normalise_l2())).collect()
            }));
        }};
    }
    stacked!("Bias", || vec![Bias(1.0), Bias(2.0), Bias(-1.0), Bias(1.0 + 1e-15)]);
    stacked!("Polynomial", || vec![Polynomial::new(1, 1), Polynomial::new(1, 2), Polynomial::new(1, 1).with_zeroth(), Polynomial::new(1, 2).with_zeroth()]);
    stacked!("Fourier", || vec![Fourier::new(1, limits(1)), Fourier::new(2, limits(1)), Fourier::new(2, vec![(limits(1)[0].0 - 1e-3, limits(1)[0].1)])]);
    stacked!("Chebyshev", || vec![Chebyshev::new(1, limits(1)), Chebyshev::new(2, limits(1)), Chebyshev::new(2, limits(1)).with_zeroth()]);
    stacked!("TileCoding", || vec![TileCoding::new(FixedState(0), 2, 16), TileCoding::new(FixedState(7), 2, 16), TileCoding::new(FixedState(0), 3, 16), TileCoding::new(FixedState(0), 2, 17)]);
    stacked!("UniformGrid", || {
        let g = |a, b, n| UniformGrid::new(spaces::ProductSpace::new(vec![spaces::Equipartition::new(a, b, n)]));
        vec![g(-1.0, 1.0, 3), g(-1.0, 1.0, 4), g(-1.0, 3.0, 3)]
    });
    stacked!("KernelBasis", || {
        let k = |c: f64, v, l| KernelBasis::homogeneous(vec![vec![c]], ExpQuad::new(v, vec![l]));
        vec![k(0.0, 1.0, 1.0), k(0.5, 1.0, 1.0), k(0.0, 2.0, 1.0), k(0.0, 1.0, 2.0)]
    });
    out.push(bases("L0Normaliser", 1, || parts().into_iter().map(|b| b.normalise_l0()).collect()));
    out.push(bases("L1Normaliser", 1, || parts().into_iter().map(|b| b.normalise_l1()).collect()));
    out.push(bases("L2Normaliser", 1, || parts().into_iter().map(|b| b.normalise_l2()).collect()));
    out.push(bases("LinfNormaliser", 1, || parts().into_iter().map(|b| b.normalise_linf()).collect()));
    macro_rules! stationary {
        ($k:ident) => {
            out.push(kernels_of(stringify!($k), || {
                vec![
                    $k::new(1.0, vec![1.0]),
                    $k::new(2.0, vec![1.0]),
                    $k::new(1.0, vec![2.0]),
                    $k::new(1.0, vec![1.0, 2.0]),
                    $k::new(1.0, vec![2.0, 1.0]),
                    $k::new(1.0, vec![1.0, 2.0 + 1e-9]),
                ]
            }))
        };
    }
    stationary!(Exponential);
    stationary!(Matern32);
    stationary!(Matern52);
    stationary!(ExpQuad);
    stationary!(Cosine);
    out.push(kernels_of("RationalQuadratic", || {
        vec![
            RationalQuadratic::new(1.0, vec![1.0], 1.0),
            RationalQuadratic::new(2.0, vec![1.0], 1.0),
            RationalQuadratic::new(1.0, vec![2.0], 1.0),
            RationalQuadratic::new(1.0, vec![1.0], 2.0),
            RationalQuadratic::new(1.0, vec![1.0, 2.0], 1.0),
        ]
    }));
    out.push(optimisers("SGD", || vec![SGD(0.1), SGD(0.2), SGD(0.1 + 1e-15), SGD(0.0)]));
    out.push(optimisers("ISGD", || vec![ISGD(0.1), ISGD(0.2), ISGD(0.0)]));
    out.push(optimisers("SGDMomentum", || vec![SGDMomentum::new(2, 0.9, 0.1), SGDMomentum::new(2, 0.5, 0.1), SGDMomentum::new(2, 0.9, 0.2)]));
    out.push(optimisers("NAG", || vec![NAG::new(2, 0.9, 0.1), NAG::new(2, 0.5, 0.1), NAG::new(2, 0.9, 0.2)]));
    out.push(optimisers("Adagrad", || vec![Adagrad::new(2, 0.1), Adagrad::new(2, 0.2)]));
    out.push(optimisers("Adam", || {
        vec![Adam::new(2, 0.1, 0.9, 0.999), Adam::new(2, 0.2, 0.9, 0.999), Adam::new(2, 0.1, 0.8, 0.999), Adam::new(2, 0.1, 0.9, 0.99)]
    }));
    out.push(optimisers("AdaMax", || {
        vec![AdaMax::new(2, 0.1, 0.9, 0.999), AdaMax::new(2, 0.2, 0.9, 0.999), AdaMax::new(2, 0.1, 0.8, 0.999), AdaMax::new(2, 0.1, 0.9, 0.99)]
    }));
    out.push(scenario("errors", |ctx| {
        let vals = [0usize, 1, 10, 11, 110, 1 << 40];
        let (a, b) = ((*ctx.pick(&vals), *ctx.pick(&vals)), (*ctx.pick(&vals), *ctx.pick(&vals)));
        let (e, f) = (Error::index_error(a.0, a.1), Error::index_error(b.0, b.1));
        ctx.step();
        ctx.state((a, b));
        if equal(&e, &f)? != (a == b) {
            return Err(format!("{:?} and {:?}", e, f));
        }
        let words: Vec<String> = e.to_string().split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
        expect_eq("numbers named by the error", words, vec![a.0.to_string(), a.1.to_string()])?;
        Ok(())
    }));
    // a user's bases, whose single-feature evaluation is the trait's default,
    // alone and inside the combinators
    let mut users = vec![];
    for n in [0usize, 1, 2, 5] {
        for sparse in [false, true] {
            let mk = move || {
                mock(n, move |x: &[f64]| {
                    let v = (0..n).map(|i| x[0] + 1.5 + i as f64);
                    if sparse {
                        Features::sparse(n, v.enumerate())
                    } else {
                        Features::from(v.collect::<Vec<f64>>())
                    }
                })
            };
            let kind = if sparse { "sparse" } else { "dense" };
            users.push(entry(&format!("user basis, {} {} features", n, kind), 1, n, sparse, move || en(mk())));
            users.push(entry(&format!("stack(user basis, {} {} features)", n, kind), 1, n + 3, sparse, move || {
                en(mk().stack(mock(3, |_| Features::from(vec![1.0, 2.0, 3.0]))))
            }));
            users.push(entry(&format!("stack(3 features, user basis, {} {} features)", n, kind), 1, n + 3, sparse, move || {
                en(mock(3, |_| Features::from(vec![1.0, 2.0, 3.0])).stack(mk()))
            }));
            if n > 0 {
                users.push(entry(&format!("L1(user basis, {} {} features)", n, kind), 1, n, sparse, move || en(mk().normalise_l1())));
                users.push(entry(&format!("Linf(user basis, {} {} features)", n, kind), 1, n, sparse, move || en(mk().normalise_linf())));
            }
        }
    }
    for e in super::bases::all_entries(t).into_iter().filter(|e| e.enumerable).chain(users) {
        out.push(scenario(format!("refusals of {}", e.name), move |ctx| {
            let x = ctx.pick(&crate::basis_util::inputs(e.d, 2)).clone();
            let i = *ctx.pick(&[e.n, e.n + 1, e.n + 2, e.n + 7, 2 * e.n, 2 * e.n + 3, e.n + 64, 1 << 40, usize::MAX - 1, usize::MAX]);
            let b = (e.make)();
            ctx.log(|| format!("{} at {:?}, index {}", e.name, x, i));
            ctx.step();
            ctx.state((&e.name, bits(&x), i));
            let err = match guarded("ith", || b.0.ith(&x, i))?.expect("enumerable") {
                Err(err) => err,
                Ok(y) => return Err(format!("ith({}) of {} features returned {}", i, e.n, y)),
            };
            let words: Vec<String> = err.to_string().split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
            expect_eq("index and number of features named by the error", words, vec![i.to_string(), e.n.to_string()])?;
            if equal(&err, &Error::index_error(i, e.n))? {
                Ok(())
            } else {
                Err(format!("{:?} differs from the index error of {} and {}", err, i, e.n))
            }
        }));
    }
    out
}

/// A hasher builder that can be compared and told apart.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct FixedState(pub u64);

impl std::hash::BuildHasher for FixedState {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u64(self.0);
        h
    }
}
