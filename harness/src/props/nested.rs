//! User functions that use the library themselves: an operation that calls one
//! must neither disturb what that does nor be disturbed by it.
use crate::basis_util::*;
use crate::engine::*;
use crate::optim_util::*;
use crate::util::*;
use lfa::basis::*;
use lfa::optim::{Optimiser, SGD};
use lfa::{Features, LFA};
use ndarray::linalg::Dot;
use ndarray::{Array1, Array2, ArrayViewMut1};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const INNER: [&str; 14] = [
    "map",
    "map_into",
    "map_inplace",
    "merge",
    "merge_into",
    "merge_inplace",
    "stack",
    "products",
    "conversions",
    "reads",
    "removal",
    "an interrupted map_into",
    "an interrupted merge_inplace",
    "a map within a map_into",
];

/// One use of unrelated vectors, with its result checked.
pub fn inner(which: usize, kind: Kind) -> Res {
    let v = [0.0, 5.0, 0.0, -1.0];
    let u = [2.0, 0.0, 0.0, 4.0];
    let (f, g) = (build(kind, &v), build(Kind::Sparse, &u));
    let name = |what: &str| format!("{} of {:?} within a user function", what, kind);
    let twice: Vec<f64> = v.iter().map(|x| 2.0 * x).collect();
    let sum: Vec<f64> = v.iter().zip(&u).map(|(x, y)| x + y).collect();
    match which {
        0 => same_exact(&name("map"), &guarded("map", || f.map(|x| 2.0 * x))?, &twice)?,
        1 => same_exact(&name("map_into"), &guarded("map_into", || f.clone().map_into(|x| 2.0 * x))?, &twice)?,
        2 => {
            let mut h = f.clone();
            guarded("map_inplace", || h.map_inplace(|x| 2.0 * x))?;
            same_exact(&name("map_inplace"), &h, &twice)?
        }
        3 => same_exact(&name("merge"), &guarded("merge", || f.merge(&g, |x, y| x + y))?, &sum)?,
        4 => same_exact(&name("merge_into"), &guarded("merge_into", || f.clone().merge_into(&g, |x, y| x + y))?, &sum)?,
        5 => {
            let mut h = f.clone();
            guarded("merge_inplace", || h.merge_inplace(&g, |x, y| x + y))?;
            same_exact(&name("merge_inplace"), &h, &sum)?
        }
        6 => {
            let want: Vec<f64> = v.iter().chain(&u).copied().collect();
            same_exact(&name("stack"), &guarded("stack", || f.clone().stack(g.clone()))?, &want)?
        }
        7 => {
            let w = Array1::from(vec![1.0, 2.0, 3.0, 4.0]);
            expect(&name("dot"), guarded("dot", || f.dot(&w))?, 6.0)?;
            expect(&name("inner product"), guarded("inner product", || Dot::dot(&f, &g))?, -4.0)?;
            let mut w2 = w.clone();
            guarded("scaled_addto", || f.scaled_addto(2.0, &mut w2))?;
            expect_vec(&name("scaled_addto"), &w2.to_vec(), &[1.0, 12.0, 3.0, 2.0])?;
            let m = Array2::from_shape_fn((4, 2), |(i, j)| (1 + i) as f64 * if j == 0 { 1.0 } else { -1.0 });
            expect_vec(&name("matmul"), &guarded("matmul", || f.matmul(&m))?.to_vec(), &[6.0, -6.0])?
        }
        8 => {
            exact_vec(&name("to_dense"), &guarded("to_dense", || f.to_dense())?.to_vec(), &v)?;
            exact_vec(&name("into_dense"), &guarded("into_dense", || f.clone().into_dense())?.to_vec(), &v)?;
            let x: Vec<f64> = guarded("Vec::from", || f.clone().into())?;
            exact_vec(&name("Vec::from"), &x, &v)?;
            same_exact(&name("unitary"), &guarded("unitary", || Features::unitary(4, vec![1, 3]))?, &[0.0, 1.0, 0.0, 1.0])?;
            same_exact(&name("from indices"), &guarded("from indices", || Features::from(vec![2usize]))?, &[0.0, 0.0, 1.0])?
        }
        9 => {
            expect(&name("sum"), guarded("sum", || f.sum())?, 4.0)?;
            expect(&name("fold"), guarded("fold", || f.fold(1.0, |a, x| a + x * x))?, 27.0)?;
            expect_eq(&name("n_active"), f.n_active(), 2)?;
            expect_eq(&name("comparison"), f == build(kind, &v), true)?
        }
        10 => {
            let mut h = f.clone();
            guarded("remove", || h.remove(1))?;
            same_exact(&name("remove"), &h, &[0.0, 0.0, 0.0, -1.0])?
        }
        11 => {
            let calls = Cell::new(0);
            let r = catch_unwind(AssertUnwindSafe(|| {
                f.clone().map_into(|x| {
                    calls.set(calls.get() + 1);
                    if calls.get() == 2 {
                        std::panic::panic_any(());
                    }
                    x
                })
            }));
            expect_eq(&name("interruption"), r.is_err(), true)?
        }
        12 => {
            let calls = Cell::new(0);
            let mut h = f.clone();
            let r = catch_unwind(AssertUnwindSafe(|| {
                h.merge_inplace(&g, |x, _| {
                    calls.set(calls.get() + 1);
                    if calls.get() == 2 {
                        std::panic::panic_any(());
                    }
                    x
                })
            }));
            expect_eq(&name("interruption"), r.is_err(), true)?
        }
        _ => {
            let h = guarded("map_into", || f.clone().map_into(|x| x * build(kind, &[0.0, 1.0]).map_into(|y| 2.0 * y).sum()))?;
            same_exact(&name("nested map_into"), &h, &twice)?
        }
    }
    same_exact(&name("operand"), &f, &v)?;
    same_exact(&name("operand"), &g, &u)
}

/// The function given to the outer operation: it counts its calls and makes the
/// chosen use at the chosen ones.
struct Busy {
    which: usize,
    kind: Kind,
    /// at which call; at every one if none is named
    at: Option<usize>,
    calls: Cell<usize>,
    failed: RefCell<Res>,
}

impl Busy {
    fn choose(ctx: &mut Ctx, calls: usize) -> Busy {
        let which = ctx.choose(INNER.len());
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull]);
        let k = ctx.choose(calls + 1);
        Busy { which, kind, at: k.checked_sub(1), calls: Cell::new(0), failed: RefCell::new(Ok(())) }
    }

    fn work(&self) {
        let c = self.calls.get();
        self.calls.set(c + 1);
        if self.at.map_or(true, |k| k == c) {
            let r = inner(self.which, self.kind);
            if r.is_err() && self.failed.borrow().is_ok() {
                *self.failed.borrow_mut() = r;
            }
        }
    }

    fn start(&self) {
        self.calls.set(0);
    }

    fn verdict(&self) -> Res {
        self.failed.borrow().clone()
    }
}

fn vectors(long: bool) -> Vec<Vec<f64>> {
    if long {
        [17usize, 100].iter().flat_map(|n| vec![
            (0..*n).map(|i| 1.0 + (i % 5) as f64).collect::<Vec<f64>>(),
            (0..*n).map(|i| if i % 3 == 0 { 0.0 } else { -2.0 }).collect(),
        ]).collect()
    } else {
        vec![vec![], vec![3.0], vec![0.0, 2.0], vec![1.0, 0.0, -2.0], vec![4.0, 1.0, -2.0, 0.5]]
    }
}

pub fn reads() -> Scenario {
    scenario("folding with a function that uses other vectors", |ctx| {
        let kind = *ctx.pick(&KINDS);
        let vs: Vec<Vec<f64>> = vectors(false).into_iter().chain(vectors(true)).collect();
        let v = ctx.pick(&vs).clone();
        let b = Busy::choose(ctx, v.len().min(4));
        ctx.log(|| format!("{:?} {:?}: {} at {:?}", kind, v, INNER[b.which], b.at));
        let f = build(kind, &v);
        let got = guarded("fold", || f.fold(0.5, |a, x| {
            b.work();
            a + x
        }))?;
        b.verdict()?;
        ctx.step();
        ctx.state((kind, bits(&v), b.which, b.at));
        expect_sum("fold", got, v.iter().copied().chain(Some(0.5)))?;
        same_exact("the vector folded", &f, &v)
    })
}

pub fn maps() -> Vec<Scenario> {
    let gs: [(&str, fn(f64) -> f64); 2] = [("2x", |x| 2.0 * x), ("x+1", |x| x + 1.0)];
    let mut out = vec![];
    for (name, g) in gs {
        for long in [false, true] {
            out.push(scenario(format!("mapping {} while using other vectors{}", name, if long { ", long" } else { "" }), move |ctx| {
                let kind = *ctx.pick(&KINDS);
                let v = ctx.pick(&vectors(long)).clone();
                let form = ctx.choose(3);
                let b = Busy::choose(ctx, v.len().min(4) + 1);
                ctx.log(|| format!("form {} over {:?} {:?}: {} at {:?}", form, kind, v, INNER[b.which], b.at));
                let f = build(kind, &v);
                let h = |x: f64| {
                    b.work();
                    g(x)
                };
                let want: Vec<f64> = v.iter().map(|x| g(*x)).collect();
                for round in 0..2 {
                    b.start();
                    let got = match form {
                        0 => guarded("map", || f.map(h))?,
                        1 => guarded("map_into", || f.clone().map_into(h))?,
                        _ => {
                            let mut f = f.clone();
                            guarded("map_inplace", || f.map_inplace(h))?;
                            f
                        }
                    };
                    b.verdict()?;
                    ctx.step();
                    same_features(&format!("mapped, round {}", round), &got, &want)?;
                    same_exact("the vector mapped", &f, &v)?;
                }
                ctx.state((kind, bits(&v), form, b.which, b.at));
                Ok(())
            }));
        }
    }
    out
}

pub fn merges() -> Vec<Scenario> {
    let gs: [(&str, fn(f64, f64) -> f64); 2] = [("x+2y", |x, y| x + 2.0 * y), ("x*y+1", |x, y| x * y + 1.0)];
    let mut out = vec![];
    for (name, g) in gs {
        for long in [false, true] {
            out.push(scenario(format!("merging {} while using other vectors{}", name, if long { ", long" } else { "" }), move |ctx| {
                let kinds = [Kind::Dense, Kind::Sparse, Kind::SparseFull, Kind::DenseStride];
                let (ka, kb) = (*ctx.pick(&kinds), *ctx.pick(&kinds));
                let a = ctx.pick(&vectors(long)).clone();
                let mut c: Vec<f64> = (0..a.len()).map(|i| if i % 2 == 0 { 7.0 } else { 0.0 }).collect();
                if ka.is_sparse() || kb.is_sparse() {
                    match ctx.choose(3) {
                        1 => c.truncate(c.len() / 2),
                        2 => c.extend([0.0, 3.0]),
                        _ => {}
                    }
                }
                let form = ctx.choose(3);
                let b = Busy::choose(ctx, a.len().max(c.len()).min(3) + 1);
                ctx.log(|| format!("form {} over {:?} {:?} and {:?} {:?}: {} at {:?}", form, ka, a, kb, c, INNER[b.which], b.at));
                let (fa, fb) = (build(ka, &a), build(kb, &c));
                let h = |x: f64, y: f64| {
                    b.work();
                    g(x, y)
                };
                let at = |u: &[f64], i: usize| u.get(i).copied().unwrap_or(0.0);
                let want: Vec<f64> = (0..a.len().max(c.len())).map(|i| g(at(&a, i), at(&c, i))).collect();
                for round in 0..2 {
                    b.start();
                    let got = match form {
                        0 => guarded("merge", || fa.merge(&fb, h))?,
                        1 => guarded("merge_into", || fa.clone().merge_into(&fb, h))?,
                        _ => {
                            let mut f = fa.clone();
                            guarded("merge_inplace", || f.merge_inplace(&fb, h))?;
                            f
                        }
                    };
                    b.verdict()?;
                    ctx.step();
                    same_features(&format!("merged, round {}", round), &got, &want)?;
                    same_exact("left operand", &fa, &a)?;
                    same_exact("right operand", &fb, &c)?;
                }
                ctx.state((ka, kb, bits(&a), c.len(), form, b.which, b.at));
                Ok(())
            }));
        }
    }
    out
}

/// Constructors that draw their entries from an iterator which uses the library.
pub fn builds() -> Scenario {
    scenario("entries from an iterator that uses other vectors", |ctx| {
        let n = *ctx.pick(&[0usize, 1, 2, 3, 4, 17, 100]);
        let form = ctx.choose(4);
        let b = Busy::choose(ctx, n.min(4));
        ctx.log(|| format!("form {} of {} entries: {} at {:?}", form, n, INNER[b.which], b.at));
        let v: Vec<f64> = (0..n).map(|i| 0.5 - i as f64).collect();
        let touch = |x: f64| {
            b.work();
            x
        };
        let (got, want): (Features, Vec<f64>) = match form {
            0 => (guarded("from_iter", || v.iter().map(|x| touch(*x)).collect())?, v.clone()),
            1 => (guarded("sparse", || Features::sparse(n + 2, (0..n).map(|i| (n - i, touch(v[i])))))?, {
                let mut w = vec![0.0; n + 2];
                for i in 0..n {
                    w[n - i] = v[i];
                }
                w
            }),
            2 => (guarded("unitary", || Features::unitary(2 * n, (0..n).map(|i| 2 * i + 0 * touch(1.0) as usize)))?, (0..2 * n).map(|i| (1 - i % 2) as f64).collect()),
            _ => (guarded("dense", || Features::dense(v.iter().map(|x| touch(*x)).collect::<Vec<_>>()))?, v.clone()),
        };
        b.verdict()?;
        ctx.step();
        ctx.state((n, form, b.which, b.at));
        same_exact("built", &got, &want)
    })
}

// ------------------------------------------------ approximators within them

const MODELS: [&str; 10] = [
    "nothing",
    "an evaluation",
    "an update",
    "a deferred update",
    "a deferred update that panics",
    "a vector update",
    "a deferred vector update",
    "a vector update with no more errors than one, iterated",
    "a failing projection",
    "feature vectors",
];

/// One use of another approximator, with its result checked.
fn other(which: usize, sparse: bool) -> Res {
    let basis = || -> Dyn {
        if sparse {
            mock_dyn(Kind::Sparse)
        } else {
            en(Polynomial::new(1, 2))
        }
    };
    // [2, 4] or {0: 2, 1: 4} at 2
    let x = [2.0];
    let say = |what: &str| format!("{} of another approximator within a callback", what);
    let fine = |what: &str, r: std::result::Result<lfa::Result<()>, String>| r?.map_err(|e| format!("{}: {}", say(what), e));
    let mut s = LFA::new(basis(), Array1::from(vec![0.5, -1.0]), SGD(0.5));
    let mut v = LFA::new(basis(), Array2::from_shape_fn((2, 3), |(i, j)| 1.0 + i as f64 - j as f64), SGD(0.5));
    match which {
        0 => {}
        1 => {
            let y = guarded("evaluate", || s.evaluate(&x[..]))?.map_err(|e| e.to_string())?;
            expect(&say("evaluation"), y, -3.0)?
        }
        2 => {
            fine("update", guarded("update", || s.update(&x[..], 1.0)))?;
            expect_vec(&say("update"), &s.weights.to_vec(), &[1.5, 1.0])?
        }
        3 => {
            let seen = RefCell::new((vec![], 0.0));
            fine("update_with", guarded("update_with", || s.update_with(&x[..], |f, y| {
                *seen.borrow_mut() = (denote(f).unwrap_or_default(), y);
                2.0
            })))?;
            let seen = seen.into_inner();
            expect_vec(&say("features of a deferred update"), &seen.0, &[2.0, 4.0])?;
            expect(&say("value of a deferred update"), seen.1, -3.0)?;
            expect_vec(&say("deferred update"), &s.weights.to_vec(), &[2.5, 3.0])?
        }
        4 => {
            let r = catch_unwind(AssertUnwindSafe(|| s.update_with(&x[..], |_, _| std::panic::panic_any(()))));
            expect_eq(&say("panic"), r.is_err(), true)?;
            expect_vec(&say("panicking update"), &s.weights.to_vec(), &[0.5, -1.0])?
        }
        5 | 6 | 7 => {
            match which {
                5 => fine("update", guarded("update", || v.update(&x[..], vec![1.0, -1.0, 0.5])))?,
                6 => fine("update_with", guarded("update_with", || v.update_with(&x[..], |_, y| {
                    // values 10, 4, -2
                    Array1::from(vec![1.0, 3.0 - y[1], -1.5 - y[2]])
                })))?,
                _ => {
                    fine("update", guarded("update", || v.update(&x[..], std::iter::once(1.0))))?;
                    fine("update_index", guarded("update_index", || v.update_index(&x[..], 1, -1.0)))?;
                    fine("update_index", guarded("update_index", || v.update_index(&x[..], 2, 0.5)))?
                }
            }
            let want = [1.0 + 1.0, 0.0 - 1.0, -1.0 + 0.5, 2.0 + 2.0, 1.0 - 2.0, 0.0 + 1.0];
            expect_vec(&say(MODELS[which]), &v.weights.iter().copied().collect::<Vec<_>>(), &want)?;
            let y: Vec<f64> = guarded("iter", || v.iter(&x[..]).collect())?;
            expect_vec(&say("iteration"), &y, &[20.0, -6.0, 3.0])?
        }
        8 => {
            let bad = mock(2, move |_| build(Kind::Dense, &[1.0, 1.0])).failing(FAIL, 3);
            let mut s = LFA::scalar(bad.stack(basis()), SGD(1.0));
            let r = guarded("update_with", || s.update_with(&[FAIL][..], |_, _| 1.0))?;
            expect_eq(&say("failing update"), r.is_err(), true)?
        }
        _ => {
            for k in [1, 4, 6, 7, 8, 13] {
                inner(k, if sparse { Kind::Sparse } else { Kind::Dense })?;
            }
        }
    }
    Ok(())
}

fn mock_dyn(kind: Kind) -> Dyn {
    en(mock(2, move |x| build(kind, &[x[0], x[0] * x[0]])))
}

/// What a callback does besides its own work, and how that went.
struct Caller {
    which: usize,
    sparse: bool,
    failed: RefCell<Res>,
    calls: Cell<usize>,
}

impl Caller {
    fn choose(ctx: &mut Ctx) -> Rc<Caller> {
        let which = ctx.choose(MODELS.len());
        Rc::new(Caller { which, sparse: ctx.flag(), failed: RefCell::new(Ok(())), calls: Cell::new(0) })
    }

    fn work(&self) {
        self.calls.set(self.calls.get() + 1);
        let r = other(self.which, self.sparse);
        if r.is_err() && self.failed.borrow().is_ok() {
            *self.failed.borrow_mut() = r;
        }
    }

    fn verdict(&self) -> Res {
        self.failed.borrow().clone()
    }
}

/// An optimiser that makes its use before or after stepping.
struct Sociable {
    inner: Opt,
    c: Rc<Caller>,
    on: bool,
}

impl Optimiser<Features> for Sociable {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, s: f64) -> lfa::Result<()> {
        if self.on {
            self.c.work();
        }
        let r = self.inner.step_scaled(w, f, s);
        if self.on {
            self.c.work();
        }
        r
    }
}

const PLACES: [&str; 3] = ["error function", "basis", "optimiser"];

fn sociable_basis(kind: Kind, c: &Rc<Caller>, on: bool) -> Dyn {
    let c = c.clone();
    en(mock(3, move |x| {
        if on {
            c.work();
        }
        build(kind, &row(x[0]))
    }))
}

fn row(x: f64) -> Vec<f64> {
    vec![x, 0.0, 1.0 - 2.0 * x]
}

fn closed(what: &str, r: std::result::Result<lfa::Result<()>, String>) -> Res {
    r?.map_err(|e| format!("{}: {}", what, e))
}

pub fn scalar() -> Vec<Scenario> {
    let mut out = vec![];
    for (place, name) in PLACES.iter().enumerate() {
        for spec in specs() {
            out.push(scenario(format!("scalar, the {} uses others: {:?}", name, spec), move |ctx| {
                let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull]);
                let c = Caller::choose(ctx);
                ctx.log(|| format!("{} within the {}", MODELS[c.which], name));
                let opt = Sociable { inner: spec.build(3), c: c.clone(), on: place == 2 };
                let mut fa = LFA::new(sociable_basis(kind, &c, place == 1), Array1::from(vec![0.5, -1.0, 0.25]), opt);
                let mut o = spec.build(3);
                let mut w = Array1::from(vec![0.5, -1.0, 0.25]);
                for step in 0..3 {
                    let x = [*ctx.pick(&[1.0, -0.5])];
                    let op = ctx.choose(3);
                    let phi = row(x[0]);
                    let y = dot(&phi, &w.to_vec());
                    let e = match op {
                        0 => {
                            let got = guarded("evaluate", || fa.evaluate(&x[..]))?.map_err(|e| e.to_string())?;
                            expect("evaluate", got, y)?;
                            0.0
                        }
                        1 => {
                            closed("update", guarded("update", || fa.update(&x[..], -0.75)))?;
                            -0.75
                        }
                        _ => {
                            let seen = RefCell::new((vec![], 0.0));
                            closed("update_with", guarded("update_with", || fa.update_with(&x[..], |f, y| {
                                if place == 0 {
                                    c.work();
                                }
                                *seen.borrow_mut() = (denote(f).unwrap_or_default(), y);
                                1.5 - y
                            })))?;
                            let seen = seen.into_inner();
                            expect_vec("features given to the error function", &seen.0, &phi)?;
                            expect("value given to the error function", seen.1, y)?;
                            1.5 - y
                        }
                    };
                    if op > 0 {
                        o.step_scaled(&mut w.view_mut(), &build(kind, &phi), e).map_err(|e| e.to_string())?;
                    }
                    c.verdict()?;
                    ctx.step();
                    ctx.state_here(bits(&fa.weights.to_vec()));
                    expect_vec_tol(&format!("weights after {} operations", step + 1), &fa.weights.to_vec(), &w.to_vec(), 1e-8, 1e-10)?;
                }
                if !o.same(&fa.optimiser.inner) {
                    return Err(format!("the optimiser is {} and should be {}", fa.optimiser.inner.0.show(), o.0.show()));
                }
                if c.calls.get() > 0 {
                    ctx.witness("used within a callback");
                }
                Ok(())
            }));
        }
    }
    out
}

pub fn vector() -> Vec<Scenario> {
    let mut out = vec![];
    for (place, name) in PLACES.iter().chain(&["error sequence"]).enumerate() {
        for spec in [Spec::Sgd(0.5), Spec::Isgd(2.0)] {
            out.push(scenario(format!("vector, the {} uses others: {:?}", name, spec), move |ctx| {
                let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
                let k = *ctx.pick(&[1usize, 2, 3, 5]);
                let c = Caller::choose(ctx);
                ctx.log(|| format!("{} within the {}, {} outputs", MODELS[c.which], name, k));
                let opt = Sociable { inner: spec.build(3), c: c.clone(), on: place == 2 };
                let m = Array2::from_shape_fn((3, k), |(i, j)| 0.5 * i as f64 - j as f64);
                let mut cols: Vec<Array1<f64>> = m.columns().into_iter().map(|c| c.to_owned()).collect();
                let mut fa = LFA::new(sociable_basis(kind, &c, place == 1), m, opt);
                let mut o = spec.build(3);
                for _ in 0..2 {
                    let x = [*ctx.pick(&[1.0, -0.5])];
                    let op = ctx.choose(4);
                    let phi = row(x[0]);
                    let ys: Vec<f64> = cols.iter().map(|w| dot(&phi, &w.to_vec())).collect();
                    let es: Vec<(usize, f64)> = match op {
                        0 => {
                            // more errors than there are outputs
                            let es = (0..if place == 0 { 70_001 } else { 2 * k + 3 }).map(|j| {
                                if place == 3 {
                                    c.work();
                                }
                                1.0 - 0.5 * j as f64
                            });
                            closed("update with more errors than outputs", guarded("update", || fa.update(&x[..], es)))?;
                            (0..k).map(|j| (j, 1.0 - 0.5 * j as f64)).collect()
                        }
                        1 => {
                            let es = (0..k - 1).map(|j| {
                                if place == 3 {
                                    c.work();
                                }
                                j as f64 + 0.25
                            });
                            closed("update", guarded("update", || fa.update(&x[..], es)))?;
                            (0..k - 1).map(|j| (j, j as f64 + 0.25)).collect()
                        }
                        2 => {
                            closed("update_index", guarded("update_index", || fa.update_index(&x[..], k - 1, -2.0)))?;
                            vec![(k - 1, -2.0)]
                        }
                        _ => {
                            let seen = RefCell::new((vec![], vec![]));
                            closed("update_with", guarded("update_with", || fa.update_with(&x[..], |f, y| {
                                if place == 0 {
                                    c.work();
                                }
                                *seen.borrow_mut() = (denote(f).unwrap_or_default(), y.to_vec());
                                y.mapv(|y| 1.0 - y)
                            })))?;
                            let seen = seen.into_inner();
                            expect_vec("features given to the error function", &seen.0, &phi)?;
                            expect_vec("values given to the error function", &seen.1, &ys)?;
                            ys.iter().map(|y| 1.0 - y).enumerate().collect()
                        }
                    };
                    for (j, e) in es {
                        o.step_scaled(&mut cols[j].view_mut(), &build(kind, &phi), e).map_err(|e| e.to_string())?;
                    }
                    c.verdict()?;
                    ctx.step();
                    ctx.state_here(fa.weights.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
                    for (j, w) in cols.iter().enumerate() {
                        expect_vec_tol(&format!("weights of output {}", j), &fa.weights.column(j).to_vec(), &w.to_vec(), 1e-8, 1e-10)?;
                    }
                    // iterating, with others at work between the items
                    let ys: Vec<f64> = cols.iter().map(|w| dot(&phi, &w.to_vec())).collect();
                    let mut it = guarded("iter", || fa.iter(&x[..]))?;
                    for (j, y) in ys.iter().enumerate() {
                        other(c.which, c.sparse)?;
                        let got = guarded("next", || it.next())?.ok_or("too few outputs")?;
                        expect(&format!("item {}", j), got, *y)?;
                    }
                    expect_eq("after the last output", it.next(), None)?;
                    let y = guarded("evaluate", || fa.evaluate(&x[..]))?.map_err(|e| e.to_string())?;
                    expect_vec("evaluate", &y.to_vec(), &ys)?;
                }
                if c.calls.get() > 0 {
                    ctx.witness("used within a callback");
                }
                Ok(())
            }));
        }
    }
    out
}

/// Bases built from the user's functions that use other bases and
/// approximators to answer, at every place of a composition.
pub fn bases() -> Scenario {
    scenario("projections that use other approximators", |ctx| {
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull]);
        let c = Caller::choose(ctx);
        let shape = ctx.choose(6);
        ctx.log(|| format!("{} within composition {}", MODELS[c.which], shape));
        let g = sociable_basis(kind, &c, true);
        let h = sociable_basis(Kind::Sparse, &c, false);
        let c2 = c.clone();
        let b: Dyn = match shape {
            0 => g,
            1 => en(g.stack(h)),
            2 => en(h.stack(g)),
            3 => en(g.normalise_linf()),
            4 => en(Stack::new(h, g).with_bias()),
            _ => plain(Closure::new(3, move |x: &[f64]| -> lfa::Result<Features> {
                c2.work();
                Ok(build(kind, &row(x[0])))
            })),
        };
        for x in [1.0, -0.5, 1.0] {
            let v = row(x);
            let top = v.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            let twice: Vec<f64> = v.iter().chain(&v).copied().collect();
            let want: Vec<f64> = match shape {
                1 | 2 => twice,
                3 => v.iter().map(|x| x / top).collect(),
                4 => twice.into_iter().chain(Some(1.0)).collect(),
                _ => v.clone(),
            };
            let f = guarded("project", || b.0.project(&[x]))?.map_err(|e| e.to_string())?;
            c.verdict()?;
            ctx.step();
            ctx.state((kind, c.which, c.sparse, shape, x.to_bits()));
            same_features("project", &f, &want)?;
            if shape < 5 {
                for (i, w) in want.iter().enumerate() {
                    let y = guarded("ith", || b.0.ith(&[x], i))?.unwrap().map_err(|e| e.to_string())?;
                    c.verdict()?;
                    expect("single feature", y, *w)?;
                }
            }
        }
        Ok(())
    })
}
