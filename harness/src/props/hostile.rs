//! The user's parts of a basis - hashers, kernels, iterators, inputs - are
//! code: they may use the library themselves, and they may panic. Every call
//! of theirs is tried as the place where either happens.
use crate::engine::*;
use super::lawful::dims;
use crate::util::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::{Features, Result};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Job = Rc<dyn Fn()>;

thread_local! {
    static CALLS: Cell<usize> = Cell::new(0);
    /// The call at which something happens (0: every call), and what.
    static PLAN: RefCell<Option<(usize, Option<Job>)>> = RefCell::new(None);
}

/// The user's code is called.
fn event() {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let job = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        match &*p {
            Some((at, job)) if *at == n || *at == 0 => {
                let job = job.clone();
                if job.is_none() {
                    *p = None;
                }
                Some(job)
            }
            _ => None,
        }
    });
    match job {
        None => {}
        Some(None) => panic!("user code: refused"),
        Some(Some(job)) => {
            // the job is not interrupted itself
            let saved = PLAN.with(|p| p.borrow_mut().take());
            job();
            PLAN.with(|p| *p.borrow_mut() = saved);
        }
    }
}

/// Run with a plan; the number of calls made of the user's code.
fn with_plan<T>(plan: Option<(usize, Option<Job>)>, f: impl FnOnce() -> T) -> (std::result::Result<T, String>, usize) {
    CALLS.with(|c| c.set(0));
    PLAN.with(|p| *p.borrow_mut() = plan);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic());
    PLAN.with(|p| *p.borrow_mut() = None);
    (r, CALLS.with(|c| c.get()))
}

// ------------------------------------------------------------ user's parts

struct It<I>(I);

impl<I: Clone> Clone for It<I> {
    fn clone(&self) -> Self {
        event();
        It(self.0.clone())
    }
}

impl<I: Iterator> Iterator for It<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        event();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

/// A collection whose `into_iter` is the user's.
#[derive(Clone)]
struct Bag<'a>(&'a [f64]);

impl<'a> IntoIterator for Bag<'a> {
    type Item = &'a f64;
    type IntoIter = It<std::slice::Iter<'a, f64>>;
    fn into_iter(self) -> Self::IntoIter {
        event();
        It(self.0.iter())
    }
}

/// A number lent by the user's code.
struct Lent(f64);

impl Borrow<f64> for Lent {
    fn borrow(&self) -> &f64 {
        event();
        &self.0
    }
}

/// A point lent by the user's code.
struct Point(Vec<f64>);

impl Borrow<[f64]> for Point {
    fn borrow(&self) -> &[f64] {
        event();
        &self.0
    }
}

impl Clone for Point {
    fn clone(&self) -> Point {
        event();
        Point(self.0.clone())
    }
}

struct Hash(DefaultHasher);

impl Hasher for Hash {
    fn write(&mut self, bytes: &[u8]) {
        event();
        self.0.write(bytes)
    }
    fn finish(&self) -> u64 {
        event();
        self.0.finish()
    }
}

#[derive(Clone)]
struct Build;

impl BuildHasher for Build {
    type Hasher = Hash;
    fn build_hasher(&self) -> Hash {
        event();
        Hash(DefaultHasher::new())
    }
}

struct Similar(ExpQuad);

impl Clone for Similar {
    fn clone(&self) -> Similar {
        event();
        Similar(self.0.clone())
    }
}

impl<'a> Kernel<&'a [f64]> for Similar {
    fn kernel(&self, x: &'a [f64], y: &'a [f64]) -> f64 {
        event();
        self.0.kernel(x, y)
    }
}

// ------------------------------------------------------------------- kinds

type Call = Box<dyn Fn(&[f64], Option<usize>) -> Result<Features>>;

/// A basis of two variables made or fed by the user's code. `call` projects,
/// or evaluates a single feature.
struct Kind {
    name: &'static str,
    ids: &'static [&'static str],
    make: fn() -> Call,
}

fn one(x: Result<f64>) -> Result<Features> {
    x.map(|x| vec![x].into())
}

macro_rules! call {
    ($b:expr, $x:ident => $input:expr) => {{
        let b = $b;
        Box::new(move |$x: &[f64], i: Option<usize>| match i {
            None => b.project($input),
            Some(i) => one(b.ith($input, i)),
        }) as Call
    }};
}

const LIMITS: [(f64, f64); 2] = [(-1.0, 1.0), (0.0, 3.0)];

fn lent(x: &[f64]) -> impl Iterator<Item = Lent> + Clone + '_ {
    It(x.iter()).map(|x| Lent(*x))
}

fn centroids() -> Vec<Vec<f64>> {
    vec![vec![0.0, 0.0], vec![0.5, 1.0], vec![-0.5, 2.0]]
}

fn kinds() -> Vec<Kind> {
    let k = |name, ids, make| Kind { name, ids, make };
    vec![
        k("Polynomial, iterator", &["C11"], || call!(Polynomial::new(2, 2).with_zeroth(), x => Bag(x))),
        k("Polynomial, lent numbers", &["C11"], || call!(Polynomial::new(2, 2), x => lent(x))),
        k("Chebyshev, iterator", &["C12"], || call!(Chebyshev::new(2, LIMITS.to_vec()).with_zeroth(), x => Bag(x))),
        k("Chebyshev, lent numbers", &["C12"], || call!(Chebyshev::new(2, LIMITS.to_vec()), x => lent(x))),
        k("Fourier, iterator", &["C13"], || call!(Fourier::new(2, LIMITS.to_vec()), x => Bag(x))),
        k("Fourier, lent numbers", &["C13"], || call!(Fourier::new(2, LIMITS.to_vec()), x => lent(x))),
        k("UniformGrid, iterator", &["C14"], || call!(UniformGrid::new(crate::basis_util::equi(&[4, 3])), x => Bag(x))),
        k("TileCoding, iterator", &["C15"], || {
            call!(TileCoding::new(std::hash::BuildHasherDefault::<DefaultHasher>::default(), 3, 50), x => Bag(x))
        }),
        k("TileCoding, hasher", &["C15"], || call!(TileCoding::new(Build, 3, 50), x => x)),
        k("KernelBasis, kernel", &["C17"], || {
            call!(KernelBasis::homogeneous(centroids(), Similar(ExpQuad::new(1.5, vec![0.5, 2.0]))), x => x)
        }),
        k("KernelBasis, lent point", &["C17"], || {
            call!(KernelBasis::homogeneous(centroids(), Matern32::new(1.5, vec![0.5, 2.0])), x => Point(x.to_vec()))
        }),
        k("KernelBasis, centroids", &["C17"], || {
            Box::new(|x, i| {
                let b = KernelBasis::homogeneous(It(centroids().into_iter()), Similar(ExpQuad::new(1.0, vec![1.0])));
                match i {
                    None => b.project(x),
                    Some(i) => one(b.ith(x, i)),
                }
            })
        }),
        k("Fixed::dense", &["C19"], || {
            Box::new(|x, i| {
                let b = Fixed::dense(It([0.5, -1.0, 0.0].into_iter()));
                match i {
                    None => b.project(x),
                    Some(i) => one(b.ith(x, i)),
                }
            })
        }),
        k("Fixed::sparse", &["C19"], || {
            Box::new(|x, i| {
                let b = Fixed::sparse(5, It([4, 0, 2].into_iter()));
                match i {
                    None => b.project(x),
                    Some(i) => one(b.ith(x, i)),
                }
            })
        }),
        k("Stack, lent point", &["C19"], || {
            let k = |v| KernelBasis::homogeneous(centroids(), ExpQuad::new(v, vec![1.0]));
            call!(k(1.0).stack(k(2.0)).with_bias(), x => Point(x.to_vec()))
        }),
        k("Stack, hasher and iterator", &["C19"], || {
            call!(TileCoding::new(Build, 2, 40).stack(Polynomial::new(2, 1)), x => Bag(x))
        }),
        k("L1 of Stack", &["C18"], || {
            call!(Polynomial::new(2, 1).stack(TileCoding::new(Build, 2, 40)).normalise_l1(), x => Bag(x))
        }),
        k("L2 of KernelBasis", &["C18"], || {
            call!(KernelBasis::homogeneous(centroids(), Similar(ExpQuad::new(1.0, vec![1.0]))).normalise_l2(), x => x)
        }),
        k("Linf of Fourier", &["C18"], || call!(Fourier::new(1, LIMITS.to_vec()).normalise_linf(), x => Bag(x))),
        k("L0 of TileCoding", &["C18"], || call!(TileCoding::new(Build, 3, 40).normalise_l0(), x => x)),
        // vectors made of the user's iterators
        k("Features::dense", &["C06"], || Box::new(|x, _| Ok(Features::dense(It(x.iter().copied()))))),
        k("Features from an iterator", &["C06"], || Box::new(|x, _| Ok(It(x.iter().copied()).collect()))),
        k("Features::sparse", &["C06"], || Box::new(|x, _| Ok(Features::sparse(4, It(x.iter().copied().enumerate()))))),
        k("Features::unitary", &["C06"], || {
            Box::new(|x, _| Ok(Features::unitary(9, It([1usize, 4, (4.0 + 2.0 * x[0]) as usize].into_iter()))))
        }),
    ]
}

const POINTS: [[f64; 2]; 3] = [[0.25, 0.7], [-0.6, 2.0], [0.9, 1.45]];

fn ask(what: &str, c: &Call, x: &[f64], i: Option<usize>) -> std::result::Result<Vec<f64>, String> {
    denote(&guarded(what, || c(x, i))?.map_err(|e| format!("{}: {}", what, e))?)
}

type Answers = Vec<Vec<std::result::Result<Vec<f64>, String>>>;

/// What kind `k` answers for point `p`, nothing having been interrupted.
fn own_answers() -> Answers {
    kinds().iter().map(|k| { let c = (k.make)(); POINTS.iter().map(|x| ask(k.name, &c, x, None)).collect() }).collect()
}

fn check_all(what: &str, ks: &[Kind], answers: &Answers, p: usize) -> Res {
    for (k, a) in ks.iter().zip(answers) {
        let w = format!("{}: {} at {:?}", what, k.name, POINTS[p]);
        expect_vec(&w, &ask(&w, &(k.make)(), &POINTS[p], None)?, a[p].as_ref().map_err(|e| e.clone())?)?;
    }
    Ok(())
}

pub fn parts(id: &'static str) -> Vec<Scenario> {
    let mut out = vec![];
    let answers = std::sync::Arc::new(own_answers());
    for which in 0..kinds().len() {
        let k = kinds().swap_remove(which);
        if id != "C09" && !k.ids.contains(&id) || id == "C09" && k.ids.contains(&"C06") {
            continue;
        }
        let own = answers.clone();
        out.push(scenario(format!("user's parts panic: {}", k.name), move |ctx| {
            let ks = kinds();
            let k = &ks[which];
            let c = (k.make)();
            let n = own[which][0].clone()?.len();
            let mut trace = vec![];
            for round in 0..(if ctx.thorough { 3 } else { 2 }) {
                let p = ctx.choose(2);
                let i = match ctx.choose(3) {
                    0 => None,
                    1 => Some(0),
                    _ => Some(n - 1),
                };
                let (r, calls) = with_plan(None, || c(&POINTS[p], i));
                let r = denote(&r.map_err(|m| format!("{} panicked: {}", k.name, m))?.map_err(|e| e.to_string())?)?;
                let want = own[which][p].clone()?;
                let all = k.ids.contains(&"C06") || i.is_none();
                expect_vec("answer", &r, if all { &want } else { &want[i.unwrap()..=i.unwrap()] })?;
                if calls == 0 {
                    ctx.step();
                    continue;
                }
                let at = 1 + ctx.choose(calls);
                trace.push((p, i, at, calls));
                let (r, _) = with_plan(Some((at, None)), || c(&POINTS[p], i));
                match r {
                    Err(m) if m.contains("user code: refused") => {}
                    Err(m) => return Err(format!("{}: {}", k.name, m)),
                    Ok(_) => return Err(format!("{}: a panic at call {} of {} of the user's code was lost", k.name, at, calls)),
                }
                // the next questions, to the same value first
                let q = if round == 0 { 2 } else { ctx.choose(3) };
                let what = format!("{} after a panic", k.name);
                expect_vec(&what, &ask(&what, &c, &POINTS[q], None)?, own[which][q].as_ref().map_err(|e| e.clone())?)?;
                check_all("after a panic", &ks, &own, q)?;
                ctx.steps(3);
            }
            ctx.log(|| format!("{}: {:?}", k.name, trace));
            ctx.state((which, trace));
            Ok(())
        }));
        let own = answers.clone();
        out.push(scenario(format!("user's parts use the library: {}", k.name), move |ctx| {
            let ks = kinds();
            let k = &ks[which];
            let c = (k.make)();
            let n = own[which][0].clone()?.len();
            let p = ctx.choose(2);
            let i = match ctx.choose(3) {
                0 => None,
                1 => Some(0),
                _ => Some(n - 1),
            };
            let (r, calls) = with_plan(None, || c(&POINTS[p], i));
            let r = denote(&r.map_err(|m| format!("{} panicked: {}", k.name, m))?.map_err(|e| e.to_string())?)?;
            let inner = ctx.choose(ks.len() + 1);
            let at = ctx.choose(calls + 1);
            let q = 2 - ctx.choose(2);
            ctx.log(|| format!("{} (point {}, feature {:?}): at call {} of {}, uses kind {}", k.name, p, i, at, calls, inner));
            let wrong: Rc<RefCell<Option<String>>> = Default::default();
            let (w, o) = (wrong.clone(), own.clone());
            let job: Job = Rc::new(move || {
                let ks = kinds();
                let r = if inner < ks.len() {
                    let a = (|| {
                        let got = ask(ks[inner].name, &(ks[inner].make)(), &POINTS[q], None)?;
                        expect_vec(ks[inner].name, &got, &o[inner][q].clone()?)
                    })();
                    a
                } else {
                    vectors()
                };
                if let Err(m) = r {
                    w.borrow_mut().get_or_insert(m);
                }
            });
            let (r2, calls2) = with_plan(Some((at, Some(job))), || c(&POINTS[p], i));
            let r2 = denote(&r2.map_err(|m| format!("{} panicked: {}", k.name, m))?.map_err(|e| e.to_string())?)?;
            if let Some(m) = wrong.borrow_mut().take() {
                return Err(format!("within {}: {}", k.name, m));
            }
            if calls2 < calls {
                return Err(format!("{}: {} calls of the user's code became {}", k.name, calls, calls2));
            }
            expect_vec(&format!("{}, whose parts use the library", k.name), &r2, &r)?;
            check_all("afterwards", &ks, &own, p)?;
            ctx.steps(3);
            ctx.state((which, p, i, inner, at, q));
            Ok(())
        }));
    }
    out
}

/// Vector arithmetic and a step, as user code may do it anywhere.
fn vectors() -> Res {
    let f = Features::sparse(4, vec![(1, 2.0), (3, -1.0)]);
    let g = Features::dense(vec![1.0, 0.5, 0.0, 4.0]);
    expect_vec("inner map", &denote(&f.clone().map_into(|x| 2.0 * x))?, &[0.0, 4.0, 0.0, -2.0])?;
    expect_vec("inner merge", &denote(&f.merge(&g, |x, y| x + y))?, &[1.0, 2.5, 0.0, 3.0])?;
    expect_vec("inner stack", &denote(&f.clone().stack(f.clone()))?, &[0.0, 2.0, 0.0, -1.0, 0.0, 2.0, 0.0, -1.0])?;
    expect("inner product", ndarray::linalg::Dot::dot(&f, &g), -3.0)?;
    let mut fa = lfa::LFA::scalar(Polynomial::new(1, 2), lfa::optim::SGD(0.5));
    fa.update(&[0.5], 2.0).map_err(|e| e.to_string())?;
    expect("inner evaluation", fa.evaluate(&[0.5]).map_err(|e| e.to_string())?, 0.3125)
}

// ------------------------------------------------------------- edited parts

/// Bases whose public list of features the caller rewrites.
pub fn edited_features(id: &'static str) -> Scenario {
    scenario("features rewritten by the caller", move |ctx| {
        let d = 1 + ctx.choose(2);
        let order = 1 + ctx.choose(2) as u8;
        let n0 = super::bases::degree_vectors(d, order as usize).len();
        // the features, and what is done to the list
        let odd: &[f64] = if id == "C13" { &[0.5, -1.0, 3.0, 7.25, 300.0] } else { &[0.0, 3.0, 4.0, 9.0, 11.0] };
        let how = ctx.choose(5);
        let v = *ctx.pick(odd);
        let k = ctx.choose(n0.min(4));
        let j = ctx.choose(d);
        let x: Vec<f64> = ctx.pick_vec(d, &[0.2, 0.7]);
        macro_rules! edit {
            ($list:expr, $row:expr, $val:expr) => {{
                let list = &mut $list;
                match how {
                    0 => list[k][j] = $val,
                    1 => list.push($row),
                    2 => list.insert(k, $row),
                    3 => {
                        list.remove(k);
                    }
                    _ => list.swap(0, k),
                }
            }};
        }
        let mut model: Vec<Vec<f64>> = super::bases::degree_vectors(d, order as usize).iter().map(|v| v.iter().map(|k| *k as f64).collect()).collect();
        edit!(model, vec![v; d], v);
        ctx.log(|| format!("order {} edit {} value {} at {},{}: {:?} at {:?}", order, how, v, k, j, model, x));
        let lim: Vec<(f64, f64)> = LIMITS[..d].to_vec();
        let at: Vec<f64> = x.iter().zip(&lim).map(|(f, l)| if id == "C11" { *f } else { l.0 + f * (l.1 - l.0) }).collect();
        let cheb = |k: f64, f: f64| (k * (2.0 * f - 1.0f64).acos()).cos();
        let want: Vec<f64> = model
            .iter()
            .map(|c| match id {
                "C11" => c.iter().zip(&x).map(|(k, x)| x.powi(*k as i32)).product(),
                "C12" => c.iter().zip(&x).map(|(k, f)| cheb(*k, *f)).product(),
                _ => (std::f64::consts::PI * c.iter().zip(&x).map(|(k, f)| k * f).sum::<f64>()).cos(),
            })
            .collect();
        let used = ctx.flag();
        macro_rules! check {
            ($b:expr) => {{
                let b = $b;
                expect_eq("size", dims(&b), want.len())?;
                expect_eq("n_features", Basis::<&[f64]>::n_features(&b), want.len())?;
                for b in [&b, &b.clone()] {
                    let f = guarded("project", || b.project(&at[..]))?.map_err(|e| e.to_string())?;
                    expect_vec_tol("projection", &denote(&f)?, &want, 1e-8, 1e-8)?;
                    for i in 0..want.len() {
                        let v = guarded("ith", || b.ith(&at[..], i))?.map_err(|e| e.to_string())?;
                        expect_vec_tol("single feature", &[v], &[want[i]], 1e-8, 1e-8)?;
                    }
                    if guarded("ith", || b.ith(&at[..], want.len()))?.is_ok() {
                        return Err("a feature beyond the last".into());
                    }
                }
            }};
        }
        match id {
            "C11" => {
                let mut b = Polynomial::new(d, order);
                if used {
                    b.project(&at[..]).map_err(|e| e.to_string())?;
                }
                edit!(b.exponents, vec![v as u8; d], v as u8);
                check!(b)
            }
            "C12" => {
                fn of(k: f64) -> fn(f64) -> f64 {
                    match k as u8 {
                        0 => |_| 1.0,
                        3 => |x| 4.0 * x.powi(3) - 3.0 * x,
                        4 => |x| (4.0 * x.acos()).cos(),
                        9 => |x| (9.0 * x.acos()).cos(),
                        _ => |x| (11.0 * x.acos()).cos(),
                    }
                }
                let mut b = Chebyshev::new(order, lim);
                if used {
                    b.project(&at[..]).map_err(|e| e.to_string())?;
                }
                edit!(b.polynomials, vec![of(v); d], of(v));
                check!(b)
            }
            _ => {
                let mut b = Fourier::new(order, lim);
                if used {
                    b.project(&at[..]).map_err(|e| e.to_string())?;
                }
                edit!(b.coefficients, vec![v; d], v);
                check!(b)
            }
        }
        ctx.steps(2 * want.len() + 2);
        ctx.state((d, order, how, v.to_bits(), k, j, bits(&x), used));
        Ok(())
    })
}
