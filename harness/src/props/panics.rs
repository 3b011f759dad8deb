//! C31: panics in the user's parts of an approximator.
use crate::basis_util::*;
use crate::engine::*;
use crate::optim_util::*;
use crate::util::*;
use lfa::basis::*;
use lfa::optim::Optimiser;
use lfa::{Features, Result, LFA};
use ndarray::{Array1, Array2, ArrayViewMut1};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// What a call did: it panicked with the user's own panic, or it returned.
fn attempt<T>(what: &str, armed: bool, f: impl FnOnce() -> Result<T>) -> std::result::Result<Option<T>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(e)) => Err(format!("{} failed: {}", what, e)),
        Err(_) if armed && last_panic().contains("user code") => Ok(None),
        Err(_) => Err(format!("{} panicked: {}", what, last_panic())),
    }
}

/// Bases whose projection panics while the switch is on, at every place of a
/// composition.
fn fragile(which: usize, kind: Kind, n: usize, on: Rc<Cell<bool>>) -> Dyn {
    let row = move |x: &[f64]| (0..n).map(|i| x[0] + [0.5, -1.0, 0.0, 2.0][i % 4]).collect::<Vec<f64>>();
    let good = mock(n, move |x| build(kind, &row(x)));
    let bad = mock(n, move |x| {
        if on.get() {
            panic!("user code: basis");
        }
        build(kind, &row(x))
    });
    match which {
        0 => en(bad),
        1 => en(good.stack(bad)),
        2 => en(bad.stack(good)),
        3 => en(bad.normalise_l2().with_bias()),
        4 => en(good.stack(bad.normalise_l1())),
        _ => {
            let g = bad.f;
            plain(Closure::new(n, move |x: &[f64]| -> Result<Features> { Ok(g(x)) }))
        }
    }
}
const FRAGILE: usize = 6;

/// An optimiser that panics at chosen steps, before touching anything.
#[derive(Clone)]
struct Bomb {
    inner: Opt,
    left: Rc<Cell<usize>>,
}

impl Optimiser<Features> for Bomb {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, s: f64) -> Result<()> {
        match self.left.get() {
            0 => panic!("user code: optimiser"),
            k => self.left.set(k - 1),
        }
        self.inner.step_scaled(w, f, s)
    }
}

/// A sequence of errors that cannot be iterated over.
struct NoErrors;

impl IntoIterator for NoErrors {
    type Item = f64;
    type IntoIter = std::iter::Empty<f64>;
    fn into_iter(self) -> Self::IntoIter {
        panic!("user code: error sequence")
    }
}

/// The approximator still is what it was.
fn unmoved(what: &str, o: (&Opt, &Opt), w: (&[u64], &[u64])) -> Res {
    if w.0 != w.1 {
        return Err(format!(
            "{}: the weights were {:?} before the panic and are {:?} after it",
            what,
            w.0.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(),
            w.1.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
        ));
    }
    if !o.0.same(o.1) {
        return Err(format!("{}: the optimiser was {} before the panic and is {} after it", what, o.0 .0.show(), o.1 .0.show()));
    }
    Ok(())
}

fn wbits(w: &Array2<f64>) -> Vec<u64> {
    w.iter().map(|x| x.to_bits()).collect()
}

pub fn c31(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for spec in specs() {
        for n in [2usize, 40] {
            let depth = if n > 2 { 3 } else if t { 6 } else { 4 };
            out.push(scenario(format!("scalar, {} features: {:?}", n, spec), move |ctx| {
                let which = ctx.choose(FRAGILE);
                let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
                let on = Rc::new(Cell::new(false));
                let b = fragile(which, kind, n, on.clone());
                let m = b.0.n_features();
                let mut fa = LFA::scalar(b, spec.build(m));
                let mut twin = LFA::scalar(fragile(which, kind, n, Rc::new(Cell::new(false))), spec.build(m));
                let mut h = vec![];
                for k in 0..depth + 1 {
                    // operations without and with a panic; the last one without
                    let op = if k == depth { 1 } else { ctx.choose(7) };
                    let x = [[0.25, -1.5][k % 2]];
                    h.push(op);
                    ctx.step();
                    ctx.log(|| format!("operation {} at {:?}", op, x));
                    let before = (fa.optimiser.clone(), bits(&fa.weights.to_vec()));
                    on.set(matches!(op, 3 | 4 | 5));
                    let armed = op >= 3;
                    let seen = Cell::new(0);
                    let done = match op {
                        0 | 3 => attempt("evaluate", armed, || fa.evaluate(&x[..]))?.is_some(),
                        1 | 4 => attempt("update", armed, || fa.update(&x[..], -0.5))?.is_some(),
                        _ => attempt("update_with", armed, || {
                            fa.update_with(&x[..], |_, y| {
                                seen.set(seen.get() + 1);
                                if op == 6 {
                                    panic!("user code: error function");
                                }
                                1.0 - y
                            })
                        })?
                        .is_some(),
                    };
                    on.set(false);
                    if armed == done {
                        return Err(format!("{:?}: operation {} of {:?} did not pass the panic on", spec, op, h));
                    }
                    if armed {
                        ctx.witness("panic");
                        let what = format!("{:?}, operations {:?}", spec, h);
                        unmoved(&what, (&before.0, &fa.optimiser), (&before.1, &bits(&fa.weights.to_vec())))?;
                    } else {
                        match op {
                            0 => drop(attempt("evaluate", false, || twin.evaluate(&x[..]))?),
                            1 => drop(attempt("update", false, || twin.update(&x[..], -0.5))?),
                            _ => drop(attempt("update_with", false, || twin.update_with(&x[..], |_, y| 1.0 - y))?),
                        }
                    }
                    expect_eq("calls of the error function", seen.get(), (op == 2 || op == 6) as usize)?;
                    let (a, b) = (attempt("evaluate", false, || fa.evaluate(&x[..]))?, attempt("evaluate", false, || twin.evaluate(&x[..]))?);
                    expect(&format!("{:?}: value after operations {:?}, against the history without panics", spec, h), a.unwrap(), b.unwrap())?;
                    ctx.state_here((which, kind, bits(&fa.weights.to_vec())));
                }
                expect_vec(&format!("weights after {:?}, against the history without panics", h), &fa.weights.to_vec(), &twin.weights.to_vec())?;
                let c = fa.clone();
                drop(fa);
                expect_vec("weights of a clone", &c.weights.to_vec(), &twin.weights.to_vec())
            }));
        }
        let depth = if t { 4 } else { 3 };
        out.push(scenario(format!("vector: {:?}", spec), move |ctx| {
            let which = ctx.choose(FRAGILE);
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
            let k = *ctx.pick(&[1usize, 3]);
            let on = Rc::new(Cell::new(false));
            let b = fragile(which, kind, 2, on.clone());
            let m = b.0.n_features();
            let mut fa = LFA::vector(b, spec.build(m), k);
            let mut twin = LFA::vector(fragile(which, kind, 2, Rc::new(Cell::new(false))), spec.build(m), k);
            let es: Vec<f64> = (0..k).map(|j| 1.0 - 0.75 * j as f64).collect();
            let mut h = vec![];
            for step in 0..depth + 2 {
                // a plain update first and last
                let op = if step == 0 || step == depth + 1 { 3 } else { ctx.choose(14) };
                let x = [[0.25, -1.5][step % 2]];
                h.push(op);
                ctx.step();
                ctx.log(|| format!("operation {} at {:?}", op, x));
                let before = (fa.optimiser.clone(), wbits(&fa.weights));
                // 7..13: the basis panics; 13: the error function
                let (o, armed) = if op == 13 { (4, true) } else { (op % 7, op >= 7) };
                on.set(armed && op != 13);
                fn run(m: &mut LFA<Dyn, Array2<f64>, Opt>, o: usize, x: &[f64], es: &[f64], k: usize, armed: bool, bomb: bool) -> std::result::Result<bool, String> {
                    Ok(match o {
                        0 => attempt("evaluate", armed, || m.evaluate(x))?.is_some(),
                        1 => attempt("evaluate_index", armed, || m.evaluate_index(x, k - 1))?.is_some(),
                        2 => attempt("try_iter", armed, || m.try_iter(x).map(|i| i.count()))?.is_some(),
                        3 => attempt("update", armed, || m.update(x, es.to_vec()))?.is_some(),
                        4 => attempt("update_with", armed, || {
                            m.update_with(x, |_, v| {
                                if bomb {
                                    panic!("user code: error function");
                                }
                                1.0 - v
                            })
                        })?
                        .is_some(),
                        5 => attempt("update_index", armed, || m.update_index(x, k - 1, 2.0))?.is_some(),
                        _ => attempt("iter", armed, || Ok(m.iter(x).count()))?.is_some(),
                    })
                }
                let done = run(&mut fa, o, &x, &es, k, armed, op == 13)?;
                on.set(false);
                if armed == done {
                    return Err(format!("{:?}: operation {} of {:?} did not pass the panic on", spec, op, h));
                }
                if armed {
                    ctx.witness("panic");
                    let what = format!("{:?}, operations {:?}", spec, h);
                    expect_eq("shape of the weights", fa.weights.dim(), (m, k))?;
                    unmoved(&what, (&before.0, &fa.optimiser), (&before.1, &wbits(&fa.weights)))?;
                } else {
                    run(&mut twin, o, &x, &es, k, false, false)?;
                }
                let a = attempt("evaluate", false, || fa.evaluate(&x[..]))?.unwrap();
                let b = attempt("evaluate", false, || twin.evaluate(&x[..]))?.unwrap();
                expect_vec(&format!("{:?}: values after operations {:?}, against the history without panics", spec, h), &a.to_vec(), &b.to_vec())?;
                ctx.state_here((which, kind, wbits(&fa.weights)));
            }
            Ok(())
        }));
        // The j-th error, or the j-th optimiser step, panics.
        out.push(scenario(format!("vector, part way: {:?}", spec), move |ctx| {
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull]);
            let k = *ctx.pick(if ctx.thorough { &[1usize, 2, 3, 5, 9, 17, 64][..] } else { &[1usize, 2, 4, 9, 17][..] });
            let by = ctx.choose(5);
            let j = ctx.choose(if by >= 3 { 1 } else { k });
            let warm = ctx.choose(3);
            let n = *ctx.pick(&[1usize, 3, 20]);
            let left = Rc::new(Cell::new(usize::MAX));
            let make = || mock(n, move |x| build(kind, &(0..n).map(|i| x[0] + i as f64).collect::<Vec<f64>>()));
            let layout = ctx.flag();
            let mut fa = LFA::vector(make(), Bomb { inner: spec.build(n), left: left.clone() }, k);
            if layout {
                fa.weights = fa.weights.t().to_owned().reversed_axes();
            }
            let x = [0.5];
            for _ in 0..warm {
                attempt("update", false, || fa.update(&x[..], (0..k).map(|j| j as f64 - 0.5)))?;
            }
            let before = fa.weights.clone();
            let optimiser = fa.optimiser.inner.clone();
            if matches!(by, 1 | 2 | 3) {
                left.set(j);
            }
            ctx.step();
            let done = match by {
                0 => attempt("update", true, || {
                    fa.update(&x[..], (0..k).map(|i| if i == j { panic!("user code: errors") } else { 1.0 }))
                })?,
                1 => attempt("update", true, || fa.update(&x[..], vec![1.0; k]))?,
                2 => attempt("update_with", true, || fa.update_with(&x[..], |_, v| v + 1.0))?,
                3 => attempt("update_index", true, || fa.update_index(&x[..], k - 1, 1.0))?,
                // not even the first error can be had
                _ => attempt("update", true, || fa.update(&x[..], NoErrors))?,
            };
            left.set(usize::MAX);
            let what = format!("{:?}, {} outputs, panic {} at {} after {} updates", spec, k, by, j, warm);
            ctx.log(|| what.clone());
            if done.is_some() {
                return Err(format!("{}: not passed on", what));
            }
            ctx.witness("panic");
            expect_eq(&format!("{}: shape of the weights", what), fa.weights.dim(), (n, k))?;
            for c in 0..k {
                let (was, is) = (before.column(c).to_vec(), fa.weights.column(c).to_vec());
                let still = if by >= 3 { true } else { c >= j };
                if still && bits(&was) != bits(&is) {
                    return Err(format!("{}: output {} was {:?} and is {:?}", what, c, was, is));
                }
                if is.iter().any(|w| !w.is_finite()) {
                    return Err(format!("{}: output {} has become {:?}", what, c, is));
                }
            }
            if by == 4 && !fa.optimiser.inner.same(&optimiser) {
                return Err(format!("{}: the optimiser was {} and is {}", what, optimiser.0.show(), fa.optimiser.inner.0.show()));
            }
            // usable: reads and another update
            let phi: Vec<f64> = (0..n).map(|i| x[0] + i as f64).collect();
            for round in 0..2 {
                let y: Array1<f64> = attempt("evaluate", false, || fa.evaluate(&x[..]))?.unwrap();
                let want: Vec<f64> = (0..k).map(|c| dot(&phi, &fa.weights.column(c).to_vec())).collect();
                expect_vec(&format!("{}: evaluate", what), &y.to_vec(), &want)?;
                if round == 0 {
                    attempt("update", false, || fa.update(&x[..], vec![-1.0; k]))?;
                }
            }
            let c = fa.clone();
            drop(fa);
            expect_eq("shape of a clone", c.weights.dim(), (n, k))?;
            ctx.state((kind, k, by, j, warm, n, layout, wbits(&c.weights)));
            Ok(())
        }));
    }
    out
}
