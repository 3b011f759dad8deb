//! C24-C27: scalar and vector approximators.
use crate::basis_util::*;
use crate::engine::*;
use crate::optim_util::*;
use crate::util::*;
use lfa::basis::*;
use lfa::optim::{Optimiser, ISGD, SGD};
use lfa::{Error, Features, LFA};
use ndarray::{Array1, Array2, Axis, ShapeBuilder};
use std::cell::Cell;
use std::result::Result as R;

fn proj_vec(b: &Dyn, x: &[f64]) -> R<Vec<f64>, String> {
    denote(&guarded("project", || b.0.project(x))?.map_err(|e| e.to_string())?)
}

fn ok<T>(what: &str, r: R<lfa::Result<T>, String>) -> R<T, String> {
    r?.map_err(|e| format!("{} failed: {}", what, e))
}

/// Bases small enough to explore histories over.
fn small_entries(t: bool) -> Vec<Entry> {
    let mut v: Vec<Entry> = base_entries(1).into_iter().filter(|e| e.n <= 70).collect();
    v.extend(base_entries(2).into_iter().filter(|e| e.n <= if t { 70 } else { 12 }));
    v.extend(static_entries().into_iter().filter(|e| t || e.n <= 9));
    v
}

/// A few representative ones.
fn core_entries() -> Vec<Entry> {
    let want = [
        "Polynomial(2,1).with_zeroth",
        "Fourier(2,1)",
        "UniformGrid([3, 2])",
        "TileCoding(2d,5,3)",
        "KernelBasis(2d,Matern32)",
        "Fixed::sparse/2",
        "Closure/2",
        "Closure(sparse)/2",
    ];
    base_entries(2).into_iter().filter(|e| want.contains(&&e.name[..])).collect()
}

fn three_inputs(d: usize) -> Vec<Vec<f64>> {
    let all = inputs(d, if d == 1 { 6 } else { 3 });
    let k = all.len();
    vec![all[1].clone(), all[k / 2].clone(), all[k - 1].clone()]
}

// ---------------------------------------------------------------------- C24

/// A scalar approximator: as constructed by default, or over given weights in
/// one of the layouts an array can have.
fn scalar_with(ctx: &mut Ctx, b: Dyn, n: usize, o: Opt) -> LFA<Dyn, Array1<f64>, Opt> {
    let w: Vec<f64> = (0..n).map(|i| 0.5 * (i % 7) as f64 - 1.0).collect();
    match ctx.choose(if ctx.thorough { 3 } else { 2 }) {
        0 => LFA::scalar(b, o),
        1 => LFA::new(b, array(Kind::DenseRev, &w), o),
        _ => LFA::new(b, array(Kind::DenseStride, &w), o),
    }
}

const RATES: [f64; 6] = [0.0, 0.01, 0.5, 1.0, 10.0, 1e6];

/// Residual error of the incremental rule.
fn isgd_left(lr: f64, n2: f64) -> f64 {
    1.0 / (1.0 + lr * n2)
}

pub fn c24(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for e in small_entries(t) {
        let e = std::sync::Arc::new(e);
        let e1 = e.clone();
        out.push(scenario(format!("SGD step: {}", e.name), move |ctx| {
            let e = &*e1;
            let xs = inputs(e.d, if e.d == 1 { 6 } else { 3 });
            let lr = *ctx.pick(&RATES[..5]);
            let mut fa = scalar_with(ctx, (e.make)(), e.n, Spec::Sgd(lr).build(e.n));
            let fresh = (e.make)();
            for k in 0..2 {
                let x = ctx.pick(&xs).clone();
                let err = *ctx.pick(&[1.0, -2.5, 0.0]);
                let phi = proj_vec(&fresh, &x)?;
                let n2 = dot(&phi, &phi);
                let before = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                let deferred = ctx.flag();
                if deferred {
                    ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, _| err)))?;
                } else {
                    ok("update", guarded("update", || fa.update(&x[..], err)))?;
                }
                let after = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                ctx.steps(3);
                ctx.state_here(bits(&fa.weights.to_vec()));
                ctx.log(|| format!("update {} at {:?} by {}: {} -> {}", k, x, err, before, after));
                let want = lr * err * n2;
                let tol = 1e-9 * (before.abs() + after.abs() + want.abs()) + 1e-12;
                if !((after - before - want).abs() <= tol) {
                    return Err(format!(
                        "SGD({}) on {}: error {} at {:?} changed the prediction from {} to {}, by {} instead of {}",
                        lr, e.name, err, x, before, after, after - before, want
                    ));
                }
            }
            Ok(())
        }));
        let e2 = e.clone();
        out.push(scenario(format!("ISGD residual: {}", e.name), move |ctx| {
            let e = &*e2;
            let xs = inputs(e.d, if e.d == 1 { 6 } else { 3 });
            let lr = *ctx.pick(&RATES);
            let mut fa = scalar_with(ctx, (e.make)(), e.n, Spec::Isgd(lr).build(e.n));
            let fresh = (e.make)();
            for k in 0..2 {
                let x = ctx.pick(&xs).clone();
                let target = *ctx.pick(&[1.0, -30.0]);
                let phi = proj_vec(&fresh, &x)?;
                let n2 = dot(&phi, &phi);
                let before = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                if ctx.flag() {
                    ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| target - y)))?;
                } else {
                    ok("update", guarded("update", || fa.update(&x[..], target - before)))?;
                }
                let after = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                ctx.steps(3);
                ctx.state_here(bits(&fa.weights.to_vec()));
                ctx.log(|| format!("update {} at {:?} towards {}: {} -> {}", k, x, target, before, after));
                let want = (target - before) * isgd_left(lr, n2);
                let tol = 1e-9 * (before.abs() + target.abs()) + 1e-12;
                if !((target - after - want).abs() <= tol) {
                    return Err(format!(
                        "ISGD({}) on {}: from {} towards {} at {:?} gave {}, leaving {} instead of {}",
                        lr, e.name, before, target, x, after, target - after, want
                    ));
                }
                if (target - after) * (target - before) < -tol * (target - before).abs() {
                    return Err(format!("ISGD({}) overshot: {} -> {} for target {}", lr, before, after, target));
                }
            }
            Ok(())
        }));
    }
    // Long feature vectors and extreme activations, on the library's own
    // optimiser types.
    out.push(scenario("long and extreme features", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 3000]);
        let kind = *ctx.pick(&KINDS);
        let lr = *ctx.pick(&[0.01, 0.5, 1e4]);
        let unit = *ctx.pick(&[1.0, 1e-6, 1e-4, 3e3, 1e-60, 1e60]);
        let pattern = ctx.choose(3);
        let phi: Vec<f64> = (0..n)
            .map(|i| {
                unit * match pattern {
                    0 => ((i * 7 + 3) % 5) as f64 - 1.5,
                    1 => if i % 10 == 0 { 2.0 } else { 0.0 },
                    _ => if i + 1 == n { -1.25 } else { 0.0 },
                }
            })
            .collect();
        let n2 = dot(&phi, &phi);
        let p2 = phi.clone();
        let b = || {
            let p = p2.clone();
            plain(Closure::new(n, move |_: &[f64]| -> lfa::Result<Features> { Ok(build(kind, &p)) }))
        };
        let x = [0.0];
        let mut fa = LFA::scalar(b(), ISGD(lr));
        let target = *ctx.pick(&[3.0, -1e-12, 1e7, -1e12, 1e100]);
        for k in 0..3 {
            let before = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
            ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| target - y)))?;
            let after = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
            let want = (target - before) * isgd_left(lr, n2);
            if !close_tol(target - after, want, 1e-8, 1e-9 * f64::abs(target)) {
                return Err(format!("ISGD({}), {} {:?} features of unit {:e}: step {} from {} towards {} gave {}, leaving {} instead of {}", lr, n, kind, unit, k, before, target, after, target - after, want));
            }
        }
        let mut fa = LFA::scalar(b(), SGD(lr));
        let mut y = 0.0;
        for e in [1.0, -3.0, 0.5, 1e-8, -1e-12, 1e-100, 1e3, -1e6, 1e7, -1e9, 1e12, -1e30, 1e100] {
            if f64::abs(e) < 1e-7 {
                // from zero, where small changes show
                fa.weights.fill(0.0);
                y = 0.0;
            }
            ok("update", guarded("update", || fa.update(&x[..], e)))?;
            let after = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
            let want = lr * e * n2;
            if !close_tol(after - y, want, 1e-8, 1e-12 * (y.abs() + after.abs())) {
                return Err(format!("SGD({}), {} {:?} features of unit {:e}: error {} changed the prediction by {} instead of {}", lr, n, kind, unit, e, after - y, want));
            }
            y = after;
        }
        ctx.steps(7);
        ctx.state((n, kind, lr.to_bits(), unit.to_bits(), pattern));
        Ok(())
    }));
    // Cycles over linearly independent feature sets.
    let alphabet = [0.0, 1.0, -1.0, 0.5];
    for (m, n) in [(1usize, 1usize), (1, 2), (2, 2), (2, 3), (3, 3)] {
        let vals: Vec<f64> = if m * n >= 6 && !t { vec![0.0, 1.0, -1.0] } else { alphabet.to_vec() };
        let vals = if m * n == 9 && t { vec![0.0, 1.0, -1.0] } else { vals };
        out.push(scenario(format!("ISGD converges: {} inputs, {} features", m, n), move |ctx| {
            let rows: Vec<Vec<f64>> = (0..m).map(|_| ctx.pick_vec(n, &vals)).collect();
            if gram_det(&rows) < 0.05 {
                return Ok(());
            }
            ctx.witness("independent set");
            let sparse = ctx.flag();
            let lr = *ctx.pick(&[2.0, 1e6]);
            let targets = [1.0, -2.0, 0.5];
            let r2 = rows.clone();
            let b = mock(n, move |x| build(if sparse { Kind::Sparse } else { Kind::Dense }, &r2[x[0] as usize]));
            let mut fa = LFA::scalar(b, ISGD(lr));
            // The recurrence says how many cycles are enough.
            let mut w = vec![0.0; n];
            let mut cycles = 0;
            loop {
                let worst = rows.iter().zip(targets).map(|(r, y)| (y - dot(r, &w)).abs()).fold(0.0, f64::max);
                if worst < 1e-6 {
                    break;
                }
                if cycles > 4000 {
                    return Err(format!("harness: the recurrence itself does not converge on {:?}", rows));
                }
                for (r, y) in rows.iter().zip(targets) {
                    let e = y - dot(r, &w);
                    let a = lr / (1.0 + lr * dot(r, r));
                    for i in 0..n {
                        w[i] += a * e * r[i];
                    }
                }
                cycles += 1;
            }
            for c in 0..cycles {
                for i in 0..m {
                    let x = [i as f64];
                    ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| targets[i] - y)))
                        .map_err(|e| format!("{} in cycle {}", e, c))?;
                }
            }
            ctx.steps(cycles * m);
            for i in 0..m {
                let y = ok("evaluate", guarded("evaluate", || fa.evaluate(&[i as f64][..])))?;
                if !((y - targets[i]).abs() < 1e-5) {
                    return Err(format!(
                        "ISGD({}) on features {:?}: after {} cycles input {} predicts {} instead of {}",
                        lr, rows, cycles, i, y, targets[i]
                    ));
                }
            }
            ctx.state((n, rows.iter().map(|r| bits(r)).collect::<Vec<_>>(), sparse, lr.to_bits()));
            Ok(())
        }));
    }
    // Any schedule: no update moves the weights away from a solution.
    for (n, rows) in [
        (2usize, vec![vec![1.0, 0.0], vec![1.0, 1.0]]),
        (3, vec![vec![1.0, 0.5, 0.0], vec![0.0, 1.0, -1.0], vec![2.0, 0.0, 1.0]]),
        (4, vec![vec![1.0, 0.0, 0.0, 1.0], vec![0.0, 1.0, 0.0, 1.0], vec![0.0, 0.0, 3.0, 0.0]]),
    ] {
        let depth = if t { 9 } else { 7 };
        out.push(scenario(format!("ISGD schedules: {} inputs, {} features", rows.len(), n), move |ctx| {
            let m = rows.len();
            let lr = *ctx.pick(&[0.1, 1.0, 1e4]);
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
            let sol: Vec<f64> = (0..n).map(|i| [1.0, -2.0, 0.5, 3.0][i]).collect();
            let targets: Vec<f64> = rows.iter().map(|r| dot(r, &sol)).collect();
            let r2 = rows.clone();
            let mut fa = LFA::scalar(mock(n, move |x| build(kind, &r2[x[0] as usize])), ISGD(lr));
            let dist = |w: &Array1<f64>| w.iter().zip(&sol).map(|(a, b)| (a - b) * (a - b)).sum::<f64>();
            let mut d = dist(&fa.weights);
            let mut h = vec![];
            for _ in 0..depth {
                let i = ctx.choose(m);
                h.push(i);
                let x = [i as f64];
                let before = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| targets[i] - y)))?;
                let after = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                ctx.steps(3);
                ctx.state_here((i, bits(&fa.weights.to_vec())));
                expect(
                    &format!("ISGD({}) residual after schedule {:?}", lr, h),
                    targets[i] - after + 1.0,
                    (targets[i] - before) * isgd_left(lr, dot(&rows[i], &rows[i])) + 1.0,
                )?;
                let d2 = dist(&fa.weights);
                if !(d2 <= d + 1e-9) {
                    return Err(format!("ISGD({}) schedule {:?}: distance to the solution grew from {} to {}", lr, h, d, d2));
                }
                d = d2;
            }
            Ok(())
        }));
    }
    out
}

fn gram_det(rows: &[Vec<f64>]) -> f64 {
    let m = rows.len();
    let mut g: Vec<Vec<f64>> = (0..m).map(|i| (0..m).map(|j| dot(&rows[i], &rows[j])).collect()).collect();
    let mut det = 1.0;
    for c in 0..m {
        let p = (c..m).max_by(|a, b| g[*a][c].abs().total_cmp(&g[*b][c].abs())).unwrap();
        if g[p][c].abs() < 1e-12 {
            return 0.0;
        }
        if p != c {
            g.swap(p, c);
            det = -det;
        }
        det *= g[c][c];
        for r in c + 1..m {
            let f = g[r][c] / g[c][c];
            for k in c..m {
                g[r][k] -= f * g[c][k];
            }
        }
    }
    det
}

// ---------------------------------------------------------------------- C25

fn opt_step(o: &mut Opt, w: &mut Array1<f64>, phi: &Features, s: f64) -> Res {
    let mut v = w.view_mut();
    o.step_scaled(&mut v, phi, s).map_err(|e| e.to_string())
}

fn errors_of(k: usize) -> f64 {
    [1.0, -0.5, 0.0][k]
}

/// The user's error functions.
fn err_fn(k: usize, phi: &[f64], y: f64) -> f64 {
    match k {
        0 => 2.0 - y,
        1 => phi.iter().sum::<f64>() - 0.5 * y,
        _ => -0.25,
    }
}

fn scalar_history(ctx: &mut Ctx, name: &str, fresh: &Dyn, basis: Dyn, n: usize, d: usize, spec: Spec, depth: usize, init: Option<(Kind, Vec<f64>)>) -> Res {
    let xs = three_inputs(d);
    let mut phis = vec![];
    for x in &xs {
        phis.push(guarded("project", || fresh.0.project(x))?.map_err(|e| e.to_string())?);
    }
    let vecs: Vec<Vec<f64>> = phis.iter().map(denote).collect::<R<_, _>>()?;
    let mut fa = match &init {
        None => guarded("LFA::scalar", || LFA::scalar(basis, spec.build(n)))?,
        Some((kind, w)) => LFA::new(basis, array(*kind, w), spec.build(n)),
    };
    let mut w = Array1::from(init.map_or(vec![0.0; n], |i| i.1));
    let mut o = spec.build(n);
    expect_vec("initial weights", &fa.weights.to_vec(), &w.to_vec())?;
    let mut buf = xs[0].clone();
    let mut h = vec![];
    for step in 0..depth {
        let i = ctx.choose(xs.len());
        let k = ctx.choose(8);
        h.push((i, k));
        // the caller uses one buffer for all its inputs
        buf.copy_from_slice(&xs[i]);
        let x = &buf;
        let y = dot(&vecs[i], &w.to_vec());
        ctx.step();
        match k {
            7 => {
                // the caller writes to the weights
                for (c, w) in w.iter_mut().enumerate() {
                    *w = 0.75 * *w + 0.25 * (c % 5 + i) as f64;
                    fa.weights[c] = *w;
                }
            }
            0 => {
                let got = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                expect_near("evaluate", got, y, &vecs[i], &w)?;
            }
            1..=3 => {
                let e = errors_of(k - 1);
                ok("update", guarded("update", || fa.update(&x[..], e)))?;
                opt_step(&mut o, &mut w, &phis[i], e)?;
            }
            _ => {
                let calls = Cell::new(0usize);
                let seen: Cell<Option<(Vec<f64>, f64)>> = Cell::new(None);
                ok("update_with", guarded("update_with", || {
                    fa.update_with(&x[..], |f, v| {
                        calls.set(calls.get() + 1);
                        let d = denote(f).unwrap_or_default();
                        let e = err_fn(k - 4, &d, v);
                        seen.set(Some((d, v)));
                        e
                    })
                }))?;
                expect_eq("calls of the error function", calls.get(), 1)?;
                let (d, v) = seen.take().unwrap();
                expect_vec("features given to the error function", &d, &vecs[i])?;
                expect_near("value given to the error function", v, y, &vecs[i], &w)?;
                opt_step(&mut o, &mut w, &phis[i], err_fn(k - 4, &vecs[i], y))?;
            }
        }
        ctx.state_here(bits(&fa.weights.to_vec()));
        let big = w.iter().fold(1.0f64, |a, x| a.max(x.abs()));
        expect_vec_tol(&format!("{} with {:?}: weights after {:?}", name, spec, h), &fa.weights.to_vec(), &w.to_vec(), 1e-8, 1e-10 * big)?;
        let _ = step;
    }
    // Evaluation changes nothing and is a dot product.
    let before = fa.weights.to_vec();
    let ob = fa.optimiser.clone();
    for _ in 0..2 {
        for (x, v) in xs.iter().zip(&vecs) {
            let got = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
            expect_near("evaluate after a history", got, dot(v, &before), v, &w)?;
        }
    }
    if bits(&fa.weights.to_vec()) != bits(&before) || !ob.same(&fa.optimiser) {
        return Err("evaluation changed the approximator".into());
    }
    Ok(())
}

fn expect_near(what: &str, got: f64, want: f64, phi: &[f64], w: &Array1<f64>) -> Res {
    let mag: f64 = phi.iter().zip(w.iter()).map(|(a, b)| (a * b).abs()).sum();
    if (got - want).abs() <= 1e-8 * mag + 1e-12 || close(got, want) {
        Ok(())
    } else {
        Err(format!("{}: got {}, want {}", what, got, want))
    }
}

/// Magnitudes whose products stay in range.
const PLAIN: [f64; 11] = [1.0, -1e-3, 1e-6, 1e-8, -1e-12, 1e-30, 1e3, -1e6, 1e9, 1e12, -1e30];

/// Errors of every magnitude.
const MAGNITUDES: [f64; 28] = [
    1.0,
    0.0,
    -1e-3,
    1e-4,
    -1e-5,
    1e-6,
    1e-7,
    -1e-8,
    1e-9,
    1e-10,
    -1e-12,
    1e-16,
    1e-30,
    -1e-100,
    1e-200,
    -10.0,
    1e2,
    1e3,
    -1e4,
    1e5,
    -1e6,
    1e9,
    -1e12,
    1e30,
    -1e100,
    1e200,
    f64::INFINITY,
    f64::NAN,
];

pub fn c25(t: bool) -> Vec<Scenario> {
    let mut out = super::nested::scalar();
    // Every basis, one optimiser of each family, shallow; with initial weights.
    for e in small_entries(t) {
        let e = std::sync::Arc::new(e);
        out.push(scenario(format!("scalar: {}", e.name), move |ctx| {
            let s = *ctx.pick(&[Spec::Sgd(0.1), Spec::Nag(0.9, 0.1), Spec::Adam(0.1, 0.9, 0.999)]);
            let init = match ctx.choose(5) {
                0 => None,
                k => Some(([Kind::Dense, Kind::DenseRev, Kind::DenseStride, Kind::DenseOffset][k - 1], (0..e.n).map(|i| 0.5 * i as f64 - 1.0).collect())),
            };
            scalar_history(ctx, &e.name, &(e.make)(), (e.make)(), e.n, e.d, s, 2, init)
        }));
    }
    for e in core_entries() {
        let e = std::sync::Arc::new(e);
        for spec in specs() {
            let e = e.clone();
            let deep = e.name.starts_with("UniformGrid") || e.name.starts_with("Polynomial");
            let depth = if t && deep { 4 } else { 3 };
            out.push(scenario(format!("scalar histories: {} with {:?}", e.name, spec), move |ctx| {
                scalar_history(ctx, &e.name, &(e.make)(), (e.make)(), e.n, e.d, spec, depth, None)
            }));
        }
    }
    // Sizes and magnitudes.
    out.push(scenario("scalar sizes", |ctx| {
        let n = *ctx.pick(&[0usize, 1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257, 512, 1000, 1024, 1025, 4096]);
        let kind = *ctx.pick(&KINDS);
        let wkind = *ctx.pick(&[Kind::Dense, Kind::DenseRev, Kind::DenseStride, Kind::DenseOffset]);
        let spec = *ctx.pick(&specs());
        let unit = *ctx.pick(&[1.0, 1e-7, 1e5]);
        let phi: Vec<f64> = (0..n).map(|i| if i % 4 == 1 { 0.0 } else { unit * (((i * 5 + 1) % 9) as f64 - 3.5) }).collect();
        let p2 = phi.clone();
        let m = plain(Closure::new(n, move |_: &[f64]| -> lfa::Result<Features> { Ok(build(kind, &p2)) }));
        let w0: Vec<f64> = (0..n).map(|i| 0.5 * ((i * 3 + 1) % 8) as f64 - 1.0).collect();
        let mut fa = LFA::new(m, array(wkind, &w0), spec.build(n));
        let mut w = Array1::from(w0);
        let mut o = spec.build(n);
        let f = build(kind, &phi);
        let x = [0.0];
        for (k, e) in [0.5, -1e-9, 0.0, 2e3].into_iter().enumerate() {
            let y = dot(&phi, &w.to_vec());
            expect_near("evaluate", ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?, y, &phi, &w)?;
            if k % 2 == 0 {
                ok("update", guarded("update", || fa.update(&x[..], e)))?;
            } else {
                let v = Cell::new(f64::NAN);
                ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| {
                    v.set(y);
                    e
                })))?;
                expect_near("value given to the error function", v.get(), y, &phi, &w)?;
            }
            opt_step(&mut o, &mut w, &f, e)?;
            let big = w.iter().fold(1.0f64, |a, x| a.max(x.abs()));
            expect_vec_tol(&format!("{:?}, {} features: weights after error {}", spec, n, e), &fa.weights.to_vec(), &w.to_vec(), 1e-8, 1e-10 * big)?;
        }
        ctx.steps(8);
        ctx.state((n, kind, wkind, spec.name(), unit.to_bits()));
        Ok(())
    }));
    // Errors, weights and features of every magnitude reach the optimiser untouched.
    for sgd in [false, true] {
        out.push(scenario(format!("scalar magnitudes{}", if sgd { ", SGD" } else { "" }), move |ctx| {
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull, Kind::DenseRev]);
            // (what becomes of weights after an infinite error is the optimiser's business)
            let es = &MAGNITUDES[..if sgd { MAGNITUDES.len() - 2 } else { MAGNITUDES.len() }];
            let (e, w0, p) = (*ctx.pick(es), *ctx.pick(&PLAIN), *ctx.pick(&PLAIN));
            let deferred = ctx.flag();
            let phi = vec![p, 0.0, 2.0 * p];
            let w: Vec<f64> = vec![w0, 1.0, w0];
            let p2 = phi.clone();
            let m = mock(3, move |_| build(kind, &p2));
            let rec = Recorder::default();
            let calls = rec.calls.clone();
            let o = if sgd { Spec::Sgd(0.5).build(3) } else { Opt::of(rec) };
            let mut fa = LFA::new(m, Array1::from(w.clone()), o);
            let x = [0.0];
            let y = 3.0 * p * w0;
            let relative = |what: &str, got: f64, want: f64| -> Res {
                if close_tol(got, want, 1e-9, 0.0) {
                    Ok(())
                } else {
                    Err(format!("{}: got {}, want {} (weights {:?}, features {:?})", what, got, want, w, phi))
                }
            };
            relative("evaluate", ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?, y)?;
            if deferred {
                let seen = Cell::new((f64::NAN, false));
                ok("update_with", guarded("update_with", || fa.update_with(&x[..], |f, v| {
                    seen.set((v, denote(f).map_or(false, |f| f == phi)));
                    e
                })))?;
                relative("value given to the error function", seen.get().0, y)?;
                if !seen.get().1 {
                    return Err("the error function saw other features".into());
                }
            } else {
                ok("update", guarded("update", || fa.update(&x[..], e)))?;
            }
            ctx.steps(2);
            ctx.state((sgd, kind, e.to_bits(), w0.to_bits(), p.to_bits(), deferred));
            if sgd {
                for i in 0..3 {
                    let d = 0.5 * e * phi[i];
                    let atol = 1e-9 * (w[i].abs() + d.abs());
                    let got = fa.weights[i];
                    if !close_tol(got, w[i] + d, 1e-9, if atol.is_finite() { atol } else { 0.0 }) {
                        return Err(format!("error {}: weight {} is {}, want {} + {}", e, i, got, w[i], d));
                    }
                }
                return Ok(());
            }
            let got = calls.borrow();
            expect_eq("number of optimiser steps", got.len(), 1)?;
            let g = &got[0];
            if !(g.2 == e || g.2.is_nan() && e.is_nan()) || g.1 != phi || g.3 != w {
                return Err(format!("the optimiser was given features {:?}, scale {} and weights {:?}, not {:?}, {} and {:?}", g.1, g.2, g.3, phi, e, w));
            }
            Ok(())
        }));
    }
    // A recording optimiser sees exactly one step per update.
    for kind in [Kind::Dense, Kind::Sparse, Kind::SparseFull, Kind::DenseStride] {
        let depth = if t { 4 } else { 3 };
        out.push(scenario(format!("one optimiser step per update: {:?}", kind), move |ctx| {
            let rows = [vec![1.0, 0.0, -2.0], vec![0.0, 0.0, 0.0], vec![0.5, 3.0, 1.0]];
            let r2 = rows.clone();
            let rec = Recorder::default();
            let calls = rec.calls.clone();
            let resets = rec.resets.clone();
            let m = mock(3, move |x| build(kind, &r2[x[0] as usize]));
            let mut fa = LFA::scalar(m, rec);
            let mut w = vec![0.0; 3];
            let mut want: Vec<(bool, Vec<f64>, f64, Vec<f64>)> = vec![];
            for _ in 0..depth {
                let i = ctx.choose(3);
                let k = ctx.choose(7);
                let x = [i as f64];
                let y = dot(&rows[i], &w);
                ctx.step();
                ctx.log(|| format!("op {} on input {}", k, i));
                let e = match k {
                    0 => {
                        let v = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                        expect("evaluate", v, y)?;
                        None
                    }
                    1..=3 => {
                        let e = errors_of(k - 1);
                        ok("update", guarded("update", || fa.update(&x[..], e)))?;
                        Some(e)
                    }
                    _ => {
                        ok("update_with", guarded("update_with", || {
                            fa.update_with(&x[..], |f, v| err_fn(k - 4, &denote(f).unwrap(), v))
                        }))?;
                        Some(err_fn(k - 4, &rows[i], y))
                    }
                };
                if let Some(e) = e {
                    want.push((kind.is_sparse(), rows[i].clone(), e, w.clone()));
                    for c in 0..3 {
                        w[c] += e * rows[i][c];
                    }
                }
                let got = calls.borrow();
                expect_eq("number of optimiser steps", got.len(), want.len())?;
                if let (Some(g), Some(x)) = (got.last(), want.last()) {
                    expect_eq("storage given to the optimiser", g.0, x.0)?;
                    expect_vec("features given to the optimiser", &g.1, &x.1)?;
                    expect("scale given to the optimiser", g.2, x.2)?;
                    expect_vec("weights given to the optimiser", &g.3, &x.3)?;
                }
                ctx.state_here(bits(&fa.weights.to_vec()));
                expect_vec("weights", &fa.weights.to_vec(), &w)?;
                expect_eq("resets", *resets.borrow(), 0)?;
            }
            Ok(())
        }));
    }
    // Long histories: after many updates the same laws hold.
    for spec in specs() {
        out.push(scenario(format!("scalar, long history: {:?}", spec), move |ctx| {
            let es = core_entries();
            let e = &es[ctx.choose(es.len())];
            let pat = [ctx.choose(3), ctx.choose(3)];
            let fresh = (e.make)();
            let xs = three_inputs(e.d);
            let mut fa = LFA::scalar((e.make)(), spec.build(e.n));
            let mut o = spec.build(e.n);
            let mut w = Array1::zeros(e.n);
            for i in 0..if ctx.thorough { 5000 } else { 700 } {
                let x = &xs[pat[i % 2]];
                let phi = guarded("project", || fresh.0.project(x))?.map_err(|e| e.to_string())?;
                let pv = denote(&phi)?;
                if i % 3 == 0 {
                    ok("update", guarded("update", || fa.update(&x[..], 0.5)))?;
                    opt_step(&mut o, &mut w, &phi, 0.5)?;
                } else {
                    let y = dot(&pv, &w.to_vec());
                    ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| (1.0 - y).clamp(-1.0, 1.0))))?;
                    opt_step(&mut o, &mut w, &phi, (1.0 - y).clamp(-1.0, 1.0))?;
                }
                let v = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                ctx.state_here((i, bits(&fa.weights.to_vec())));
                expect_near(&format!("evaluate after {} updates", i + 1), v, dot(&pv, &w.to_vec()), &pv, &w)?;
                ctx.steps(2);
            }
            Ok(())
        }));
    }
    out
}

// ---------------------------------------------------------------------- C26

/// k independent scalar learners, and the same with one shared optimiser.
struct Outputs {
    w: Vec<Array1<f64>>,
    o: Vec<Opt>,
    shared_w: Vec<Array1<f64>>,
    shared_o: Opt,
    spec: Spec,
    big: f64,
    leaked: bool,
}

impl Outputs {
    fn new(spec: Spec, init: &Array2<f64>) -> Outputs {
        let w: Vec<Array1<f64>> = init.columns().into_iter().map(|c| c.to_owned()).collect();
        let n = init.nrows();
        Outputs {
            o: w.iter().map(|_| spec.build(n)).collect(),
            shared_w: w.clone(),
            w,
            shared_o: spec.build(n),
            spec,
            big: 1.0,
            leaked: false,
        }
    }

    fn step(&mut self, j: usize, phi: &Features, independent: f64, shared: f64) -> Res {
        opt_step(&mut self.o[j], &mut self.w[j], phi, independent)?;
        opt_step(&mut self.shared_o, &mut self.shared_w[j], phi, shared)?;
        for x in self.w[j].iter() {
            self.big = self.big.max(x.abs());
        }
        Ok(())
    }

    /// What the weights should be at this point, given what they are.
    fn check(&mut self, ctx: &mut Ctx, what: &str, m: &Array2<f64>) -> R<Vec<Vec<f64>>, String> {
        let got: Vec<Vec<f64>> = m.columns().into_iter().map(|c| c.to_vec()).collect();
        expect_eq("number of outputs", got.len(), self.w.len())?;
        let fit = |w: &Vec<Array1<f64>>, big: f64| {
            got.iter().zip(w).all(|(g, w)| g.len() == w.len() && g.iter().zip(w.iter()).all(|(a, b)| close_tol(*a, *b, 1e-8, 1e-10 * big)))
        };
        if !self.leaked && fit(&self.w, self.big) {
            return Ok(got);
        }
        let want: Vec<Vec<f64>> = self.w.iter().map(|c| c.to_vec()).collect();
        if self.spec.stateful() && fit(&self.shared_w, self.big) {
            self.leaked = true;
            let (spec, g) = (self.spec, got.clone());
            ctx.known(&format!("shared-optimiser-state:{}", spec.name()), || {
                format!("{:?}: {} - outputs {:?}, independent learners {:?}", spec, what, g, want)
            });
            return Ok(got);
        }
        Err(format!("{:?}: {}: weights per output {:?}, independent learners have {:?}", self.spec, what, got, want))
    }
}

fn layouts(n: usize, k: usize, layout: usize, init: bool) -> Array2<f64> {
    let f = |i: usize, j: usize| if init { 0.25 * i as f64 - 0.5 * j as f64 + 0.125 } else { 0.0 };
    match layout {
        0 => Array2::from_shape_fn((n, k), |(i, j)| f(i, j)),
        1 => Array2::from_shape_fn((n, k).f(), |(i, j)| f(i, j)),
        2 => Array2::from_shape_fn((k, n), |(j, i)| f(i, j)).reversed_axes(),
        4 => {
            // every other row and column of a larger array, upside down
            let a = Array2::from_shape_fn((2 * n + 1, 2 * k + 1), |(i, j)| {
                if i % 2 == 1 && j % 2 == 1 { f(n - 1 - i / 2, j / 2) } else { -4321.5 }
            });
            a.slice_move(ndarray::s![1..2 * n + 1;2, 1..2 * k + 1;2]).slice_move(ndarray::s![..;-1, ..])
        }
        _ => {
            let mut a = Array2::from_shape_fn((n, k), |(i, j)| f(i, k - 1 - j));
            a.invert_axis(Axis(1));
            a
        }
    }
}

/// Error vectors of all lengths up to the number of outputs, in the forms a
/// caller may pass them in.
fn err_vec(which: usize, k: usize) -> Vec<f64> {
    match which {
        0 => (0..k).map(|j| 1.0 + j as f64).collect(),
        1 => (0..k).map(|j| if j % 2 == 0 { -0.5 } else { 0.0 }).collect(),
        // outputs without an error
        2 => (0..k.saturating_sub(1)).map(|j| 2.0 - 3.0 * j as f64).collect(),
        _ => vec![],
    }
}

fn user_errors(which: usize, values: &Array1<f64>) -> Array1<f64> {
    let k = values.len();
    match which {
        // towards distinct targets
        0 => Array1::from_shape_fn(k, |j| (j as f64 + 1.0) - values[j]),
        // a reversed array
        1 => {
            let mut a = Array1::from_shape_fn(k, |j| (k - 1 - j) as f64 + 0.5);
            a.invert_axis(Axis(0));
            a
        }
        // a strided array
        _ => {
            let a = Array1::from_shape_fn(2 * k, |j| if j % 2 == 0 { 1.0 - j as f64 } else { 99.0 });
            a.slice_move(ndarray::s![..;2])
        }
    }
}

fn vector_reads(ctx: &mut Ctx, fa: &LFA<Dyn, Array2<f64>, Opt>, x: &[f64], phi: &[f64], got: &[Vec<f64>]) -> Res {
    let k = got.len();
    let vals: Vec<f64> = got.iter().map(|c| dot(phi, c)).collect();
    let near = |what: &str, j: usize, v: f64| {
        let mag: f64 = phi.iter().zip(&got[j]).map(|(a, b)| (a * b).abs()).sum();
        if (v - vals[j]).abs() <= 1e-8 * mag + 1e-12 || close(v, vals[j]) {
            Ok(())
        } else {
            Err(format!("{}: output {} is {}, want {}", what, j, v, vals[j]))
        }
    };
    expect_eq("n_outputs()", fa.n_outputs(), k)?;
    let e = ok("evaluate", guarded("evaluate", || fa.evaluate(x)))?;
    expect_eq("evaluate: length", e.len(), k)?;
    for j in 0..k {
        near("evaluate", j, e[j])?;
        near("evaluate_index", j, ok("evaluate_index", guarded("evaluate_index", || fa.evaluate_index(x, j)))?)?;
    }
    for form in 0..2 {
        let what = ["iter", "try_iter"][form];
        let mut it = match form {
            0 => guarded("iter", || fa.iter(x))?,
            _ => ok("try_iter", guarded("try_iter", || fa.try_iter(x)))?,
        };
        for j in 0..=k {
            let left = k - j;
            expect_eq(&format!("{}: len() after {} outputs", what, j), guarded("len", || it.len())?, left)?;
            expect_eq(&format!("{}: size_hint() after {} outputs", what, j), it.size_hint(), (left, Some(left)))?;
            match guarded("next", || it.next())? {
                Some(v) if j < k => near(what, j, v)?,
                None if j == k => (),
                other => return Err(format!("{}: item {} of {} is {:?}", what, j, k, other)),
            }
        }
        let it = match form {
            0 => guarded("iter", || fa.iter(x))?,
            _ => ok("try_iter", guarded("try_iter", || fa.try_iter(x)))?,
        };
        expect_eq(&format!("{}: count()", what), it.count(), k)?;
        // every adaptor, from every position
        let positions: Vec<usize> = if k <= 5 { (0..=k).collect() } else { vec![0, 1, k / 2, k - 1, k] };
        for p in positions {
            let at = || {
                let mut it = match form {
                    0 => fa.iter(x),
                    _ => fa.try_iter(x).map_err(|e| e.to_string())?,
                };
                for _ in 0..p {
                    it.next();
                }
                Ok::<_, String>(it)
            };
            let left = k - p;
            let item = |what: &str, v: Option<f64>, j: usize| match v {
                Some(v) if j < k => near(what, j, v),
                None if j >= k => Ok(()),
                v => Err(format!("{}: item {} of {} is {:?}", what, j, k, v)),
            };
            expect_eq("count", at()?.count(), left)?;
            item("last", at()?.last(), if left == 0 { k } else { k - 1 })?;
            for m in if left <= 5 { (0..=left + 1).collect() } else { vec![0, 1, left - 1, left, left + 1, usize::MAX] } {
                let mut it = at()?;
                item("nth", guarded("nth", || it.nth(m))?, p.saturating_add(m))?;
                let after = left.saturating_sub(m.saturating_add(1));
                expect_eq(&format!("{}: len() after nth({}) at {}", what, m, p), guarded("len", || it.len())?, after)?;
                expect_eq(&format!("{}: size_hint() after nth({}) at {}", what, m, p), it.size_hint(), (after, Some(after)))?;
                item("next after nth", it.next(), p.saturating_add(m).saturating_add(1))?;
                expect_eq("rest after nth", it.count(), after.saturating_sub(1))?;
            }
            for m in [0usize, 1, 2] {
                let s: Vec<f64> = at()?.skip(m).collect();
                expect_eq("skip: length", s.len(), left.saturating_sub(m))?;
                for (i, v) in s.into_iter().enumerate() {
                    near("skip", p + m + i, v)?;
                }
                let s: Vec<f64> = at()?.step_by(m + 1).collect();
                expect_eq("step_by: length", s.len(), (left + m) / (m + 1))?;
                for (i, v) in s.into_iter().enumerate() {
                    near("step_by", p + (m + 1) * i, v)?;
                }
                let mut it = at()?;
                let s: Vec<f64> = it.by_ref().take(m).collect();
                expect_eq("take: length", s.len(), left.min(m))?;
                expect_eq("len() after take", guarded("len", || it.len())?, left - left.min(m))?;
            }
            let folded = at()?.fold(0usize, |n, _| n + 1);
            expect_eq("fold", folded, left)?;
            let mut it = at()?;
            while it.next().is_some() {}
            for _ in 0..2 {
                expect_eq("next past the end", it.next(), None)?;
                expect_eq("len() past the end", guarded("len", || it.len())?, 0)?;
            }
        }
    }
    ctx.steps(2 + k + 2 * (k + 1));
    Ok(())
}

fn vector_history(ctx: &mut Ctx, e: &Entry, spec: Spec, k: usize, depth: usize, layout: usize, init: bool) -> Res {
    let xs = three_inputs(e.d);
    let fresh = (e.make)();
    let mut phis = vec![];
    for x in &xs {
        phis.push(guarded("project", || fresh.0.project(x))?.map_err(|e| e.to_string())?);
    }
    let vecs: Vec<Vec<f64>> = phis.iter().map(denote).collect::<R<_, _>>()?;
    let w = layouts(e.n, k, layout, init);
    let mut fa = if layout == 0 && !init {
        let fa = guarded("LFA::vector", || LFA::vector((e.make)(), spec.build(e.n), k))?;
        expect_eq("shape of the weights", fa.weights.dim(), (e.n, k))?;
        fa
    } else {
        LFA::new((e.make)(), w.clone(), spec.build(e.n))
    };
    let mut m = Outputs::new(spec, &w);
    m.check(ctx, "initially", &fa.weights)?;
    let mut buf = xs[0].clone();
    let mut h = vec![];
    for _ in 0..depth {
        let i = ctx.choose(xs.len());
        // 0..4: update; 4..7: update_with; then indexed updates
        let op = ctx.choose(7 + k);
        h.push((i, op));
        buf.copy_from_slice(&xs[i]);
        let (x, phi) = (&buf, &phis[i]);
        ctx.step();
        ctx.log(|| format!("op {} at {:?}", op, x));
        let before: Vec<Vec<f64>> = fa.weights.columns().into_iter().map(|c| c.to_vec()).collect();
        match op {
            0..=3 => {
                let es = err_vec(op, k);
                match (h.len() + op + 3 * i) % 6 {
                    3 => {
                        // an iterator that does not say how long it is
                        let mut it = es.iter();
                        ok("update", guarded("update", || fa.update(&x[..], std::iter::from_fn(move || it.next().copied()))))?
                    }
                    4 => ok("update", guarded("update", || fa.update(&x[..], es.iter().copied().filter(|_| true))))?,
                    5 => ok("update", guarded("update", || fa.update(&x[..], array([Kind::DenseRev, Kind::DenseStride, Kind::DenseOffset][h.len() % 3], &es))))?,
                    0 => ok("update", guarded("update", || fa.update(&x[..], es.clone())))?,
                    1 => ok("update", guarded("update", || fa.update(&x[..], es.iter().copied())))?,
                    _ => ok("update", guarded("update", || fa.update(&x[..], Array1::from(es.clone()))))?,
                }
                for (j, e) in es.iter().enumerate() {
                    m.step(j, phi, *e, *e)?;
                }
            }
            4..=6 => {
                let calls = Cell::new(0usize);
                let seen: Cell<Option<(Vec<f64>, Vec<f64>)>> = Cell::new(None);
                ok("update_with", guarded("update_with", || {
                    fa.update_with(&x[..], |f, v| {
                        calls.set(calls.get() + 1);
                        let e = user_errors(op - 4, &v);
                        seen.set(Some((denote(f).unwrap_or_default(), v.to_vec())));
                        match (h.len() + i) % 3 {
                            0 => e,
                            1 => array(Kind::DenseRev, &e.to_vec()),
                            _ => array(Kind::DenseStride, &e.to_vec()),
                        }
                    })
                }))?;
                expect_eq("calls of the error function", calls.get(), 1)?;
                let (f, v) = seen.take().unwrap();
                expect_vec("features given to the error function", &f, &vecs[i])?;
                expect_eq("number of values given to the error function", v.len(), k)?;
                for j in 0..k {
                    expect_near(
                        &format!("value {} given to the error function", j),
                        v[j],
                        dot(&vecs[i], &before[j]),
                        &vecs[i],
                        &Array1::from(before[j].clone()),
                    )?;
                }
                let own: Array1<f64> = m.w.iter().map(|c| dot(&vecs[i], &c.to_vec())).collect();
                let sh: Array1<f64> = m.shared_w.iter().map(|c| dot(&vecs[i], &c.to_vec())).collect();
                let (own, sh) = (user_errors(op - 4, &own), user_errors(op - 4, &sh));
                for j in 0..k {
                    m.step(j, phi, own[j], sh[j])?;
                }
            }
            _ => {
                let j = op - 7;
                let e = if h.len() % 2 == 0 { 1.5 } else { -0.75 };
                ok("update_index", guarded("update_index", || fa.update_index(&x[..], j, e)))?;
                m.step(j, phi, e, e)?;
                for c in 0..k {
                    if c != j && bits(&fa.weights.column(c).to_vec()) != bits(&before[c]) {
                        return Err(format!("update_index({}) changed output {}", j, c));
                    }
                }
            }
        }
        ctx.state_here(fa.weights.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        m.check(ctx, &format!("{} after {:?}", e.name, h), &fa.weights)?;
    }
    let got: Vec<Vec<f64>> = fa.weights.columns().into_iter().map(|c| c.to_vec()).collect();
    for (x, v) in xs.iter().zip(&vecs) {
        vector_reads(ctx, &fa, x, v, &got)?;
    }
    Ok(())
}

pub fn c26(t: bool) -> Vec<Scenario> {
    let mut out = super::nested::vector();
    for e in small_entries(t) {
        let e = std::sync::Arc::new(e);
        out.push(scenario(format!("vector: {}", e.name), move |ctx| {
            let k = ctx.choose(4);
            let s = *ctx.pick(&[Spec::Sgd(0.1), Spec::Isgd(0.5)]);
            let layout = ctx.choose(5);
            vector_history(ctx, &e, s, k, 1, layout, true)
        }));
    }
    for e in core_entries() {
        let e = std::sync::Arc::new(e);
        for spec in specs() {
            let e = e.clone();
            let depth = if spec.stateful() { 2 } else if t && e.n < 7 { 3 } else { 2 };
            out.push(scenario(format!("vector histories: {} with {:?}", e.name, spec), move |ctx| {
                let k = 1 + ctx.choose(3);
                let layout = *ctx.pick(&[0, 1, 2, 4]);
                vector_history(ctx, &e, spec, k, depth, layout, ctx.thorough && layout == 1)
            }));
            // A single output is a scalar learner, for every optimiser.
        }
    }
    for spec in specs() {
        let depth = if t { 4 } else { 3 };
        out.push(scenario(format!("vector histories, deeper: {:?}", spec), move |ctx| {
            let es = core_entries();
            let pick = [0usize, 2];
            let e = &es[pick[ctx.choose(2)]];
            let k = if spec.stateful() { 1 } else { 1 + ctx.choose(2) };
            vector_history(ctx, e, spec, k, depth, 0, false)
        }));
    }
    // What the optimiser is asked to do, output by output.
    for kind in [Kind::Dense, Kind::Sparse] {
        let depth = if t { 3 } else { 2 };
        out.push(scenario(format!("one optimiser step per output: {:?}", kind), move |ctx| {
            let rows = [vec![1.0, 0.0, -2.0], vec![0.5, 3.0, 1.0]];
            let r2 = rows.clone();
            let k = ctx.choose(5);
            let layout = ctx.choose(5);
            let rec = Recorder::default();
            let calls = rec.calls.clone();
            let mut fa = LFA::new(mock(3, move |x| build(kind, &r2[x[0] as usize])), layouts(3, k, layout, true), rec);
            let mut w: Vec<Vec<f64>> = fa.weights.columns().into_iter().map(|c| c.to_vec()).collect();
            for _ in 0..depth {
                let i = ctx.choose(2);
                let op = ctx.choose(7 + k);
                let x = [i as f64];
                let done = calls.borrow().len();
                ctx.step();
                ctx.log(|| format!("op {} on input {}", op, i));
                let vals: Array1<f64> = w.iter().map(|c| dot(&rows[i], c)).collect();
                let want: Vec<(usize, f64)> = match op {
                    0..=3 => {
                        let es = err_vec(op, k);
                        ok("update", guarded("update", || fa.update(&x[..], es.clone())))?;
                        es.into_iter().enumerate().collect()
                    }
                    4..=6 => {
                        ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, v| user_errors(op - 4, &v))))?;
                        user_errors(op - 4, &vals).iter().copied().enumerate().collect()
                    }
                    _ => {
                        ok("update_index", guarded("update_index", || fa.update_index(&x[..], op - 7, -0.75)))?;
                        vec![(op - 7, -0.75)]
                    }
                };
                let got = calls.borrow()[done..].to_vec();
                expect_eq("number of optimiser steps", got.len(), want.len())?;
                // The outputs may be stepped in any order.
                let mut used = vec![false; got.len()];
                for (j, e) in &want {
                    let hit = got.iter().enumerate().position(|(a, g)| {
                        !used[a] && g.0 == kind.is_sparse() && close_vec(&g.1, &rows[i]) && close(g.2, *e) && close_vec(&g.3, &w[*j])
                    });
                    match hit {
                        Some(a) => used[a] = true,
                        None => return Err(format!("no optimiser step for output {} with error {}: {:?}", j, e, got)),
                    }
                }
                for (j, e) in &want {
                    for c in 0..3 {
                        w[*j][c] += e * rows[i][c];
                    }
                }
                ctx.state_here(fa.weights.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
                for j in 0..k {
                    expect_vec(&format!("weights of output {}", j), &fa.weights.column(j).to_vec(), &w[j])?;
                }
            }
            Ok(())
        }));
    }
    // Outputs of very different magnitudes do not disturb each other.
    out.push(scenario("vector magnitudes", |ctx| {
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
        let ws = [*ctx.pick(&PLAIN), *ctx.pick(&PLAIN), 1.0];
        let es = [*ctx.pick(&MAGNITUDES), -1.0, *ctx.pick(&[0.0, 1e-12, 1e12])];
        let p = *ctx.pick(&[1.0, -1e-9, 1e9]);
        let op = ctx.choose(3);
        let phi = vec![p, 0.0, 2.0 * p];
        let p2 = phi.clone();
        let w = Array2::from_shape_fn((3, 3), |(i, j)| if i == 1 { 0.25 } else { ws[j] });
        let rec = Recorder::default();
        let calls = rec.calls.clone();
        let mut fa = LFA::new(mock(3, move |_| build(kind, &p2)), w.clone(), rec);
        let x = [0.0];
        let want: Vec<f64> = ws.iter().map(|w| 3.0 * p * w).collect();
        let relative = |what: &str, got: &[f64]| -> Res {
            if got.len() == 3 && got.iter().zip(&want).all(|(a, b)| close_tol(*a, *b, 1e-9, 0.0)) {
                Ok(())
            } else {
                Err(format!("{}: got {:?}, want {:?}", what, got, want))
            }
        };
        relative("evaluate", &ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?.to_vec())?;
        relative("iterating", &guarded("iter", || fa.iter(&x[..]).collect::<Vec<_>>())?)?;
        let each: R<Vec<f64>, String> = (0..3).map(|j| ok("evaluate_index", guarded("evaluate_index", || fa.evaluate_index(&x[..], j)))).collect();
        relative("output by output", &each?)?;
        let steps: Vec<usize> = match op {
            0 => {
                ok("update", guarded("update", || fa.update(&x[..], es.to_vec())))?;
                vec![0, 1, 2]
            }
            1 => {
                let seen = Cell::new(vec![]);
                ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, v| {
                    seen.set(v.to_vec());
                    Array1::from(es.to_vec())
                })))?;
                relative("values given to the error function", &seen.take())?;
                vec![0, 1, 2]
            }
            _ => {
                ok("update_index", guarded("update_index", || fa.update_index(&x[..], 0, es[0])))?;
                vec![0]
            }
        };
        ctx.steps(4);
        ctx.state((kind, bits(&ws), bits(&es), p.to_bits(), op));
        let got = calls.borrow();
        expect_eq("number of optimiser steps", got.len(), steps.len())?;
        for j in steps {
            let hit = got.iter().any(|g| {
                (g.2 == es[j] || g.2.is_nan() && es[j].is_nan()) && g.1 == phi && g.3 == w.column(j).to_vec()
            });
            if !hit {
                return Err(format!("no optimiser step for output {} with error {}: {:?}", j, es[j], *got));
            }
        }
        Ok(())
    }));
    // Faint activations beside plain ones, in whatever order they are stored.
    out.push(scenario("vectors with faint activations", |ctx| {
        let n = 1 + ctx.choose(3);
        let phi: Vec<f64> = (0..n).map(|_| *ctx.pick(&[1.0, 0.0, 1e-8, -1e-6, 1e-13])).collect();
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull]);
        let k = 1 + ctx.choose(2);
        let unit = *ctx.pick(&[1.0, 1e9]);
        let w = Array2::from_shape_fn((n, k), |(i, j)| unit * (5.0 - 2.0 * i as f64 + 0.5 * j as f64));
        let cols: Vec<Vec<f64>> = w.columns().into_iter().map(|c| c.to_vec()).collect();
        let p2 = phi.clone();
        let mut fa = LFA::new(plain(Closure::new(n, move |_: &[f64]| -> lfa::Result<Features> { Ok(build(kind, &p2)) })), w, Spec::Sgd(0.5).build(n));
        let x = [0.0];
        vector_reads(ctx, &fa, &x, &phi, &cols)?;
        // every activation counts for what it is
        let want: Vec<f64> = cols.iter().map(|c| dot(&phi, c)).collect();
        let each: R<Vec<f64>, String> = (0..k).map(|j| ok("evaluate_index", guarded("evaluate_index", || fa.evaluate_index(&x[..], j)))).collect();
        let seen: Cell<Vec<f64>> = Cell::new(vec![]);
        let all = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?.to_vec();
        let listed = guarded("iter", || fa.iter(&x[..]).collect::<Vec<_>>())?;
        fa.weights.fill(0.0);
        ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, v| {
            seen.set(v.to_vec());
            Array1::from_elem(k, unit)
        })))?;
        expect_vec("values given to the error function", &seen.take(), &vec![0.0; k])?;
        for (what, got) in [("output by output", each?), ("evaluate", all), ("iterating", listed)] {
            if got.len() != k || !got.iter().zip(&want).all(|(a, b)| close_tol(*a, *b, 1e-9, 1e-14)) {
                return Err(format!("{}: got {:?}, want {:?} ({:?} as {:?})", what, got, want, phi, kind));
            }
        }
        for j in 0..k {
            for i in 0..n {
                let (got, want) = (fa.weights[(i, j)], 0.5 * unit * phi[i]);
                if !close_tol(got, want, 1e-9, 0.0) {
                    return Err(format!("weight {} of output {}: {}, not {}", i, j, got, want));
                }
            }
        }
        ctx.steps(4);
        ctx.state((bits(&phi), kind, k, unit.to_bits()));
        Ok(())
    }));
    // Many outputs and many features.
    out.push(scenario("vector sizes", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 3, 4, 7, 8, 9, 16, 17, 33, 64, 65, 129, 300]);
        let k = *ctx.pick(&[0usize, 1, 2, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 129, 257]);
        if n > 33 && k > 65 {
            return Ok(());
        }
        let kind = *ctx.pick(&KINDS);
        let layout = ctx.choose(5);
        let phi: Vec<f64> = (0..n).map(|i| if i % 4 == 1 { 0.0 } else { 0.5 * i as f64 - 1.0 }).collect();
        let p2 = phi.clone();
        let m = plain(Closure::new(n, move |_: &[f64]| -> lfa::Result<Features> { Ok(build(kind, &p2)) }));
        let w = layouts(n, k, layout, true);
        let mut cols: Vec<Vec<f64>> = w.columns().into_iter().map(|c| c.to_vec()).collect();
        let mut fa = LFA::new(m, w, Spec::Sgd(0.5).build(n));
        let x = [0.0];
        let es: Vec<f64> = (0..k).map(|j| j as f64 - 2.0).collect();
        ok("update", guarded("update", || fa.update(&x[..], es.clone())))?;
        for j in 0..k {
            for i in 0..n {
                cols[j][i] += 0.5 * es[j] * phi[i];
            }
        }
        let vals: Vec<f64> = cols.iter().map(|c| dot(&phi, c)).collect();
        let seen: Cell<Vec<f64>> = Cell::new(vec![]);
        ok("update_with", guarded("update_with", || {
            fa.update_with(&x[..], |_, v| {
                seen.set(v.to_vec());
                Array1::from(es.clone())
            })
        }))?;
        expect_vec("values given to the error function", &seen.take(), &vals)?;
        for j in 0..k {
            for i in 0..n {
                cols[j][i] += 0.5 * es[j] * phi[i];
            }
        }
        if k > 0 {
            ok("update_index", guarded("update_index", || fa.update_index(&x[..], k - 1, 2.0)))?;
            for i in 0..n {
                cols[k - 1][i] += phi[i];
            }
        }
        for j in 0..k {
            expect_vec(&format!("weights of output {}", j), &fa.weights.column(j).to_vec(), &cols[j])?;
        }
        ctx.steps(3);
        vector_reads(ctx, &fa, &x, &phi, &cols)?;
        ctx.state((n, k, kind, layout));
        Ok(())
    }));
    out
}

// ---------------------------------------------------------------------- C27

/// Two errors are the same failure.
fn same_error(a: &Error, b: &Error) -> bool {
    a.to_string() == b.to_string() && format!("{:?}", a) == format!("{:?}", b)
}

fn expect_err<T>(what: &str, r: R<lfa::Result<T>, String>, want: &Error) -> Res {
    match r? {
        Ok(_) => Err(format!("{} succeeded although the projection failed with {:?}", what, want)),
        Err(e) if same_error(&e, want) => Ok(()),
        Err(e) => Err(format!("{}: reported {:?} instead of {:?}", what, e, want)),
    }
}

/// Bases that fail on the trigger input, in various positions.
fn faulty(which: usize, kind: Kind) -> (Dyn, Error) {
    let rows = |x: &[f64]| vec![x[0], 1.0 - x[0]];
    let good = mock(2, move |x| build(kind, &rows(x))).failing(f64::NEG_INFINITY, 0);
    let bad = mock(2, move |x| build(kind, &rows(x))).failing(FAIL, 5);
    let err = bad.error();
    let d = match which {
        0 => en(bad),
        1 => en(good.stack(bad)),
        2 => en(bad.stack(good)),
        3 => en(bad.with_bias()),
        4 => en(bad.normalise_l2()),
        5 => en(good.stack(bad.normalise_l1()).with_bias()),
        6 => en(bad.normalise_linf()),
        7 => en(bad.normalise_l0()),
        9 => {
            // no features at all
            let empty = mock(0, move |_| build(kind, &[])).failing(FAIL, 5);
            let e = empty.error();
            return (en(empty), e);
        }
        10 => {
            let empty = mock(0, move |_| build(kind, &[])).failing(FAIL, 5);
            let e = empty.error();
            return (en(empty.stack(good)), e);
        }
        _ => {
            let e = Error::index_error(9005, 2);
            debug_assert!(same_error(&e, &err));
            plain(Closure::new(2, move |x: &[f64]| -> lfa::Result<Features> {
                if x[0] == FAIL {
                    Err(Error::index_error(9005, 2))
                } else {
                    Ok(build(kind, &[x[0], 1.0 - x[0]]))
                }
            }))
        }
    };
    (d, err)
}

const X: [f64; 3] = [0.25, 2.0, FAIL];

pub fn c27(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for spec in specs() {
        // Scalar: the run with failing calls against the run without them.
        let depth = if t { 4 } else { 3 };
        out.push(scenario(format!("scalar, failing projections: {:?}", spec), move |ctx| {
            let which = ctx.choose(11);
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
            let (b, err) = faulty(which, kind);
            let n = b.0.n_features();
            let mut fa = LFA::scalar(b.clone(), spec.build(n));
            let mut twin = LFA::scalar(b, spec.build(n));
            let mut h = vec![];
            for _ in 0..depth {
                let i = ctx.choose(3);
                let op = ctx.choose(3);
                h.push((i, op));
                let x = [X[i]];
                ctx.step();
                ctx.log(|| format!("op {} at {}", op, x[0]));
                let calls = Cell::new(0);
                if i == 2 {
                    ctx.witness("failing projection");
                    let (ow, ww) = (fa.optimiser.clone(), bits(&fa.weights.to_vec()));
                    match op {
                        0 => expect_err("evaluate", guarded("evaluate", || fa.evaluate(&x[..])), &err)?,
                        1 => {
                            for e in [1.0, 0.0, -0.0, 1e-9, -1e300, 5e-324] {
                                expect_err("update", guarded("update", || fa.update(&x[..], e)), &err)?;
                            }
                        }
                        _ => {
                            for e in [1.0, 0.0, 1e-9] {
                                expect_err("update_with", guarded("update_with", || fa.update_with(&x[..], |_, _| {
                                    calls.set(calls.get() + 1);
                                    e
                                })), &err)?;
                            }
                        }
                    }
                    expect_eq("calls of the error function", calls.get(), 0)?;
                    if !ow.same(&fa.optimiser) || bits(&fa.weights.to_vec()) != ww {
                        return Err(format!("{:?}: a failed projection changed the approximator, history {:?}", spec, h));
                    }
                } else {
                    match op {
                        0 => {
                            let a = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                            let b = ok("evaluate", guarded("evaluate", || twin.evaluate(&x[..])))?;
                            expect("evaluate", a, b)?;
                        }
                        1 => {
                            ok("update", guarded("update", || fa.update(&x[..], -0.5)))?;
                            ok("update", guarded("update", || twin.update(&x[..], -0.5)))?;
                        }
                        _ => {
                            ok("update_with", guarded("update_with", || fa.update_with(&x[..], |_, y| 1.0 - y)))?;
                            ok("update_with", guarded("update_with", || twin.update_with(&x[..], |_, y| 1.0 - y)))?;
                        }
                    }
                }
                ctx.state_here((which, kind, bits(&fa.weights.to_vec())));
                expect_vec(&format!("weights after {:?}, against the history without failures", h), &fa.weights.to_vec(), &twin.weights.to_vec())?;
            }
            Ok(())
        }));
        let depth = if t { 3 } else { 2 };
        out.push(scenario(format!("vector, failing projections: {:?}", spec), move |ctx| {
            let which = ctx.choose(11);
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
            let k = *ctx.pick(&[0usize, 1, 3]);
            let (b, err) = faulty(which, kind);
            let n = b.0.n_features();
            let mut fa = LFA::vector(b.clone(), spec.build(n), k);
            let mut twin = LFA::vector(b, spec.build(n), k);
            let es: Vec<f64> = (0..k).map(|j| 1.0 - j as f64).collect();
            let mut h = vec![];
            // a successful update first and last
            let mut script = vec![];
            for _ in 0..depth {
                script.push((ctx.choose(3), ctx.choose(6)));
            }
            for (i, op) in std::iter::once((0, 3)).chain(script).chain([(1, 4), (0, 0)]) {
                h.push((i, op));
                let x = [X[i]];
                ctx.step();
                let calls = Cell::new(0);
                if k == 0 && (op == 1 || op == 5) {
                    continue;
                }
                if i == 2 {
                    let before = fa.clone();
                    match op {
                        0 => expect_err("evaluate", guarded("evaluate", || fa.evaluate(&x[..])), &err)?,
                        1 => expect_err("evaluate_index", guarded("evaluate_index", || fa.evaluate_index(&x[..], k - 1)), &err)?,
                        2 => expect_err("try_iter", guarded("try_iter", || fa.try_iter(&x[..]).map(|i| i.count())), &err)?,
                        3 => {
                            for es in [es.clone(), vec![], vec![0.0; k], vec![1e-9; k.min(1)], vec![-0.0; k]] {
                                expect_err("update", guarded("update", || fa.update(&x[..], es.clone())), &err)?;
                            }
                        }
                        4 => expect_err("update_with", guarded("update_with", || fa.update_with(&x[..], |_, v| {
                            calls.set(calls.get() + 1);
                            v
                        })), &err)?,
                        _ => {
                            for e in [2.0, 0.0, 1e-9] {
                                expect_err("update_index", guarded("update_index", || fa.update_index(&x[..], k - 1, e)), &err)?;
                            }
                        }
                    }
                    expect_eq("calls of the error function", calls.get(), 0)?;
                    if !before.optimiser.same(&fa.optimiser) || before.weights != fa.weights {
                        return Err(format!("{:?}: a failed projection changed the approximator, history {:?}", spec, h));
                    }
                } else {
                    for m in [&mut fa, &mut twin] {
                        match op {
                            0 => drop(ok("evaluate", guarded("evaluate", || m.evaluate(&x[..])))?),
                            1 => drop(ok("evaluate_index", guarded("evaluate_index", || m.evaluate_index(&x[..], k - 1)))?),
                            2 => drop(ok("try_iter", guarded("try_iter", || m.try_iter(&x[..]).map(|i| i.count())))?),
                            3 => ok("update", guarded("update", || m.update(&x[..], es.clone())))?,
                            4 => ok("update_with", guarded("update_with", || m.update_with(&x[..], |_, v| 1.0 - v)))?,
                            _ => ok("update_index", guarded("update_index", || m.update_index(&x[..], k - 1, 2.0)))?,
                        }
                    }
                    let a = ok("evaluate", guarded("evaluate", || fa.evaluate(&x[..])))?;
                    let b = ok("evaluate", guarded("evaluate", || twin.evaluate(&x[..])))?;
                    expect_vec("evaluate", &a.to_vec(), &b.to_vec())?;
                }
                ctx.state_here((which, kind, fa.weights.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                expect_vec(
                    &format!("weights after {:?}, against the history without failures", h),
                    &fa.weights.iter().copied().collect::<Vec<_>>(),
                    &twin.weights.iter().copied().collect::<Vec<_>>(),
                )?;
            }
            Ok(())
        }));
    }
    // Failing optimiser steps are reported.
    out.push(scenario("failing optimiser, scalar", |ctx| {
        let at = ctx.choose(6);
        let also = ctx.choose(6);
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
        let rec = Recorder::failing(vec![at, also]);
        let calls = rec.calls.clone();
        let mut fa = LFA::scalar(mock(2, move |x| build(kind, &[x[0], 2.0])), rec);
        for _ in 0..4 {
            let op = ctx.choose(2);
            let k = calls.borrow().len();
            let r = match op {
                0 => guarded("update", || fa.update(&[1.0][..], 0.5))?,
                _ => guarded("update_with", || fa.update_with(&[1.0][..], |_, y| 1.0 - y))?,
            };
            ctx.step();
            ctx.state_here((k, r.is_ok(), bits(&fa.weights.to_vec())));
            match (r, k == at || k == also) {
                (Ok(()), false) => (),
                (Ok(()), true) => return Err(format!("optimiser step {} failed and the update (operation {}) succeeded", k, op)),
                (Err(e), true) if same_error(&e, &Recorder::error(k)) => ctx.witness("failing step"),
                (Err(e), f) => return Err(format!("update reported {:?}, optimiser step {} {}", e, k, if f { "failed differently" } else { "succeeded" })),
            }
        }
        Ok(())
    }));
    out.push(scenario("failing optimiser, vector", |ctx| {
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
        let k = 1 + ctx.choose(if ctx.thorough { 5 } else { 4 });
        let mask = ctx.choose(1 << k);
        let op = ctx.choose(3);
        let j = ctx.choose(k);
        let fails: Vec<usize> = (0..k).filter(|i| mask >> i & 1 == 1).collect();
        let rec = Recorder::failing(fails.clone());
        let calls = rec.calls.clone();
        let mut fa = LFA::vector(mock(2, move |x| build(kind, &[x[0], 2.0])), rec, k);
        let r = match op {
            0 => guarded("update", || fa.update(&[1.0][..], vec![0.5; k]))?,
            1 => guarded("update_with", || fa.update_with(&[1.0][..], |_, v| 1.0 - v))?,
            _ => guarded("update_index", || fa.update_index(&[1.0][..], j, 0.5))?,
        };
        ctx.step();
        let made = calls.borrow().len();
        ctx.state_here((k, mask, r.is_ok(), fa.weights.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        let hit: Vec<usize> = fails.iter().copied().filter(|f| *f < made).collect();
        ctx.log(|| format!("operation {} on {} outputs, failing steps {:?}, {} made: {:?}", op, k, fails, made, r.is_ok()));
        match r {
            Ok(()) if hit.is_empty() => (),
            Ok(()) => return Err(format!("optimiser steps {:?} of {} failed and the update (operation {}) succeeded", hit, k, op)),
            Err(e) if hit.iter().any(|f| same_error(&e, &Recorder::error(*f))) => ctx.witness("failing step"),
            Err(e) => return Err(format!("the update reported {:?}; failing steps {:?}", e, hit)),
        }
        Ok(())
    }));
    out
}
