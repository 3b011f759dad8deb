//! Approximators and optimisers whose parts the caller replaces, moves or
//! edits between operations, or hands something that does not fit.
use crate::basis_util::*;
use crate::engine::*;
use crate::optim_util::*;
use crate::util::*;
use lfa::optim::Optimiser;
use lfa::LFA;
use ndarray::{s, Array1, Array2};

const SPECS: [Spec; 7] = [
    Spec::Sgd(0.5),
    Spec::Isgd(0.5),
    Spec::Mom(0.9, 0.5),
    Spec::Nag(0.9, 0.5),
    Spec::Adagrad(0.5),
    Spec::Adam(0.1, 0.9, 0.99),
    Spec::AdaMax(0.1, 0.9, 0.99),
];

const ROWS: [[f64; 3]; 3] = [[1.0, -2.0, 0.5], [0.0, 3.0, 0.25], [2.0, 0.0, 0.0]];

fn row(basis: usize, n: usize, x: usize) -> Vec<f64> {
    (0..n).map(|i| ROWS[(x + basis) % 3][i % 3] + (i / 3) as f64).collect()
}

fn part(basis: usize, n: usize, kind: Kind) -> Dyn {
    en(mock(n, move |x| build(kind, &row(basis, n, x[0] as usize))))
}

/// The same values in another buffer, laid out some way.
fn elsewhere(w: &Array1<f64>, how: usize) -> Array1<f64> {
    let n = w.len();
    match how {
        0 => Array1::from(w.to_vec()),
        1 => {
            let mut big = Array1::from_elem(2 * n + 1, 77.0);
            big.slice_mut(s![1..;2]).assign(w);
            big.slice_move(s![1..;2])
        }
        _ => {
            let mut back: Array1<f64> = w.iter().rev().copied().collect();
            back.invert_axis(ndarray::Axis(0));
            back
        }
    }
}

pub fn scalar(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for spec in SPECS {
        let depth = if t { 6 } else { 5 };
        out.push(scenario(format!("parts replaced between operations: {:?}", spec), move |ctx| {
            let n = *ctx.pick(&[2usize, 3, 40]);
            let depth = if n == 2 { depth } else { depth - 1 };
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
            let mut fa = LFA::scalar(part(0, n, kind), spec.build(n));
            // what it should be
            let (mut basis, mut o, mut w) = (0, spec.build(n), vec![0.0; n]);
            let mut h = vec![];
            for k in 0..depth {
                let op = if k == 0 { 0 } else { ctx.choose(9) };
                h.push(op);
                ctx.step();
                ctx.log(|| format!("operation {}", op));
                match op {
                    0 | 1 => {
                        let (x, e) = ([op as f64], [1.0, -0.5][op]);
                        guarded("update", || fa.update(&x[..], e))?.map_err(|e| e.to_string())?;
                        let mut v = Array1::from(w.clone());
                        o.step_scaled(&mut v.view_mut(), &build(kind, &row(basis, n, op)), e).map_err(|e| e.to_string())?;
                        w = v.to_vec();
                    }
                    2 => {
                        guarded("update_with", || fa.update_with(&[2.0][..], |_, y| 1.0 - y))?.map_err(|e| e.to_string())?;
                        let phi = row(basis, n, 2);
                        let e = 1.0 - dot(&phi, &w);
                        let mut v = Array1::from(w.clone());
                        o.step_scaled(&mut v.view_mut(), &build(kind, &phi), e).map_err(|e| e.to_string())?;
                        w = v.to_vec();
                    }
                    3..=5 => {
                        // moved, while the old ones are still there
                        let moved = elsewhere(&fa.weights, op - 3);
                        let old = std::mem::replace(&mut fa.weights, moved);
                        exact_vec("moved weights", &fa.weights.to_vec(), &old.to_vec())?;
                    }
                    6 => {
                        fa.weights[0] += 4.0;
                        w[0] += 4.0;
                    }
                    7 => {
                        fa.optimiser = spec.build(n);
                        o = spec.build(n);
                    }
                    _ => {
                        basis = (basis + 1) % 3;
                        fa.basis = part(basis, n, kind);
                    }
                }
                for x in 0..3 {
                    let y = guarded("evaluate", || fa.evaluate(&[x as f64][..]))?.map_err(|e| e.to_string())?;
                    expect(&format!("{:?}: value at {} after operations {:?}", spec, x, h), y, dot(&row(basis, n, x), &w))?;
                }
                expect_vec_tol(&format!("{:?}: weights after operations {:?}", spec, h), &fa.weights.to_vec(), &w, 1e-8, 1e-10)?;
                ctx.state_here((basis, kind, bits(&w)));
            }
            Ok(())
        }));
    }
    out
}

pub fn vector(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for spec in [Spec::Sgd(0.5), Spec::Isgd(0.5)] {
        let depth = if t { 6 } else { 5 };
        out.push(scenario(format!("parts replaced between operations: {:?}", spec), move |ctx| {
            let (n, k) = *ctx.pick(&[(2usize, 2usize), (3, 1), (3, 4)]);
            let depth = if k == 2 { depth } else { depth - 1 };
            let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
            let mut fa = LFA::vector(part(0, n, kind), spec.build(n), k);
            let (mut basis, mut w) = (0, vec![vec![0.0; n]; k]);
            let one = |w: &mut Vec<f64>, phi: &[f64], e: f64| -> Res {
                let mut v = Array1::from(w.clone());
                spec.build(n).step_scaled(&mut v.view_mut(), &build(kind, phi), e).map_err(|e| e.to_string())?;
                *w = v.to_vec();
                Ok(())
            };
            let mut h = vec![];
            for step in 0..depth {
                let op = if step == 0 { 0 } else { ctx.choose(9) };
                h.push(op);
                ctx.step();
                match op {
                    0 => {
                        let es: Vec<f64> = (0..w.len()).map(|j| 1.0 - 0.75 * j as f64).collect();
                        guarded("update", || fa.update(&[0.0][..], es.clone()))?.map_err(|e| e.to_string())?;
                        let phi = row(basis, n, 0);
                        w.iter_mut().zip(es).try_for_each(|(w, e)| one(w, &phi, e))?;
                    }
                    1 => {
                        let j = w.len() - 1;
                        guarded("update_index", || fa.update_index(&[1.0][..], j, -0.5))?.map_err(|e| e.to_string())?;
                        one(&mut w[j], &row(basis, n, 1), -0.5)?;
                    }
                    2 => {
                        guarded("update_with", || fa.update_with(&[2.0][..], |_, y| 1.0 - y))?.map_err(|e| e.to_string())?;
                        let phi = row(basis, n, 2);
                        w.iter_mut().try_for_each(|w| {
                            let e = 1.0 - dot(&phi, w);
                            one(w, &phi, e)
                        })?;
                    }
                    3 => fa.weights = fa.weights.t().to_owned().reversed_axes(),
                    4 => {
                        let (r, c) = fa.weights.dim();
                        let mut big = Array2::from_elem((r + 2, 2 * c), 77.0);
                        big.slice_mut(s![1..r + 1, ..;2]).assign(&fa.weights);
                        fa.weights = big.slice_move(s![1..r + 1, ..;2]);
                    }
                    5 => {
                        fa.weights[(n - 1, 0)] -= 3.0;
                        w[0][n - 1] -= 3.0;
                    }
                    6 => {
                        // one more output
                        let fresh: Vec<f64> = (0..n).map(|i| i as f64 - 0.5).collect();
                        let (r, c) = fa.weights.dim();
                        fa.weights = Array2::from_shape_fn((r, c + 1), |(i, j)| if j < c { fa.weights[(i, j)] } else { fresh[i] });
                        w.push(fresh);
                    }
                    7 => {
                        if w.len() > 1 {
                            // one less, and the others in reverse
                            fa.weights = fa.weights.slice(s![.., 1..;-1]).to_owned();
                            w.remove(0);
                            w.reverse();
                        }
                    }
                    _ => {
                        basis = (basis + 1) % 3;
                        fa.basis = part(basis, n, kind);
                    }
                }
                let what = format!("{:?}: after operations {:?}", spec, h);
                expect_eq(&format!("{}: outputs", what), fa.n_outputs(), w.len())?;
                for x in 0..3 {
                    let phi = row(basis, n, x);
                    let want: Vec<f64> = w.iter().map(|w| dot(&phi, w)).collect();
                    let y = guarded("evaluate", || fa.evaluate(&[x as f64][..]))?.map_err(|e| e.to_string())?;
                    expect_vec(&format!("{}: values at {}", what, x), &y.to_vec(), &want)?;
                    expect_vec(&format!("{}: iter at {}", what, x), &fa.iter(&[x as f64][..]).collect::<Vec<_>>(), &want)?;
                    for j in 0..want.len() {
                        expect(&what, guarded("evaluate_index", || fa.evaluate_index(&[x as f64][..], j))?.map_err(|e| e.to_string())?, want[j])?;
                    }
                }
                ctx.state_here((basis, kind, w.iter().map(|w| bits(w)).collect::<Vec<_>>()));
            }
            Ok(())
        }));
    }
    out
}

/// Histories in which some steps are given what does not fit, and may refuse
/// it with a panic; then a reset.
pub fn refused_steps() -> Vec<Scenario> {
    let mut out = vec![];
    for spec in SPECS {
        out.push(scenario(format!("reset after refused steps: {:?}", spec), move |ctx| {
            let n = *ctx.pick(&[2usize, 3]);
            let mut o = spec.build(n);
            let mut w = Array1::from(vec![0.5; n]);
            for _ in 0..2 + ctx.choose(2) {
                let op = ctx.choose(8);
                ctx.step();
                let len = if op == 6 { n - 1 } else if op == 7 { n + 2 } else { n };
                let mut v = Array1::from(vec![0.25; len]);
                let f = match op {
                    0 | 6 | 7 => build(Kind::Dense, &row(0, n, 0)),
                    1 => build(Kind::Sparse, &row(0, n, 1)),
                    2 => build(Kind::Dense, &row(0, n + 2, 1)),
                    3 => build(Kind::Dense, &row(0, n + 3, 0)[..n - 1].to_vec()),
                    4 => build(Kind::Dense, &[]),
                    _ => lfa::Features::sparse(n + 5, vec![(0, 1.0), (n + 3, 2.0)]),
                };
                let done = guarded("step", || o.step_scaled(&mut v.view_mut(), &f, -0.5));
                if op < 2 {
                    done?.map_err(|e| e.to_string())?;
                } else if done.is_err() {
                    ctx.witness("refused");
                }
            }
            guarded("reset", || o.reset())?;
            let mut fresh = spec.build(n);
            expect_eq(&format!("{:?}: equal to a new one", spec), o.same(&fresh), true)?;
            let mut v = w.clone();
            for (x, e) in [(0, 1.0), (1, -0.5), (2, 2.0)] {
                let f = build([Kind::Dense, Kind::Sparse][x % 2], &row(0, n, x));
                guarded("step after reset", || o.step_scaled(&mut w.view_mut(), &f, e))?.map_err(|e| e.to_string())?;
                guarded("step of a new optimiser", || fresh.step_scaled(&mut v.view_mut(), &f, e))?.map_err(|e| e.to_string())?;
                expect_vec("weights", &w.to_vec(), &v.to_vec())?;
                ctx.steps(2);
            }
            ctx.state((n, bits(&w.to_vec())));
            Ok(())
        }));
    }
    out
}
