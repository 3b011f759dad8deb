//! Weights that lie anywhere: in steps of any size through a buffer, forwards
//! or backwards, or in an array shared with others.
use crate::engine::*;
use crate::optim_util::Spec;
use crate::util::*;
use lfa::optim::Optimiser;
use lfa::{Features, LFA};
use ndarray::{s, Array1, Array2, ArrayViewMut1, CowArray, Ix1};

const STEPS: [isize; 14] = [1, 2, 3, 4, 5, 7, 8, 16, -1, -2, -3, -4, -7, -16];
const SIZES: [usize; 8] = [1, 2, 3, 4, 5, 8, 17, 33];
const SPECS: [Spec; 7] = [
    Spec::Sgd(0.5),
    Spec::Isgd(0.5),
    Spec::Mom(0.9, 0.5),
    Spec::Nag(0.9, 0.5),
    Spec::Adagrad(0.5),
    Spec::Adam(0.1, 0.9, 0.99),
    Spec::AdaMax(0.1, 0.9, 0.99),
];
const SENTINEL: f64 = -4321.5;

/// `n` elements `step` apart, from `offset` on, in a buffer of sentinels.
struct Spread {
    buf: Array1<f64>,
    offset: usize,
    step: isize,
    n: usize,
}

impl Spread {
    fn new(w: &[f64], offset: usize, step: isize) -> Self {
        let n = w.len();
        let mut s = Spread { buf: Array1::from_elem(offset + n * step.unsigned_abs() + 2, SENTINEL), offset, step, n };
        for i in 0..n {
            let at = s.at(i);
            s.buf[at] = w[i];
        }
        s
    }
    fn at(&self, i: usize) -> usize {
        let k = if self.step > 0 { i } else { self.n - 1 - i };
        self.offset + k * self.step.unsigned_abs()
    }
    fn end(&self) -> usize {
        self.offset + (self.n - 1) * self.step.unsigned_abs() + 1
    }
    fn view_mut(&mut self) -> ArrayViewMut1<'_, f64> {
        let end = self.end();
        self.buf.slice_mut(s![self.offset..end;self.step])
    }
    fn get(&self) -> Vec<f64> {
        (0..self.n).map(|i| self.buf[self.at(i)]).collect()
    }
    fn check(&self) -> Res {
        let own: std::collections::HashSet<usize> = (0..self.n).map(|i| self.at(i)).collect();
        match self.buf.iter().enumerate().find(|(i, x)| !own.contains(i) && **x != SENTINEL) {
            Some((i, x)) => Err(format!("element {} of the buffer, no weight, was changed to {}", i, x)),
            None => Ok(()),
        }
    }
    fn owned(self) -> Array1<f64> {
        let (from, to, step) = (self.offset, self.end(), self.step);
        self.buf.slice_move(s![from..to;step])
    }
}

fn values(n: usize, which: usize) -> Vec<f64> {
    (0..n)
        .map(|i| match which {
            0 => 0.75 * i as f64 - 1.0,
            1 => [0.0, 2.0, -3.5][i % 3],
            _ => (i + 1 == n) as usize as f64,
        })
        .collect()
}

fn start(n: usize) -> Vec<f64> {
    (0..n).map(|i| [2.0, -0.5, 3.0, 1.25, -7.0][i % 5] + (i / 5) as f64).collect()
}

pub fn reads_and_sums() -> Scenario {
    scenario("weights in steps of any size", |ctx| {
        let n = *ctx.pick(&SIZES);
        let step = *ctx.pick(&STEPS);
        let offset = *ctx.pick(&[0usize, 1, 3]);
        let kind = *ctx.pick(&KINDS);
        let v = values(n, ctx.choose(3));
        let w0 = start(n);
        ctx.log(|| format!("{:?} {:?}, weights {} apart from {}", kind, v, step, offset));
        let f = build(kind, &v);
        let plus = |a: f64| -> Vec<f64> { w0.iter().zip(&v).map(|(w, x)| w + a * x).collect() };
        let mut w = Spread::new(&w0, offset, step);
        expect("dot", f.dot(&w.view_mut().view()), dot(&w0, &v))?;
        guarded("addto", || f.addto(&mut w.view_mut()))?;
        expect_vec("addto", &w.get(), &plus(1.0))?;
        w.check()?;
        let mut w = Spread::new(&w0, offset, step);
        guarded("scaled_addto", || f.scaled_addto(-2.5, &mut w.view_mut()))?;
        expect_vec("scaled_addto", &w.get(), &plus(-2.5))?;
        w.check()?;
        ctx.steps(3);
        ctx.state((n, step, offset, kind, bits(&v)));
        Ok(())
    })
}

pub fn matrices() -> Scenario {
    scenario("matrices in steps of any size", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 3, 5]);
        let k = *ctx.pick(&[1usize, 2, 3, 5]);
        let (a, b) = (*ctx.pick(&[1isize, 2, 3, -1, -2, -3]), *ctx.pick(&[1isize, 2, 3, -1, -2, -3]));
        let columns_first = ctx.flag();
        let kind = *ctx.pick(&KINDS);
        let v = values(n, ctx.choose(3));
        let fill = |i: usize, j: usize| ((i * 3 + j * 5) % 7) as f64 - 2.5;
        let (ua, ub) = (a.unsigned_abs(), b.unsigned_abs());
        let put = |(i, j): (usize, usize)| {
            if i % ua != 0 || j % ub != 0 {
                return 9e9;
            }
            let (i, j) = (i / ua, j / ub);
            fill(if a > 0 { i } else { n - 1 - i }, if b > 0 { j } else { k - 1 - j })
        };
        let shape = ((n - 1) * ua + 1, (k - 1) * ub + 1);
        let big = if columns_first {
            Array2::from_shape_fn(shape, put)
        } else {
            Array2::from_shape_fn((shape.1, shape.0), |(j, i)| put((i, j))).reversed_axes()
        };
        let m = big.slice(s![..;a, ..;b]);
        let f = build(kind, &v);
        ctx.log(|| format!("{:?} {:?}, matrix {}x{}, steps {} and {}", kind, v, n, k, a, b));
        let want: Vec<f64> = (0..k).map(|j| (0..n).map(|i| v[i] * fill(i, j)).sum()).collect();
        expect_vec("matmul", &guarded("matmul", || f.matmul(&m))?.to_vec(), &want)?;
        let shared = m.to_shared();
        let other = shared.clone();
        expect_vec("matmul(shared)", &guarded("matmul", || f.matmul(&shared))?.to_vec(), &want)?;
        expect_eq("the other handle", other == m, true)?;
        ctx.steps(2);
        ctx.state((n, k, a, b, columns_first, kind, bits(&v)));
        Ok(())
    })
}

/// Weights in arrays that are shared with, or borrowed from, somebody.
pub fn shared() -> Scenario {
    scenario("weights shared with others", |ctx| {
        let n = *ctx.pick(&SIZES);
        let kind = *ctx.pick(&KINDS);
        let v = values(n, ctx.choose(3));
        let dynamic = ctx.flag();
        let step = *ctx.pick(&[1isize, 2, -1]);
        let w0 = start(n);
        let f = build(kind, &v);
        let plus = |a: f64| -> Vec<f64> { w0.iter().zip(&v).map(|(w, x)| w + a * x).collect() };
        ctx.log(|| format!("{:?} {:?}, step {}, dynamic {}", kind, v, step, dynamic));
        let base = Spread::new(&w0, 1, step).owned();
        if dynamic {
            let before = base.clone().into_dyn().into_shared();
            let mut w = before.clone();
            guarded("addto", || f.addto(&mut w))?;
            expect_vec("addto", &w.iter().copied().collect::<Vec<_>>(), &plus(1.0))?;
            let mut w = before.clone();
            guarded("scaled_addto", || f.scaled_addto(-2.5, &mut w))?;
            expect_vec("scaled_addto", &w.iter().copied().collect::<Vec<_>>(), &plus(-2.5))?;
            exact_vec("the other handle", &before.iter().copied().collect::<Vec<_>>(), &w0)?;
        } else {
            let before = base.clone().into_shared();
            let mut w = before.clone();
            expect("dot", f.dot(&w), dot(&w0, &v))?;
            guarded("addto", || f.addto(&mut w))?;
            expect_vec("addto", &w.to_vec(), &plus(1.0))?;
            let mut w = before.clone();
            guarded("scaled_addto", || f.scaled_addto(-2.5, &mut w))?;
            expect_vec("scaled_addto", &w.to_vec(), &plus(-2.5))?;
            exact_vec("the other handle", &before.to_vec(), &w0)?;
        }
        let mut w: CowArray<'_, f64, Ix1> = CowArray::from(base.view());
        expect("dot", f.dot(&w), dot(&w0, &v))?;
        guarded("addto", || f.addto(&mut w))?;
        expect_vec("addto", &w.to_vec(), &plus(1.0))?;
        let mut w: CowArray<'_, f64, Ix1> = CowArray::from(base.view());
        guarded("scaled_addto", || f.scaled_addto(-2.5, &mut w))?;
        expect_vec("scaled_addto", &w.to_vec(), &plus(-2.5))?;
        exact_vec("what was borrowed", &base.to_vec(), &w0)?;
        ctx.steps(6);
        ctx.state((n, kind, dynamic, step, bits(&v)));
        Ok(())
    })
}

/// The same for every optimiser, against contiguous weights.
pub fn steps() -> Scenario {
    scenario("weights in steps of any size", |ctx| {
        let spec = *ctx.pick(&SPECS);
        let n = *ctx.pick(&[1usize, 2, 3, 5, 17]);
        let step = *ctx.pick(&STEPS);
        let offset = *ctx.pick(&[0usize, 3]);
        let kind = *ctx.pick(&KINDS);
        let w0 = start(n);
        ctx.log(|| format!("{:?} with {:?} features, {} weights {} apart from {}", spec, kind, n, step, offset));
        let (mut a, mut b) = (spec.build(n), spec.build(n));
        let mut w = Spread::new(&w0, offset, step);
        let mut plain = Array1::from(w0.clone());
        for (which, scale) in [(0, 0.5), (2, -2.0), (1, 1.0)] {
            let v = values(n, which);
            let twin = if kind.is_sparse() { kind } else { Kind::Dense };
            guarded("step", || a.step_scaled(&mut w.view_mut(), &build(kind, &v), scale))?.map_err(|e| e.to_string())?;
            guarded("step", || b.step_scaled(&mut plain.view_mut(), &build(twin, &v), scale))?.map_err(|e| e.to_string())?;
            expect_vec_tol("weights, against contiguous ones", &w.get(), &plain.to_vec(), 1e-8, 1e-10)?;
            w.check()?;
            ctx.steps(2);
        }
        ctx.state((spec.name(), n, step, offset, kind));
        Ok(())
    })
}

/// Scalar approximators whose weights the caller has laid out.
pub fn scalar() -> Scenario {
    scenario("weights in steps of any size", |ctx| {
        let spec = *ctx.pick(&SPECS);
        let n = *ctx.pick(&[1usize, 2, 3, 5, 17]);
        let step = *ctx.pick(&STEPS);
        let kind = *ctx.pick(&KINDS);
        let w0 = start(n);
        let v = values(n, 1);
        let basis = {
            let v = v.clone();
            lfa::basis::Closure::new(n, move |_: f64| -> lfa::Result<Features> { Ok(build(kind, &v)) })
        };
        let mut fa = LFA::new(basis, Spread::new(&w0, 1, step).owned(), spec.build(n));
        let mut by_hand = spec.build(n);
        let mut plain = Array1::from(w0);
        for e in [0.5, -2.0] {
            expect("evaluate", fa.evaluate(0.0).map_err(|e| e.to_string())?, dot(&plain.to_vec(), &v))?;
            guarded("update", || fa.update(0.0, e))?.map_err(|e| e.to_string())?;
            by_hand.step_scaled(&mut plain.view_mut(), &build(kind, &v), e).map_err(|e| e.to_string())?;
            expect_vec_tol("weights", &fa.weights.to_vec(), &plain.to_vec(), 1e-8, 1e-10)?;
            ctx.steps(2);
        }
        guarded("update_with", || fa.update_with(0.0, |_, y| 1.0 - y))?.map_err(|e| e.to_string())?;
        let e = 1.0 - dot(&plain.to_vec(), &v);
        by_hand.step_scaled(&mut plain.view_mut(), &build(kind, &v), e).map_err(|e| e.to_string())?;
        expect_vec_tol("weights", &fa.weights.to_vec(), &plain.to_vec(), 1e-8, 1e-9)?;
        ctx.state((spec.name(), n, step, kind));
        Ok(())
    })
}

/// Approximators with several outputs whose weights the caller has laid out.
pub fn vector() -> Scenario {
    scenario("weights in steps of any size", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 3]);
        let k = *ctx.pick(&[1usize, 2, 3, 5]);
        let (a, b) = (*ctx.pick(&[1isize, 2, 3, -1, -2, -3]), *ctx.pick(&[1isize, 2, 3, -1, -2, -3]));
        let columns_first = ctx.flag();
        let kind = *ctx.pick(&KINDS);
        let v = values(n, 0);
        let (ua, ub) = (a.unsigned_abs(), b.unsigned_abs());
        let shape = ((n - 1) * ua + 1, (k - 1) * ub + 1);
        let big = if columns_first { Array2::zeros(shape) } else { Array2::zeros((shape.1, shape.0)).reversed_axes() };
        let mut w = big.slice_move(s![..;a, ..;b]);
        let mut plain: Vec<Vec<f64>> = (0..k).map(|j| (0..n).map(|i| (i * 3 + j * 5) as f64 - 2.5).collect()).collect();
        for j in 0..k {
            for i in 0..n {
                w[(i, j)] = plain[j][i];
            }
        }
        let basis = {
            let v = v.clone();
            lfa::basis::Closure::new(n, move |_: f64| -> lfa::Result<Features> { Ok(build(kind, &v)) })
        };
        let mut fa = LFA::new(basis, w, lfa::optim::SGD(0.5));
        let add = |p: &mut Vec<f64>, e: f64| p.iter_mut().zip(&v).for_each(|(w, x)| *w += 0.5 * e * x);
        let es: Vec<f64> = (0..k).map(|j| 1.0 - 0.75 * j as f64).collect();
        guarded("update", || fa.update(0.0, es.clone()))?.map_err(|e| e.to_string())?;
        plain.iter_mut().zip(&es).for_each(|(p, e)| add(p, *e));
        guarded("update_index", || fa.update_index(0.0, k - 1, 3.0))?.map_err(|e| e.to_string())?;
        add(&mut plain[k - 1], 3.0);
        let values: Vec<f64> = plain.iter().map(|p| dot(p, &v)).collect();
        guarded("update_with", || fa.update_with(0.0, |_, y| 1.0 - y))?.map_err(|e| e.to_string())?;
        plain.iter_mut().zip(&values).for_each(|(p, y)| add(p, 1.0 - y));
        for j in 0..k {
            expect_vec(&format!("weights of output {}", j), &fa.weights.column(j).to_vec(), &plain[j])?;
            expect("evaluate_index", fa.evaluate_index(0.0, j).map_err(|e| e.to_string())?, dot(&plain[j], &v))?;
        }
        let want: Vec<f64> = plain.iter().map(|p| dot(p, &v)).collect();
        expect_vec("evaluate", &fa.evaluate(0.0).map_err(|e| e.to_string())?.to_vec(), &want)?;
        expect_vec("iter", &fa.iter(0.0).collect::<Vec<_>>(), &want)?;
        ctx.steps(5 + k);
        ctx.state((n, k, a, b, columns_first, kind));
        Ok(())
    })
}
