//! C20-C23: optimisers against their published recurrences.
use crate::engine::*;
use crate::optim_util::*;
use crate::util::*;
use lfa::optim::Optimiser;
use lfa::{Features, SparseActivations};

#[derive(Clone, Debug)]
pub struct Op {
    pub phi: Vec<f64>,
    pub kind: Kind,
    /// None: the plain `step`.
    pub scale: Option<f64>,
}

impl Op {
    fn s(&self) -> f64 {
        self.scale.unwrap_or(1.0)
    }
    fn run(&self, what: &str, o: &mut Opt, w: &mut Weights) -> Res {
        let f = build(self.kind, &self.phi);
        apply(what, o, w, &f, self.scale)?;
        // The gradient is an input, not a workspace.
        same_features(&format!("{}: the feature vector afterwards", what), &f, &self.phi)
    }
}

fn apply(what: &str, o: &mut Opt, w: &mut Weights, f: &Features, scale: Option<f64>) -> Res {
    guarded(what, || {
        let mut v = w.view_mut();
        match scale {
            None => o.step(&mut v, f),
            Some(s) => o.step_scaled(&mut v, f, s),
        }
    })?
    .map_err(|e| format!("{} failed: {}", what, e))
}

/// A run of the implementation next to a run of the model.
struct Pair {
    o: Opt,
    m: Model,
    w: Weights,
    mw: Vec<f64>,
    /// Largest magnitude seen: the unit of the absolute tolerance.
    big: f64,
    /// Largest magnitudes seen coordinate by coordinate, if they are the unit instead.
    peaks: Option<Vec<f64>>,
    k: usize,
}

impl Pair {
    fn new(spec: Spec, w0: &[f64]) -> Pair {
        Pair {
            o: spec.build(w0.len()),
            m: spec.model(w0.len()),
            w: Weights::new(Layout::Contiguous, w0),
            mw: w0.to_vec(),
            big: w0.iter().fold(1.0, |a: f64, x| a.max(x.abs())),
            peaks: None,
            k: 0,
        }
    }

    /// From zero weights, however small the steps are.
    fn faint(spec: Spec, n: usize) -> Pair {
        Pair { peaks: Some(vec![0.0; n]), ..Pair::new(spec, &vec![0.0; n]) }
    }

    fn step(&mut self, ctx: &mut Ctx, op: &Op) -> Res {
        self.k += 1;
        let k = self.k;
        ctx.log(|| format!("step {}: {:?}", k, op));
        op.run("step", &mut self.o, &mut self.w)?;
        ctx.step();
        let before = self.mw.clone();
        let l: Vec<bool> = match op.kind {
            Kind::Sparse => op.phi.iter().map(|x| *x != 0.0).collect(),
            _ => vec![true; op.phi.len()],
        };
        self.m.step(&mut self.mw, &op.phi, &l, op.s());
        for x in self.mw.iter() {
            self.big = self.big.max(x.abs());
        }
        let got = self.w.get();
        ctx.state_here(bits(&got));
        ctx.log(|| format!("  weights {:?}", got));
        let what = format!("{:?}: weights after step {} ({:?}) from {:?}", self.m.spec, k, op, before);
        if let Some(peaks) = &mut self.peaks {
            for (p, x) in peaks.iter_mut().zip(&self.mw) {
                *p = p.max(x.abs());
            }
            for i in 0..got.len().min(peaks.len()) {
                if !close_tol(got[i], self.mw[i], 1e-8, 1e-10 * peaks[i]) {
                    return Err(format!("{}: got {:?}, want {:?}", what, got, self.mw));
                }
            }
            return expect_eq(&what, got.len(), self.mw.len());
        }
        expect_vec_tol(
            &what,
            &got,
            &self.mw,
            1e-8,
            1e-10 * self.big,
        )
    }
}

/// Magnitudes of weights to start from.
const STARTS: [f64; 12] = [0.0, 1e-320, 1e-300, 1e-12, 1e-6, 0.1, 999.0, 1e4, 1e7, 1e12, 1e100, 1e300];

const W0: [f64; 4] = [0.3, -0.7, 0.0, 5.0];

fn w0(n: usize) -> Vec<f64> {
    (0..n).map(|i| if i < 4 { W0[i] } else { 0.1 * (i as f64) - 1.0 }).collect()
}

fn ops(vectors: &[&[f64]], kinds: &[Kind], scales: &[Option<f64>]) -> Vec<Op> {
    let mut v = vec![];
    for p in vectors {
        for k in kinds {
            for s in scales {
                v.push(Op { phi: p.to_vec(), kind: *k, scale: *s });
            }
        }
    }
    v
}

fn all_vectors(n: usize, alphabet: &[f64]) -> Vec<Vec<f64>> {
    let mut out: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p| {
                alphabet.iter().map(move |x| {
                    let mut q = p.clone();
                    q.push(*x);
                    q
                })
            })
            .collect();
    }
    out
}

fn wide(n: usize, t: bool) -> Vec<Op> {
    let alphabet: &[f64] = if t { &[0.0, 1.0, -0.5, 3.0] } else { &[0.0, 1.0, -0.5] };
    let vs = all_vectors(n, alphabet);
    let r: Vec<&[f64]> = vs.iter().map(|v| &v[..]).collect();
    ops(&r, &[Kind::Dense, Kind::Sparse, Kind::SparseFull], &[None, Some(1.0), Some(-0.5), Some(0.0), Some(3.0)])
}

fn narrow() -> Vec<Op> {
    ops(&[&[1.0, 0.0], &[0.0, 1.0], &[1.0, -0.5]], &[Kind::Dense, Kind::Sparse], &[None, Some(-2.0)])
}

/// Magnitudes at which the 1e-7 of the denominators matters.
fn extreme() -> Vec<Op> {
    ops(
        &[&[1e-7, 1.0], &[1e-4, 1e4], &[0.0, 1e-7], &[1e3, -1e-3]],
        &[Kind::Dense, Kind::Sparse],
        &[None, Some(-0.01), Some(1e-6)],
    )
}

fn histories(name: String, spec: Spec, n: usize, alphabet: Vec<Op>, depth: usize) -> Scenario {
    scenario(name, move |ctx| {
        let mut p = Pair::new(spec, &w0(n));
        for _ in 0..depth {
            let i = ctx.choose(alphabet.len());
            p.step(ctx, &alphabet[i])?;
        }
        Ok(())
    })
}

fn key(s: &Spec) -> String {
    format!("{:?}", s)
}

pub fn c20(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for spec in all_specs(t) {
        let main = specs().contains(&spec);
        let k = key(&spec);
        for n in 1..=3 {
            let depth = match (n, t) {
                (1, _) => 3,
                (2, true) => 3,
                (2, false) => 2,
                (3, true) => 2,
                _ => 1,
            };
            out.push(histories(format!("{} wide n={} depth={}", k, n, depth), spec, n, wide(n, t && n < 3), depth));
        }
        let depth = match (main, t) {
            (true, true) => 6,
            (false, true) => 5,
            (true, false) => 5,
            _ => 4,
        };
        out.push(histories(format!("{} narrow depth={}", k, depth), spec, 2, narrow(), depth));
        out.push(histories(format!("{} extreme", k), spec, 2, extreme(), if t { 4 } else { 3 }));
        // Few operations, long histories.
        let few = vec![
            Op { phi: vec![1.0, 0.0], kind: Kind::Dense, scale: Some(0.5) },
            Op { phi: vec![0.0, 2.0], kind: Kind::Sparse, scale: Some(-1.0) },
            Op { phi: vec![1.0, 1.0], kind: Kind::Sparse, scale: None },
        ];
        out.push(histories(format!("{} deep", k), spec, 2, few.clone(), if t { 12 } else { 9 }));
        // A long horizon of one operation with deviations.
        let horizon = if t { 600 } else { 300 };
        let devs = if t && main { 2 } else { 1 };
        let f2 = few.clone();
        out.push(scenario(format!("{} horizon={} deviations<={}", k, horizon, devs), move |ctx| {
            let base = ctx.choose(f2.len() + 1);
            // Deviation positions are dense early on and sparser later.
            let positions: Vec<usize> = (0..16).chain((16..horizon).step_by(if devs == 2 { 29 } else { 7 })).chain([horizon]).collect();
            let mut at: Vec<(usize, usize)> = vec![];
            let mut from = 0;
            for _ in 0..devs {
                let j = from + ctx.choose(positions.len() - from);
                if positions[j] == horizon {
                    break;
                }
                at.push((positions[j], ctx.choose(f2.len())));
                from = j + 1;
            }
            let mut p = Pair::new(spec, &w0(2));
            for i in 0..horizon {
                let op = match at.iter().find(|a| a.0 == i) {
                    Some(a) => &f2[a.1],
                    None if base < f2.len() => &f2[base],
                    // round robin
                    None => &f2[i % f2.len()],
                };
                p.step(ctx, op)?;
            }
            Ok(())
        }));
        // Very long runs without deviations, and with a rare second operation.
        let f3 = few.clone();
        out.push(scenario(format!("{} very long", k), move |ctx| {
            let len = if ctx.thorough { 20_000 } else { 5_000 };
            let a = ctx.choose(f3.len());
            let b = ctx.choose(f3.len());
            let every = *ctx.pick(&[2usize, 97, 1000]);
            let mut p = Pair::new(spec, &w0(2));
            for i in 0..len {
                let op = if i % every == every - 1 { &f3[b] } else { &f3[a] };
                p.step(ctx, op)?;
            }
            Ok(())
        }));
        // Past sixteen-bit counters.
        let f4 = few.clone();
        out.push(scenario(format!("{} longer than 65536 steps", k), move |ctx| {
            let a = ctx.choose(f4.len().min(4));
            let mut p = Pair::new(spec, &w0(2));
            for i in 0..66_000 {
                p.step(ctx, &f4[if i % 1000 == 999 { (a + 1) % f4.len() } else { a }])?;
            }
            Ok(())
        }));
        // Magnitudes far from one.
        let mags = [1e-12, 1e-5, 2e3, -1e8, 3e20];
        out.push(scenario(format!("{} magnitudes", k), move |ctx| {
            let mut p = Pair::new(spec, &[0.25, 1e3]);
            for _ in 0..2 {
                let (a, b) = (*ctx.pick(&mags), *ctx.pick(&[0.0, 1.0, -1e6]));
                let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::SparseFull]);
                let scale = Some(*ctx.pick(&[1.0, -1e-9, 1e5]));
                p.step(ctx, &Op { phi: vec![a, b], kind, scale })?;
            }
            Ok(())
        }));
        // From any weights, each coordinate held to its own magnitude.
        out.push(scenario(format!("{} any start", k), move |ctx| {
            let start = [*ctx.pick(&STARTS), -*ctx.pick(&STARTS)];
            let mut p = Pair::new(spec, &start);
            p.peaks = Some(start.iter().map(|x| x.abs()).collect());
            let ops = narrow();
            for _ in 0..2 {
                let i = ctx.choose(ops.len());
                p.step(ctx, &ops[i])?;
            }
            p.step(ctx, &Op { phi: vec![0.0, 0.0], kind: Kind::Dense, scale: None })?;
            p.step(ctx, &Op { phi: vec![-2.0, 3.0], kind: Kind::Dense, scale: Some(1e3) })
        }));
        // The weights are the caller's: between steps they are replaced, moved
        // to other memory or swapped with others.
        let depth = if t { 5 } else { 4 };
        out.push(scenario(format!("{} weights edited between steps", k), move |ctx| {
            let ops = narrow();
            let mut p = Pair::new(spec, &w0(2));
            p.big = 1e4;
            let mut other = vec![-3.0, 8.0];
            for _ in 0..depth {
                match ctx.choose(4) {
                    0 => {}
                    1 => p.mw = vec![0.0; 2],
                    2 => p.mw = vec![-1e4, 0.125],
                    _ => std::mem::swap(&mut p.mw, &mut other),
                }
                let layout = *ctx.pick(&[Layout::Contiguous, Layout::Column]);
                p.w = Weights::new(layout, &p.mw);
                let i = *ctx.pick(&[0usize, 3, 5]);
                p.step(ctx, &ops[i])?;
            }
            Ok(())
        }));
        // Faint steps, which show in small weights only.
        let depth = if t { 3 } else { 2 };
        out.push(scenario(format!("{} faint steps", k), move |ctx| {
            let mut p = Pair::faint(spec, 2);
            for i in 0..depth {
                let (a, b) = (*ctx.pick(&[1e-12, 1e-9, -1e-7, 1e-5]), *ctx.pick(&[0.0, 1e-8, -1e-4]));
                let kind = if i < 2 { *ctx.pick(&[Kind::Dense, Kind::Sparse]) } else { Kind::SparseFull };
                let scale = *ctx.pick(&[None, Some(-1e-6), Some(1e-3)]);
                p.step(ctx, &Op { phi: vec![a, b], kind, scale })?;
            }
            // and one that does not vanish next to 1e-7
            p.step(ctx, &Op { phi: vec![1e-6, -0.5], kind: Kind::Dense, scale: None })
        }));
        // Other sizes.
        let sizes: Vec<usize> = if t {
            (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 257, 513, 1000, 1025, 4097]).collect()
        } else {
            vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65, 100, 128, 130, 257, 513, 1000, 1025]
        };
        out.push(scenario(format!("{} sizes", k), move |ctx| {
            let n = *ctx.pick(&sizes);
            let vs = size_vectors(n);
            let mut p = Pair::new(spec, &w0(n));
            for _ in 0..2 {
                let i = ctx.choose(vs.len());
                let kind = *ctx.pick(&KINDS4);
                p.step(ctx, &Op { phi: vs[i].clone(), kind, scale: Some(-0.75) })?;
            }
            let phi: Vec<f64> = (0..n).map(|i| ((i * 7 + 3) % 5) as f64 - 2.0).collect();
            p.step(ctx, &Op { phi, kind: Kind::Dense, scale: None })?;
            Ok(())
        }));
    }
    // A grid of hyper-parameters.
    for family in FAMILIES {
        out.push(scenario(format!("{} hyper-parameters", family), move |ctx| {
            let spec = any_spec(ctx, family);
            let few = [
                Op { phi: vec![1.0, -2.0], kind: Kind::Dense, scale: Some(0.5) },
                Op { phi: vec![0.0, 2.0], kind: Kind::Sparse, scale: Some(-1.0) },
                Op { phi: vec![0.25, 1.0], kind: Kind::SparseFull, scale: None },
            ];
            let mut p = Pair::new(spec, &w0(2));
            for _ in 0..if ctx.thorough { 5 } else { 4 } {
                let op = ctx.pick(&few).clone();
                p.step(ctx, &op)?;
            }
            Ok(())
        }));
    }
    out
}

const FAMILIES: [&str; 7] = ["SGD", "ISGD", "SGDMomentum", "NAG", "Adagrad", "Adam", "AdaMax"];

/// Every optimiser of a family over a grid of hyper-parameters, those of an
/// ascent (negative rates) and of damped or unstable momentum among them.
fn any_spec(ctx: &mut Ctx, family: &str) -> Spec {
    let rates = [1e-6, 0.001, 0.01, 0.3, 1.0, 2.0, 50.0, 0.0, 1e-12, 1e5, -0.3];
    let decays = [0.0, 0.001, 0.1, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9999, 1e-9, 0.999999];
    let momenta = [0.0, 0.001, 0.1, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9999, 1e-9, 0.999999, 1.0, 1.25, -0.5, -0.9, -1.0];
    let lr = *ctx.pick(&rates);
    match family {
        "SGD" => Spec::Sgd(lr),
        "ISGD" => Spec::Isgd(lr),
        "SGDMomentum" => Spec::Mom(*ctx.pick(&momenta), lr),
        "NAG" => Spec::Nag(*ctx.pick(&momenta), lr),
        "Adagrad" => Spec::Adagrad(lr),
        "Adam" => Spec::Adam(lr, *ctx.pick(&decays), *ctx.pick(&decays)),
        _ => Spec::AdaMax(lr, *ctx.pick(&decays), *ctx.pick(&decays)),
    }
}

fn size_vectors(n: usize) -> Vec<Vec<f64>> {
    let mut v = vec![
        (0..n).map(|i| i as f64 * 0.5 - 2.0).collect::<Vec<f64>>(),
        (0..n).map(|i| if i % 3 == 0 { 0.0 } else { 0.25 * (i as f64 + 1.0) }).collect(),
        vec![0.0; n],
        vec![1.0; n],
    ];
    if n > 0 {
        let mut u = vec![0.0; n];
        u[n - 1] = 1.5;
        v.push(u);
    }
    v
}

// ---------------------------------------------------------------------- C21

/// The storage forms among which the weights must not differ.
fn equivalent_kinds(spec: &Spec, phi: &[f64]) -> Vec<Kind> {
    KINDS
        .iter()
        .copied()
        .filter(|k| *k != Kind::Sparse || !spec.lazy() || phi.iter().all(|x| *x != 0.0))
        .collect()
}

fn insertion(order: &[usize], phi: &[f64], cap: usize, zeros: bool) -> Features {
    let mut m = SparseActivations { dim: phi.len(), activations: Default::default() };
    m.activations.reserve(cap);
    for i in order {
        if zeros || phi[*i] != 0.0 {
            m.activations.insert(*i, phi[*i]);
        }
    }
    Features::Sparse(m)
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn c21(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for family in FAMILIES {
        out.push(scenario(format!("{} any hyper-parameters", family), move |ctx| {
            let spec = any_spec(ctx, family);
            let layout = *ctx.pick(&[Layout::Contiguous, Layout::Column, Layout::Reversed]);
            let vs = [vec![1.0, -2.0], vec![0.0, 2.0], vec![0.25, 0.0]];
            let mut reference = (spec.build(2), Weights::new(Layout::Contiguous, &w0(2)));
            let mut other = (spec.build(2), Weights::new(layout, &w0(2)));
            let mut big = 1.0f64;
            for _ in 0..2 {
                let v = ctx.pick(&vs).clone();
                let kind = *ctx.pick(&equivalent_kinds(&spec, &v));
                let scale = *ctx.pick(&[None, Some(-2.0)]);
                Op { phi: v.clone(), kind: Kind::Dense, scale }.run("step (dense)", &mut reference.0, &mut reference.1)?;
                Op { phi: v.clone(), kind, scale }.run("step", &mut other.0, &mut other.1)?;
                ctx.steps(2);
                other.1.check_surroundings()?;
                ctx.state_here((layout, bits(&other.1.get())));
                big = reference.1.get().iter().fold(big, |a, x| a.max(x.abs()));
                expect_vec_tol(&format!("{:?}, {:?} on {:?}", spec, v, layout), &other.1.get(), &reference.1.get(), 1e-8, 1e-10 * big)?;
            }
            Ok(())
        }));
    }
    for spec in if t { all_specs(false) } else { specs() } {
        let k = key(&spec);
        // All assignments of storage forms to the steps of all histories.
        for (n, depth) in if t { vec![(1, 4), (2, 3), (3, 3)] } else { vec![(1, 3), (2, 3), (3, 2)] } {
            let vs: Vec<Vec<f64>> = match n {
                1 => vec![vec![0.0], vec![1.0], vec![-0.5]],
                2 => vec![vec![1.0, 0.0], vec![0.0, 0.0], vec![-0.5, 2.0]],
                _ => vec![vec![1.0, 0.0, -3.0], vec![0.0, 2.0, 0.0], vec![-0.5, 2.0, 1.0], vec![0.0, 0.0, 1.0]],
            };
            out.push(scenario(format!("{} storage n={} depth={}", k, n, depth), move |ctx| {
                let layout = *ctx.pick(&[Layout::Contiguous, Layout::Column, Layout::Reversed, Layout::Strided]);
                let mut reference = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
                let mut other = (spec.build(n), Weights::new(layout, &w0(n)));
                for _ in 0..depth {
                    let vi = ctx.choose(vs.len());
                    let kinds = equivalent_kinds(&spec, &vs[vi]);
                    let kind = *ctx.pick(&kinds);
                    let scale = *ctx.pick(&[None, Some(-2.0)]);
                    let a = Op { phi: vs[vi].clone(), kind: Kind::Dense, scale };
                    let b = Op { phi: vs[vi].clone(), kind, scale };
                    ctx.log(|| format!("{:?} on {:?}", b, layout));
                    a.run("step (dense)", &mut reference.0, &mut reference.1)?;
                    b.run("step", &mut other.0, &mut other.1)?;
                    ctx.steps(2);
                    other.1.check_surroundings()?;
                    ctx.state_here((layout, bits(&other.1.get())));
                    expect_vec_tol(
                        &format!("{:?} on {:?} weights after {:?}, against dense and contiguous", spec, layout, b),
                        &other.1.get(),
                        &reference.1.get(),
                        1e-8,
                        1e-10,
                    )?;
                }
                Ok(())
            }));
        }
        // Weight layouts, with feature vectors of either storage, all sizes.
        let sizes: Vec<usize> = if t { (0..=20).chain([31, 32, 33, 64, 65, 100, 128, 130, 257, 512, 1000, 1025, 4100]).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 128, 257, 1000, 1025] };
        out.push(scenario(format!("{} layouts", k), move |ctx| {
            let n = *ctx.pick(&sizes);
            let layout = *ctx.pick(&LAYOUTS);
            let vs = size_vectors(n);
            let mut reference = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
            let mut other = (spec.build(n), Weights::new(layout, &w0(n)));
            for _ in 0..2 {
                let v = ctx.pick(&vs).clone();
                let kind = *ctx.pick(&KINDS);
                let twin = if kind.is_sparse() { kind } else { Kind::Dense };
                let scale = Some(0.5);
                Op { phi: v.clone(), kind: twin, scale }.run("step", &mut reference.0, &mut reference.1)?;
                Op { phi: v.clone(), kind, scale }.run("step", &mut other.0, &mut other.1)?;
                ctx.steps(2);
                ctx.log(|| format!("{:?} {:?} on {:?}", kind, v, layout));
                other.1.check_surroundings()?;
                    ctx.state_here((layout, bits(&other.1.get())));
                expect_vec_tol(
                    &format!("{:?} on {:?} weights, n={}, {:?} features", spec, layout, n, kind),
                    &other.1.get(),
                    &reference.1.get(),
                    1e-8,
                    1e-10,
                )?;
                if !kind.is_sparse() || !spec.lazy() || kind == Kind::SparseFull {
                    // and the storage itself, on all sizes
                    let mut d = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
                    let mut s = (spec.build(n), Weights::new(layout, &w0(n)));
                    Op { phi: v.clone(), kind: Kind::Dense, scale }.run("step", &mut d.0, &mut d.1)?;
                    Op { phi: v.clone(), kind, scale }.run("step", &mut s.0, &mut s.1)?;
                    expect_vec_tol("storage", &s.1.get(), &d.1.get(), 1e-8, 1e-10)?;
                }
            }
            Ok(())
        }));
        // Magnitudes far from one, and long vectors with few entries.
        out.push(scenario(format!("{} magnitudes", k), move |ctx| {
            let layout = *ctx.pick(&[Layout::Contiguous, Layout::Column, Layout::Reversed]);
            let n = *ctx.pick(&[2usize, 40, 300]);
            let at = *ctx.pick(&[0usize, n / 2, n - 1]);
            let (a, b) = (*ctx.pick(&[1e-12, 1e-8, -1e-4, 1e5, 1e30]), *ctx.pick(&[0.0, 1e-9, 1.0, -1e9]));
            let mut phi = vec![0.0; n];
            phi[(at + 1) % n] = b;
            phi[at] = a;
            let scale = *ctx.pick(&[None, Some(1e-9), Some(-1e4)]);
            let mut reference = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
            for kind in equivalent_kinds(&spec, &phi) {
                reference = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
                let mut other = (spec.build(n), Weights::new(layout, &w0(n)));
                for step in 0..3 {
                    Op { phi: phi.clone(), kind: Kind::Dense, scale }.run("step", &mut reference.0, &mut reference.1)?;
                    Op { phi: phi.clone(), kind, scale }.run("step", &mut other.0, &mut other.1)?;
                    ctx.steps(2);
                    other.1.check_surroundings()?;
                    let want = reference.1.get();
                    let big = want.iter().fold(1.0f64, |a, x| a.max(x.abs()));
                    expect_vec_tol(&format!("{:?} step {} with {:?} features on {:?} weights", spec, step, kind, layout), &other.1.get(), &want, 1e-8, 1e-12 * big)?;
                }
            }
            ctx.state_here((layout, bits(&reference.1.get())));
            Ok(())
        }));
        // From any weights.
        out.push(scenario(format!("{} any start", k), move |ctx| {
            let layout = *ctx.pick(&LAYOUTS);
            let start = [*ctx.pick(&STARTS), -*ctx.pick(&STARTS)];
            let mut reference = (spec.build(2), Weights::new(Layout::Contiguous, &start));
            let mut other = (spec.build(2), Weights::new(layout, &start));
            let mut peaks = [start[0].abs(), start[1].abs()];
            for phi in [[1.0, 0.0], [-0.5, 2.0], [0.0, 0.0], [0.0, 1e3]] {
                let kinds = equivalent_kinds(&spec, &phi);
                let kind = *ctx.pick(&kinds);
                Op { phi: phi.to_vec(), kind: Kind::Dense, scale: Some(-2.0) }.run("step", &mut reference.0, &mut reference.1)?;
                Op { phi: phi.to_vec(), kind, scale: Some(-2.0) }.run("step", &mut other.0, &mut other.1)?;
                ctx.steps(2);
                other.1.check_surroundings()?;
                let (got, want) = (other.1.get(), reference.1.get());
                for i in 0..2 {
                    peaks[i] = peaks[i].max(want[i].abs());
                    if !close_tol(got[i], want[i], 1e-8, 1e-10 * peaks[i]) {
                        return Err(format!("{:?} from {:?} with {:?} features {:?} on {:?} weights: got {:?}, want {:?}", spec, start, kind, phi, layout, got, want));
                    }
                }
            }
            ctx.state_here((layout, bits(&other.1.get())));
            Ok(())
        }));
        // Faint steps, which show in small weights only.
        out.push(scenario(format!("{} faint steps", k), move |ctx| {
            let layout = *ctx.pick(&LAYOUTS);
            let mut reference = (spec.build(2), Weights::new(Layout::Contiguous, &[0.0, 0.0]));
            let mut other = (spec.build(2), Weights::new(layout, &[0.0, 0.0]));
            let mut peaks = [0.0f64; 2];
            for step in 0..2 {
                let phi = vec![*ctx.pick(&[1e-12, -1e-8, 1e-5]), *ctx.pick(&[0.0, 1e-9, -1e-4])];
                let kinds = equivalent_kinds(&spec, &phi);
                let kind = *ctx.pick(&kinds);
                let scale = *ctx.pick(&[None, Some(-1e-6)]);
                Op { phi: phi.clone(), kind: Kind::Dense, scale }.run("step", &mut reference.0, &mut reference.1)?;
                Op { phi: phi.clone(), kind, scale }.run("step", &mut other.0, &mut other.1)?;
                ctx.steps(2);
                other.1.check_surroundings()?;
                let (got, want) = (other.1.get(), reference.1.get());
                for i in 0..2 {
                    peaks[i] = peaks[i].max(want[i].abs());
                    if !close_tol(got[i], want[i], 1e-8, 1e-10 * peaks[i]) {
                        return Err(format!("{:?} step {} with {:?} features {:?} on {:?} weights: got {:?}, want {:?}", spec, step, kind, phi, layout, got, want));
                    }
                }
            }
            ctx.state_here((layout, bits(&other.1.get())));
            Ok(())
        }));
        // The order in which sparse entries were inserted, and the capacity
        // of the map, do not matter.
        let nmax = if t { 5 } else { 4 };
        out.push(scenario(format!("{} insertion orders", k), move |ctx| {
            let n = 1 + ctx.choose(nmax);
            let perms = permutations(n);
            let order = ctx.pick(&perms).clone();
            let cap = *ctx.pick(&[0usize, 64]);
            let zeros = ctx.flag();
            let phi: Vec<f64> = (0..n).map(|i| if i == 1 { 0.0 } else { 1.0 + i as f64 }).collect();
            let id: Vec<usize> = (0..n).collect();
            let mut reference = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
            let mut other = (spec.build(n), Weights::new(Layout::Column, &w0(n)));
            for s in [None, Some(-0.5), Some(2.0)] {
                apply("step", &mut reference.0, &mut reference.1, &insertion(&id, &phi, 0, zeros), s)?;
                apply("step", &mut other.0, &mut other.1, &insertion(&order, &phi, cap, zeros), s)?;
                ctx.steps(2);
                expect_vec_tol(&format!("{:?}: entries inserted in order {:?}", spec, order), &other.1.get(), &reference.1.get(), 1e-8, 1e-10)?;
            }
            ctx.state((key(&spec), order, cap, zeros));
            Ok(())
        }));
        // Long mixed histories: one storage sequence pattern against dense.
        out.push(scenario(format!("{} long mixed", k), move |ctx| {
            let pattern: Vec<usize> = (0..3).map(|_| ctx.choose(3)).collect();
            let layout = *ctx.pick(&LAYOUTS);
            let len = *ctx.pick(&[20usize, 150]);
            let n = 3;
            let mut reference = (spec.build(n), Weights::new(Layout::Contiguous, &w0(n)));
            let mut other = (spec.build(n), Weights::new(layout, &w0(n)));
            for i in 0..len {
                let phi = [[1.0, -0.5, 0.25], [0.0, 2.0, 0.0], [0.5, 0.0, -1.0], [0.0, 0.0, 0.0]][i % 4].to_vec();
                let mut kind = [Kind::Dense, Kind::Sparse, Kind::SparseFull][pattern[i % 3]];
                if kind == Kind::Sparse && spec.lazy() && phi.contains(&0.0) {
                    kind = Kind::SparseFull;
                }
                let scale = Some(if i % 5 == 4 { -1.0 } else { 0.5 });
                Op { phi: phi.clone(), kind: Kind::Dense, scale }.run("step", &mut reference.0, &mut reference.1)?;
                Op { phi, kind, scale }.run("step", &mut other.0, &mut other.1)?;
                ctx.steps(2);
                other.1.check_surroundings()?;
                    ctx.state_here((layout, bits(&other.1.get())));
                expect_vec_tol(&format!("{:?} step {}", spec, i), &other.1.get(), &reference.1.get(), 1e-8, 1e-9)?;
            }
            ctx.state((key(&spec), pattern, layout, len));
            Ok(())
        }));
    }
    out
}

// ---------------------------------------------------------------------- C22

pub fn c22(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for family in FAMILIES {
        out.push(scenario(format!("{} reset, any hyper-parameters", family), move |ctx| {
            let spec = any_spec(ctx, family);
            let ops = [
                Op { phi: vec![1.0, -2.0], kind: Kind::Dense, scale: Some(0.5) },
                Op { phi: vec![0.0, 2.0], kind: Kind::Sparse, scale: Some(-1.0) },
                Op { phi: vec![0.25, 1.0], kind: Kind::SparseFull, scale: None },
            ];
            let mut o = spec.build(2);
            let mut w = Weights::new(Layout::Contiguous, &w0(2));
            for _ in 0..1 + ctx.choose(2) {
                ctx.pick(&ops).clone().run("step", &mut o, &mut w)?;
            }
            guarded("reset", || o.reset())?;
            let mut fresh = spec.build(2);
            expect_eq(&format!("{:?}: equal to a new one", spec), o.same(&fresh), true)?;
            let mut v = Weights::new(Layout::Contiguous, &w.get());
            for _ in 0..2 {
                let op = ctx.pick(&ops).clone();
                op.run("step after reset", &mut o, &mut w)?;
                op.run("step of a new optimiser", &mut fresh, &mut v)?;
                expect_vec(&format!("{:?}: weights after {:?}", spec, op), &w.get(), &v.get())?;
                ctx.state_here(bits(&v.get()));
                ctx.steps(2);
            }
            Ok(())
        }));
    }
    for spec in all_specs(t) {
        let k = key(&spec);
        let main = specs().contains(&spec);
        let mut pre = narrow();
        for bad in [f64::NAN, f64::INFINITY, 1e200] {
            pre.push(Op { phi: vec![1.0, 1.0], kind: Kind::Dense, scale: Some(bad) });
            pre.push(Op { phi: vec![bad, 0.0], kind: Kind::Sparse, scale: Some(1.0) });
        }
        let suf = ops(&[&[1.0, 0.0], &[0.5, -2.0]], &[Kind::Dense, Kind::Sparse], &[None, Some(-0.5)]);
        let pre_depth = if main || t { 3 } else { 2 };
        let suf_depth = if t && main { 3 } else { 2 };
        let resets = 2usize;
        let run = move |ctx: &mut Ctx, prefix: Vec<Op>, suffix: &[Op], depth: usize, from_clone: bool| -> Res {
            let mut o = spec.build(2);
            let mut w = Weights::new(Layout::Contiguous, &w0(2));
            for p in &prefix {
                apply("step", &mut o, &mut w, &build(p.kind, &p.phi), p.scale)?;
                ctx.step();
            }
            let before = w.get();
            if from_clone {
                o = o.clone();
            }
            for _ in 0..1 + ctx.choose(resets) {
                guarded("reset", || o.reset())?;
                ctx.step();
            }
            ctx.log(|| format!("reset after {:?}", prefix));
            if bits(&w.get()) != bits(&before) {
                return Err(format!("reset changed the weights from {:?} to {:?}", before, w.get()));
            }
            let fresh = spec.build(2);
            if !o.same(&fresh) {
                return Err(format!(
                    "a reset {} is not equal to a new one after {:?}: {} against {}",
                    spec.name(),
                    prefix,
                    o.0.show(),
                    fresh.0.show()
                ));
            }
            let mut a = (o, Weights::new(Layout::Contiguous, &w0(2)));
            let mut b = (fresh, Weights::new(Layout::Contiguous, &w0(2)));
            for i in 0..depth {
                let j = ctx.choose(suffix.len());
                suffix[j].run("step after reset", &mut a.0, &mut a.1)?;
                suffix[j].run("step of a new optimiser", &mut b.0, &mut b.1)?;
                ctx.state_here((bits(&before), bits(&a.1.get())));
                ctx.steps(2);
                expect_vec(&format!("{:?}: step {} ({:?}) after a reset following {:?}", spec, i, suffix[j], prefix), &a.1.get(), &b.1.get())?;
            }
            Ok(())
        };
        let (s1, p1) = (suf.clone(), pre.clone());
        for len in 0..=pre_depth {
            let (suf, pre) = (s1.clone(), p1.clone());
            out.push(scenario(format!("{} reset after {}", k, len), move |ctx| {
                let prefix: Vec<Op> = (0..len).map(|_| ctx.pick(&pre).clone()).collect();
                let from_clone = len < 3 && ctx.flag();
                let depth = if len == 3 { suf_depth - 1 } else { suf_depth };
                run(ctx, prefix, &suf, depth, from_clone)
            }));
        }
        // Long prefixes, then a longer suffix.
        let (s2, p2) = (suf.clone(), pre.clone());
        out.push(scenario(format!("{} reset after long histories", k), move |ctx| {
            let len = *ctx.pick(&[10usize, 100, 1000, 3000]);
            let a = ctx.pick(&p2).clone();
            let b = ctx.pick(&p2).clone();
            let prefix: Vec<Op> = (0..len).map(|i| if i % 7 == 3 { b.clone() } else { a.clone() }).collect();
            run(ctx, prefix, &s2, 1, false)
        }));
        let s4: Vec<Op> = suf.iter().take(3).cloned().collect();
        out.push(scenario(format!("{} reset after more than 65536 steps", k), move |ctx| {
            let a = ctx.pick(&s4).clone();
            run(ctx, vec![a; 66_000], &s4[1..], 1, false)
        }));
        // Weights of any magnitude before and after.
        let (s5, p5) = (suf.clone(), narrow());
        out.push(scenario(format!("{} reset, any weights", k), move |ctx| {
            let (start, later) = (*ctx.pick(&STARTS), -*ctx.pick(&STARTS));
            let mut o = spec.build(2);
            let mut w = Weights::new(Layout::Contiguous, &[start, -start]);
            for _ in 0..2 {
                ctx.pick(&p5).clone().run("step", &mut o, &mut w)?;
            }
            let before = bits(&w.get());
            guarded("reset", || o.reset())?;
            ctx.steps(3);
            if bits(&w.get()) != before {
                return Err(format!("{:?}: reset changed the weights", spec));
            }
            let mut fresh = spec.build(2);
            let mut a = Weights::new(Layout::Contiguous, &[later, 0.5]);
            let mut b = a.clone();
            for op in [ctx.pick(&s5).clone(), s5[3].clone()] {
                op.run("step after reset", &mut o, &mut a)?;
                op.run("step of a new optimiser", &mut fresh, &mut b)?;
                ctx.steps(2);
                ctx.state_here((start.to_bits(), bits(&a.get())));
                for (x, y) in a.get().into_iter().zip(b.get()) {
                    if !close_tol(x, y, 1e-9, 0.0) {
                        return Err(format!("{:?}: {:?} after a reset: {:?}, a new optimiser gives {:?}", spec, op, a.get(), b.get()));
                    }
                }
            }
            Ok(())
        }));
        // Reset, use, reset again.
        let s3 = suf.clone();
        out.push(scenario(format!("{} alternating resets", k), move |ctx| {
            let mut o = spec.build(2);
            let mut fresh = spec.build(2);
            let mut w = Weights::new(Layout::Contiguous, &w0(2));
            let mut v = w.clone();
            let mut h = vec![];
            for i in 0..if t { 7 } else { 6 } {
                let j = ctx.choose(4);
                h.push(j);
                ctx.step();
                if j == 3 {
                    o.reset();
                    fresh = spec.build(2);
                    if !o.same(&fresh) {
                        return Err(format!("{:?} not equal to a new one after history {:?}", spec, h));
                    }
                } else {
                    let op = &s3[[0, 3, 7][j]];
                    op.run("step", &mut o, &mut w)?;
                    op.run("step", &mut fresh, &mut v)?;
                    ctx.state_here(bits(&w.get()));
                    expect_vec(&format!("{:?}: step {} of {:?}", spec, i, h), &w.get(), &v.get())?;
                }
            }
            Ok(())
        }));
        // Sizes.
        out.push(scenario(format!("{} reset, sizes", k), move |ctx| {
            let n = *ctx.pick(&[0usize, 1, 3, 4, 7, 8, 9, 16, 17, 33, 65, 100, 128, 130, 257, 512, 1000, 1025]);
            let vs = size_vectors(n);
            let i = ctx.choose(vs.len());
            let kind = *ctx.pick(&[Kind::Dense, Kind::SparseFull, Kind::Sparse]);
            let mut o = spec.build(n);
            let mut w = Weights::new(Layout::Contiguous, &w0(n));
            for _ in 0..3 {
                Op { phi: vs[i].clone(), kind, scale: Some(1.5) }.run("step", &mut o, &mut w)?;
            }
            let before = w.get();
            guarded("reset", || o.reset())?;
            expect_vec("weights after reset", &w.get(), &before)?;
            let mut fresh = spec.build(n);
            if !o.same(&fresh) {
                return Err(format!("{:?} of size {} not equal to a new one after a reset", spec, n));
            }
            let mut v = w.clone();
            Op { phi: vs[0].clone(), kind, scale: None }.run("step", &mut o, &mut w)?;
            Op { phi: vs[0].clone(), kind, scale: None }.run("step", &mut fresh, &mut v)?;
            expect_vec("weights after reset and step", &w.get(), &v.get())?;
            ctx.steps(6);
            ctx.state((key(&spec), n, i, kind));
            Ok(())
        }));
    }
    out
}

// ---------------------------------------------------------------------- C23

pub fn c23(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for spec in all_specs(t) {
        if let Spec::Mom(1.0, _) | Spec::Nag(1.0, _) = spec {
            continue;
        }
        let k = key(&spec);
        // The alphabet includes operations that move nothing at all.
        let vs = all_vectors(3, &[0.0, 1.0, -2.0]);
        let alphabet: Vec<Op> = {
            let r: Vec<&[f64]> = vs.iter().map(|v| &v[..]).filter(|v| v.iter().any(|x| *x == 0.0)).collect();
            ops(&r, &[Kind::Dense, Kind::Sparse, Kind::SparseFull], &[None, Some(0.0), Some(-3.0)])
        };
        let check = move |ctx: &mut Ctx, hist: &mut dyn FnMut(&mut Ctx, usize) -> Option<Op>, reset_first: bool, start: Vec<f64>| -> Res {
            let n = start.len();
            let mut o = spec.build(n);
            let mut w = Weights::new(Layout::Contiguous, &start);
            if reset_first {
                let mut junk = Weights::new(Layout::Contiguous, &start);
                for kind in [Kind::Dense, Kind::SparseFull] {
                    Op { phi: vec![2.0; n], kind, scale: Some(5.0) }.run("step", &mut o, &mut junk)?;
                }
                guarded("reset", || o.reset())?;
            }
            let mut touched = vec![false; n];
            let mut i = 0;
            while let Some(op) = hist(ctx, i) {
                i += 1;
                let before = w.get();
                op.run("step", &mut o, &mut w)?;
                ctx.step();
                ctx.log(|| format!("{:?} -> {:?}", op, w.get()));
                for (c, x) in op.phi.iter().enumerate() {
                    if *x * op.s() != 0.0 {
                        touched[c] = true;
                    }
                }
                let after = w.get();
                ctx.state_here((bits(&after), &touched));
                for c in 0..n {
                    if !touched[c] && after[c] != start[c] {
                        return Err(format!(
                            "{:?}: weight {} moved from {} to {} in step {} although its gradient was always zero ({:?})",
                            spec, c, start[c], after[c], i, op
                        ));
                    }
                    if !after[c].is_finite() {
                        return Err(format!("{:?}: weight {} became {} from {} in step {} ({:?})", spec, c, after[c], before[c], i, op));
                    }
                }
                if touched.iter().all(|x| !x) {
                    ctx.witness("nothing touched so far");
                }
            }
            Ok(())
        };
        let a1 = alphabet.clone();
        let depth = if t && specs().contains(&spec) { 3 } else { 2 };
        out.push(scenario(format!("{} untouched weights", k), move |ctx| {
            let reset_first = ctx.flag();
            check(ctx, &mut |ctx, i| {
                if i >= depth {
                    return None;
                }
                let j = ctx.choose(a1.len());
                Some(a1[j].clone())
            }, reset_first, w0(3))?;
            Ok(())
        }));
        let small = vec![
            Op { phi: vec![1.0, 0.0, 0.0], kind: Kind::Dense, scale: Some(-2.0) },
            Op { phi: vec![0.0, 1.0, 0.0], kind: Kind::Sparse, scale: Some(1.0) },
            Op { phi: vec![0.0, 1.0, 0.0], kind: Kind::SparseFull, scale: Some(0.0) },
            Op { phi: vec![0.0, 0.0, 0.0], kind: Kind::Dense, scale: None },
            Op { phi: vec![0.5, 1e-8, 0.0], kind: Kind::SparseFull, scale: None },
        ];
        let d2 = if t { 7 } else { 6 };
        out.push(scenario(format!("{} untouched weights, deeper", k), move |ctx| {
            check(ctx, &mut |ctx, i| {
                if i >= d2 {
                    return None;
                }
                let j = ctx.choose(small.len());
                Some(small[j].clone())
            }, false, w0(3))?;
            Ok(())
        }));
        // Whatever the weights were to begin with.
        let a5 = alphabet.clone();
        out.push(scenario(format!("{} untouched weights, any start", k), move |ctx| {
            let (m, spread) = (*ctx.pick(&[0.0, 1e-320, 1e-300, 1e-12, 1e-6, 0.1, 10.0, 999.0, 1e4, 1e6, 1e8, 1e12, 1e100, 1e300]), *ctx.pick(&[1.0, -1.0, 1e-3]));
            let start = vec![m, m * spread, -m];
            check(ctx, &mut |ctx, i| {
                if i >= 2 {
                    return None;
                }
                let j = ctx.choose(a5.len());
                Some(a5[j].clone())
            }, false, start)?;
            Ok(())
        }));
        // Long horizons with two alternating operations.
        let a3 = alphabet.clone();
        out.push(scenario(format!("{} untouched weights, long", k), move |ctx| {
            let (a, b) = (ctx.choose(a3.len()), ctx.choose(a3.len()));
            let len = if ctx.thorough { 1500 } else { 120 };
            check(ctx, &mut |_, i| {
                if i >= len {
                    None
                } else {
                    Some(a3[if i % 3 == 1 { b } else { a }].clone())
                }
            }, false, w0(3))?;
            Ok(())
        }));
        // A very long run.
        let a4 = alphabet.clone();
        out.push(scenario(format!("{} untouched weights, very long", k), move |ctx| {
            let a = ctx.choose(a4.len());
            check(ctx, &mut |_, i| if i >= 2500 { None } else { Some(a4[a].clone()) }, false, w0(3))?;
            Ok(())
        }));
        // Sizes: one coordinate left alone, everything zero, or zero scale.
        out.push(scenario(format!("{} untouched weights, sizes", k), move |ctx| {
            let n = *ctx.pick(&[1usize, 2, 4, 7, 8, 9, 15, 16, 17, 33, 65, 130, 257, 1000, 1025]);
            let spared = if n <= 130 { ctx.choose(n) } else { *ctx.pick(&[0, 63, 64, 127, 128, 255, 256, n - 1]) };
            let kind = *ctx.pick(&KINDS4);
            let scale = *ctx.pick(&[None, Some(0.0), Some(1e3), Some(1e-9)]);
            let reset_first = ctx.flag();
            let mut phi: Vec<f64> = (0..n).map(|i| 1.0 + 0.5 * i as f64).collect();
            phi[spared] = 0.0;
            check(ctx, &mut |_, i| {
                match i {
                    0..=2 => Some(Op { phi: phi.clone(), kind, scale }),
                    3 => Some(Op { phi: vec![0.0; n], kind, scale: Some(2.0) }),
                    _ => None,
                }
            }, reset_first, w0(n))?;
            Ok(())
        }));
        // Finite whatever the magnitude.
        let mags = [0.0, 1e-300, 1e-160, 1e-12, 1e-7, 1.0, 1e8, 1e100, 1e160];
        out.push(scenario(format!("{} finite", k), move |ctx| {
            let depth = if ctx.thorough { 3 } else { 2 };
            check(ctx, &mut |ctx, i| {
                if i >= depth {
                    return None;
                }
                let a = *ctx.pick(&mags);
                let b = *ctx.pick(&mags);
                let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
                let scale = Some(*ctx.pick(&[1.0, -1e-3]));
                Some(Op { phi: vec![a, b], kind, scale })
            }, false, w0(2))?;
            Ok(())
        }));
    }
    out
}
