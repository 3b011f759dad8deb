//! C05: feature vectors over histories. C29: clones over interleavings.
use crate::basis_util::*;
use crate::engine::*;
use crate::optim_util::*;
use crate::util::*;
use lfa::basis::*;
use lfa::optim::Optimiser;
use lfa::{Features, LFA};
use ndarray::{Array1, Array2};
use std::collections::HashMap;
use std::result::Result as R;

type F1 = (&'static str, fn(f64) -> f64);
type F2 = (&'static str, fn(f64, f64) -> f64);

/// Functions that stay within {-1, 0, 1}.
const CLOSED1: [F1; 5] = [
    ("neg", |x| -x),
    ("abs", |x| x.abs()),
    ("rotate", |x| if x == 0.0 { 1.0 } else if x == 1.0 { -1.0 } else { 0.0 }),
    ("zero", |_| 0.0),
    ("one", |_| 1.0),
];
const CLOSED2: [F2; 5] = [
    ("clamped sum", |x, y| (x + y).clamp(-1.0, 1.0)),
    ("product", |x, y| x * y),
    ("second", |_, y| y),
    ("difference", |x, y| (x - y).clamp(-1.0, 1.0)),
    ("equal", |x, y| if x == y { 1.0 } else { 0.0 }),
];

#[derive(Clone, Debug)]
enum FOp {
    Remove(usize),
    Map(usize, usize),
    Merge(usize, usize, usize),
    Stack(usize),
    Under(usize),
    Densify(usize),
    Clone(usize),
}

struct Alg {
    f1: Vec<F1>,
    f2: Vec<F2>,
    operands: Vec<(Kind, Vec<f64>)>,
}

impl Alg {
    fn ops(&self, n: usize, max: usize, dense: bool) -> Vec<FOp> {
        let mut v = vec![];
        for i in 0..=n {
            if n > 33 && i > 1 && i + 1 < n && i != n / 2 && !i.is_power_of_two() {
                continue;
            }
            v.push(FOp::Remove(i));
        }
        for f in 0..self.f1.len() {
            for form in 0..3 {
                v.push(FOp::Map(form, f));
            }
        }
        for (i, (k, o)) in self.operands.iter().enumerate() {
            if n + o.len() <= max {
                v.push(FOp::Stack(i));
                v.push(FOp::Under(i));
            }
            // Merging two dense vectors of different lengths is not defined.
            if dense && !k.is_sparse() && n != o.len() {
                continue;
            }
            if o.len() > max {
                continue;
            }
            for f in 0..self.f2.len() {
                for form in 0..3 {
                    v.push(FOp::Merge(form, f, i));
                }
            }
        }
        for k in 0..4 {
            v.push(FOp::Densify(k));
        }
        for k in 0..3 {
            v.push(FOp::Clone(k));
        }
        v
    }

    fn show(&self, op: &FOp) -> String {
        match op {
            FOp::Map(form, f) => format!("{}({})", ["map", "map_into", "map_inplace"][*form], self.f1[*f].0),
            FOp::Merge(form, f, o) => format!(
                "{}({} with {:?} {:?})",
                ["merge", "merge_into", "merge_inplace"][*form], self.f2[*f].0, self.operands[*o].0, self.operands[*o].1
            ),
            FOp::Stack(o) => format!("stack({:?} {:?})", self.operands[*o].0, self.operands[*o].1),
            FOp::Under(o) => format!("{:?} {:?}.stack(it)", self.operands[*o].0, self.operands[*o].1),
            FOp::Remove(i) => format!("remove({})", i),
            FOp::Densify(k) => ["into_dense", "to_dense", "Vec::from", "Array1::from"][*k].to_string(),
            FOp::Clone(k) => ["clone", "clone and ruin the clone", "clone and ruin the original"][*k].to_string(),
        }
    }

    fn model(&self, op: &FOp, v: &[f64]) -> Vec<f64> {
        match op {
            FOp::Remove(i) => v.iter().enumerate().map(|(j, x)| if j == *i { 0.0 } else { *x }).collect(),
            FOp::Map(_, f) => v.iter().map(|x| (self.f1[*f].1)(*x)).collect(),
            FOp::Merge(_, f, o) => {
                let w = &self.operands[*o].1;
                let n = v.len().max(w.len());
                let at = |u: &[f64], i: usize| u.get(i).copied().unwrap_or(0.0);
                (0..n).map(|i| (self.f2[*f].1)(at(v, i), at(w, i))).collect()
            }
            FOp::Stack(o) => v.iter().chain(&self.operands[*o].1).copied().collect(),
            FOp::Under(o) => self.operands[*o].1.iter().chain(v).copied().collect(),
            FOp::Densify(_) | FOp::Clone(_) => v.to_vec(),
        }
    }

    /// Run one operation; the vector is consumed and replaced.
    fn run(&self, op: &FOp, mut f: Features) -> R<Features, String> {
        let operand = |i: usize| build(self.operands[i].0, &self.operands[i].1);
        let r = guarded("the operation", || match op {
            FOp::Remove(i) => {
                f.remove(*i);
                (f, None)
            }
            FOp::Map(form, k) => {
                let g = self.f1[*k].1;
                match form {
                    0 => {
                        let r = f.map(g);
                        (r, Some(f))
                    }
                    1 => (f.map_into(g), None),
                    _ => {
                        f.map_inplace(g);
                        (f, None)
                    }
                }
            }
            FOp::Merge(form, k, o) => {
                let g = self.f2[*k].1;
                let b = operand(*o);
                let r = match form {
                    0 => {
                        let r = f.merge(&b, g);
                        (r, Some(f))
                    }
                    1 => (f.merge_into(&b, g), None),
                    _ => {
                        f.merge_inplace(&b, g);
                        (f, None)
                    }
                };
                if denote(&b).as_deref() != Ok(&self.operands[*o].1[..]) {
                    panic!("merging changed its argument to {:?}", b);
                }
                r
            }
            FOp::Stack(o) => (f.stack(operand(*o)), None),
            FOp::Under(o) => (operand(*o).stack(f), None),
            FOp::Densify(k) => (
                match k {
                    0 => Features::from(f.into_dense()),
                    1 => Features::from(f.to_dense()),
                    2 => Features::from(Vec::<f64>::from(f)),
                    _ => Features::Dense(Array1::from(f)),
                },
                None,
            ),
            FOp::Clone(k) => {
                let mut c = f.clone();
                let ruin = |x: &mut Features| {
                    for i in 0..x.n_features() {
                        x.remove(i);
                    }
                    x.map_inplace(|_| 7.0);
                    x.merge_inplace(&Features::sparse(x.n_features() + 2, vec![(0, 9.0)]), |a, b| a * 3.0 - b);
                };
                match k {
                    0 => (c, Some(f)),
                    1 => {
                        // dense/dense lengths must agree: ruin by removal only
                        ruin_any(&mut c, &ruin);
                        (f, None)
                    }
                    _ => {
                        ruin_any(&mut f, &ruin);
                        (c, None)
                    }
                }
            }
        });
        match r {
            Err(e) => Err(e),
            Ok((out, kept)) => {
                if let Some(k) = kept {
                    // the borrowed original survives and is dropped
                    denote(&k).map_err(|e| format!("the original is damaged: {}", e))?;
                }
                Ok(out)
            }
        }
    }
}

fn ruin_any(x: &mut Features, f: &dyn Fn(&mut Features)) {
    f(x)
}

/// Everything observable about a feature vector, as a key.
fn fkey(f: &Features) -> (bool, Vec<u64>, Vec<bool>, isize) {
    let stride = match f {
        Features::Dense(a) => a.strides()[0],
        _ => 0,
    };
    (is_sparse(f), bits(&denote(f).unwrap_or_default()), listed(f), stride)
}

fn all3(n: usize) -> Vec<Vec<f64>> {
    let mut out: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p| {
                [0.0, 1.0, -1.0].into_iter().map(move |x| {
                    let mut q = p.clone();
                    q.push(x);
                    q
                })
            })
            .collect();
    }
    out
}

fn closed_alg(max: usize) -> Alg {
    let mut operands = vec![];
    for n in 0..=max {
        let vs = if n <= 2 {
            all3(n)
        } else {
            vec![
                (0..n).map(|i| if i == n - 1 { 1.0 } else { 0.0 }).collect(),
                (0..n).map(|i| if i % 2 == 0 { -1.0 } else { 1.0 }).collect(),
                (0..n).map(|i| if i == 0 { -1.0 } else { 0.0 }).collect(),
            ]
        };
        for v in vs {
            for k in [Kind::Dense, Kind::Sparse, Kind::SparseFull, Kind::DenseRev] {
                if k == Kind::SparseFull && !v.contains(&0.0) {
                    continue;
                }
                if k == Kind::DenseRev && n < 2 {
                    continue;
                }
                operands.push((k, v.clone()));
            }
        }
    }
    Alg { f1: CLOSED1.to_vec(), f2: CLOSED2.to_vec(), operands }
}

fn fixpoint(max: usize) -> Scenario {
    scenario(format!("all histories over {{-1,0,1}}, up to {} features", max), move |ctx| {
        let alg = closed_alg(max);
        // (vector, its array, how it was reached)
        let mut nodes: Vec<(Features, Vec<f64>, usize, String)> = vec![];
        let mut index: HashMap<(bool, Vec<u64>, Vec<bool>, isize), usize> = HashMap::new();
        let mut starts: Vec<(String, Features, Vec<f64>)> = vec![
            ("Features::dense([])".into(), Features::dense(vec![]), vec![]),
            ("Features::sparse(0)".into(), Features::sparse(0, vec![]), vec![]),
            ("Features::unitary(2, [1])".into(), Features::unitary(2, vec![1]), vec![0.0, 1.0]),
            ("From<Vec<usize>>".into(), Features::from(vec![0usize, 2]), vec![1.0, 0.0, 1.0]),
            ("From<Vec<f64>>".into(), Features::from(vec![1.0, 0.0]), vec![1.0, 0.0]),
            ("sparse with explicit zero".into(), Features::sparse(3, vec![(0, 0.0), (2, -1.0)]), vec![0.0, 0.0, -1.0]),
        ];
        for k in [Kind::DenseRev, Kind::DenseStride, Kind::DenseOffset] {
            let v = vec![1.0, 0.0, -1.0];
            starts.push((format!("{:?} {:?}", k, v), build(k, &v), v));
        }
        for (name, f, v) in starts {
            if v.len() <= max {
                same_features(&name, &f, &v)?;
                let k = fkey(&f);
                if !index.contains_key(&k) {
                    index.insert(k, nodes.len());
                    nodes.push((f, v, usize::MAX, name));
                }
            }
        }
        let path = |nodes: &Vec<(Features, Vec<f64>, usize, String)>, mut i: usize| {
            let mut p = vec![];
            while i != usize::MAX {
                p.push(nodes[i].3.clone());
                i = nodes[i].2;
            }
            p.reverse();
            p.join(" ; ")
        };
        let mut i = 0;
        while i < nodes.len() {
            let (f, v) = (nodes[i].0.clone(), nodes[i].1.clone());
            ctx.state(fkey(&f));
            for op in alg.ops(v.len(), max, !is_sparse(&f)) {
                ctx.step();
                let want = alg.model(&op, &v);
                let copy = f.clone();
                let r = alg.run(&op, copy).and_then(|g| same_features("the result", &g, &want).map(|_| g));
                let g = match r {
                    Ok(g) => g,
                    Err(e) => return Err(format!("{} ; {}: {}", path(&nodes, i), alg.show(&op), e)),
                };
                let k = fkey(&g);
                if !index.contains_key(&k) {
                    index.insert(k, nodes.len());
                    nodes.push((g, want, i, alg.show(&op)));
                }
            }
            // Earlier copies are unaffected by everything done to their copies.
            same_features("the vector its copies were taken from", &nodes[i].0, &v).map_err(|e| format!("{}: {}", path(&nodes, i), e))?;
            same_features("the copy", &f, &v)?;
            i += 1;
        }
        for n in &nodes {
            same_features("a vector reached earlier", &n.0, &n.1)?;
        }
        ctx.witness("fixpoint reached");
        Ok(())
    })
}

/// Real-valued functions, so that wrong values do not fold back.
const REAL1: [F1; 4] = [("2x", |x| 2.0 * x), ("x+0.5", |x| x + 0.5), ("x^2-3x", |x| x * x - 3.0 * x), ("-x", |x| -x)];
const REAL2: [F2; 4] = [
    ("2x-y", |x, y| 2.0 * x - y),
    ("xy", |x, y| x * y),
    ("x+y+1", |x, y| x + y + 1.0),
    ("y", |_, y| y),
];

/// Functions between very small and very large activations.
const EXTREME1: [F1; 5] = [("1e-9x", |x| 1e-9 * x), ("1e9x", |x| 1e9 * x), ("x^2", |x| x * x), ("-x", |x| -x), ("1e-150x", |x| 1e-150 * x)];
const EXTREME2: [F2; 4] = [("xy", |x, y| x * y), ("x+1e-12y", |x, y| x + 1e-12 * y), ("1e12y-x", |x, y| 1e12 * y - x), ("y", |_, y| y)];

fn extreme_alg(dims: &[usize]) -> Alg {
    let mut operands = vec![];
    for &n in dims {
        let v: Vec<f64> = (0..n).map(|i| [1e-8, 0.0, -1e8, 3e-20][i % 4]).collect();
        for k in [Kind::Dense, Kind::Sparse] {
            operands.push((k, v.clone()));
        }
    }
    Alg { f1: EXTREME1.to_vec(), f2: EXTREME2.to_vec(), operands }
}

fn extreme_histories(start: Vec<f64>, depth: usize) -> Scenario {
    scenario(format!("very small and very large activations, {:?} depth={}", start, depth), move |ctx| {
        let alg = extreme_alg(&[start.len()]);
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
        let mut f = build(kind, &start);
        let mut v = start.clone();
        let mut h: Vec<String> = vec![];
        for _ in 0..depth {
            let ops = alg.ops(v.len(), 2 * start.len(), !is_sparse(&f));
            let op = ctx.pick(&ops).clone();
            h.push(alg.show(&op));
            ctx.step();
            ctx.log(|| alg.show(&op));
            v = alg.model(&op, &v);
            f = alg.run(&op, f).map_err(|e| format!("{:?} {:?}, {:?}: {}", kind, start, h, e))?;
            ctx.state(fkey(&f));
            // the same operations on the same numbers
            let got = denote(&f)?;
            if got.len() != v.len() || !got.iter().zip(&v).all(|(a, b)| close_tol(*a, *b, 1e-12, 0.0)) {
                return Err(format!("{:?} {:?} after {:?}: {:?}, want {:?}", kind, start, h, got, v));
            }
        }
        Ok(())
    })
}

fn real_alg(dims: &[usize]) -> Alg {
    let mut operands = vec![];
    for &n in dims {
        let v: Vec<f64> = (0..n).map(|i| if i % 3 == 1 { 0.0 } else { 1.5 - i as f64 }).collect();
        for k in [Kind::Dense, Kind::Sparse] {
            operands.push((k, v.clone()));
        }
    }
    Alg { f1: REAL1.to_vec(), f2: REAL2.to_vec(), operands }
}

fn real_histories(name: &str, start: Vec<f64>, dims: Vec<usize>, depth: usize, max: usize) -> Scenario {
    scenario(format!("real-valued histories, {} depth={}", name, depth), move |ctx| {
        let alg = real_alg(&dims);
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse, Kind::DenseRev, Kind::SparseFull]);
        let mut f = build(kind, &start);
        let mut v = start.clone();
        // copies along the way
        let mut past: Vec<(Features, Vec<f64>)> = vec![];
        let mut h: Vec<String> = vec![];
        for _ in 0..depth {
            past.push((f.clone(), v.clone()));
            let ops = alg.ops(v.len(), max, !is_sparse(&f));
            let op = ctx.pick(&ops).clone();
            h.push(alg.show(&op));
            ctx.step();
            ctx.log(|| alg.show(&op));
            v = alg.model(&op, &v);
            f = alg.run(&op, f).map_err(|e| format!("{:?} {:?}, {:?}: {}", kind, start, h, e))?;
            ctx.state(fkey(&f));
            same_features(&format!("{:?} {:?} after {:?}", kind, start, h), &f, &v)?;
        }
        for (g, w) in &past {
            same_features(&format!("a copy taken during {:?}", h), g, w)?;
        }
        // Reading agrees, too.
        expect_eq("n_features", f.n_features(), v.len())?;
        for i in 0..v.len() {
            expect("index", f[i], v[i])?;
        }
        Ok(())
    })
}

pub fn c05(t: bool) -> Vec<Scenario> {
    let mut out = vec![fixpoint(0), fixpoint(1), fixpoint(2), fixpoint(3), fixpoint(4)];
    out.push(fixpoint(5));
    if t {
        out.push(fixpoint(6));
    }
    let d = if t { 4 } else { 3 };
    out.push(real_histories("2 features", vec![1.0, 0.0], vec![2, 3], d, 6));
    out.push(real_histories("3 features", vec![-2.0, 0.0, 0.75], vec![1, 3], d, 6));
    out.push(real_histories("no features", vec![], vec![0, 2], d, 6));
    out.push(extreme_histories(vec![1.0, 0.0], d));
    out.push(extreme_histories(vec![1e-8, 0.0, -1e8], d));
    for n in [8usize, 17, 33] {
        let v: Vec<f64> = (0..n).map(|i| if i % 4 == 2 { 0.0 } else { 0.5 * i as f64 - 3.0 }).collect();
        out.push(real_histories(&format!("{} features", n), v, vec![n, n + 1], if n == 8 || t { 3 } else { 2 }, 2 * n + 1));
    }
    for n in if t { vec![64usize, 65, 100, 128, 130, 257, 1025] } else { vec![65, 100, 257] } {
        let v: Vec<f64> = (0..n).map(|i| if i % 4 == 2 { 0.0 } else { 0.5 * i as f64 - 3.0 }).collect();
        out.push(real_histories(&format!("{} features", n), v, vec![n, n - 1], 2, 2 * n));
    }
    out
}

// ---------------------------------------------------------------------- C29

/// An object whose histories can be replayed on a fresh, never cloned twin.
trait Subject: Clone {
    fn ops(&self) -> usize;
    fn apply(&mut self, op: usize) -> Res;
    /// Clone the other one into this one.
    fn assign(&mut self, o: &Self);
    /// What can be observed of it.
    fn observe(&self) -> R<Vec<f64>, String>;
}

/// Every way of cloning at every point of every history, followed by every
/// interleaving of operations on the two (and on a clone of the clone).
fn clone_histories<S: Subject>(ctx: &mut Ctx, make: &dyn Fn(&mut Ctx) -> S, twin: &dyn Fn() -> S, before: usize, after: usize) -> Res {
    let mut subjects = vec![make(ctx)];
    let mut twins = vec![twin()];
    let n = twins[0].ops();
    let (mut h, mut hist) = (vec![], vec![]);
    let len = ctx.choose(before + 1);
    for _ in 0..len {
        let op = ctx.choose(n);
        h.push(format!("{}", op));
        hist.push(op);
        subjects[0].apply(op)?;
        twins[0].apply(op)?;
        ctx.steps(2);
    }
    // what each of the two has been through
    let mut seen = [hist.clone(), hist.clone()];
    let c = guarded("clone", || subjects[0].clone())?;
    subjects.push(c);
    // the clone's twin replays the history instead of being cloned
    let mut t = twin();
    for op in &hist {
        t.apply(*op)?;
    }
    twins.push(t);
    h.push("clone".into());
    let check = |subjects: &Vec<S>, twins: &Vec<S>, h: &Vec<String>| -> Res {
        for i in 0..subjects.len() {
            let (a, b) = (subjects[i].observe()?, twins[i].observe()?);
            expect_vec(&format!("the {} after {:?}, against a twin that was never cloned", ["original", "clone"][i], h), &a, &b)?;
        }
        Ok(())
    };
    check(&subjects, &twins, &h)?;
    for _ in 0..after {
        // operations on either; or the original is dropped for good
        let k = ctx.choose(2 * n + 3);
        ctx.step();
        if k > 2 * n {
            // one is cloned into the other, which exists already
            let who = k - 2 * n - 1;
            h.push(format!("{} cloned into the other", ["original", "clone"][who]));
            let (l, r) = subjects.split_at_mut(1);
            let (from, to) = if who == 0 { (&l[0], &mut r[0]) } else { (&r[0], &mut l[0]) };
            guarded("clone_from", || to.assign(from))?;
            seen[1 - who] = seen[who].clone();
            let mut t = twin();
            for op in &seen[1 - who] {
                t.apply(*op)?;
            }
            twins[1 - who] = t;
        } else if k == 2 * n {
            h.push("original replaced by a clone of the clone".into());
            let c = guarded("clone", || subjects[1].clone())?;
            subjects[0] = c;
            let mut t = twin();
            for op in &seen[1] {
                t.apply(*op)?;
            }
            seen[0] = seen[1].clone();
            twins[0] = t;
        } else {
            let (who, op) = (k / n, k % n);
            h.push(format!("{}:{}", who, op));
            subjects[who].apply(op)?;
            twins[who].apply(op)?;
            seen[who].push(op);
        }
        check(&subjects, &twins, &h)?;
        let state: Vec<Vec<u64>> = subjects.iter().map(|s| Ok(bits(&s.observe()?))).collect::<R<_, String>>()?;
        ctx.state_here(state);
    }
    ctx.log(|| format!("{:?}", h));
    Ok(())
}

#[derive(Clone)]
struct SFeat(Features);

impl Subject for SFeat {
    fn assign(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn ops(&self) -> usize {
        7
    }
    fn apply(&mut self, op: usize) -> Res {
        let other = Features::sparse(3, vec![(1, 2.0)]);
        guarded("the operation", || match op {
            0 => self.0.remove(0),
            1 => self.0.map_inplace(|x| 2.0 * x),
            2 => self.0.map_inplace(|x| x + 0.5),
            3 => self.0.merge_inplace(&other, |x, y| x - y),
            4 => self.0 = self.0.clone().stack(Features::unitary(2, vec![1])),
            5 => match &mut self.0 {
                Features::Dense(a) => {
                    if a.len() > 1 {
                        a[1] += 3.0
                    }
                }
                Features::Sparse(s) => {
                    if s.dim > 1 {
                        *s.activations.entry(1).or_insert(0.0) += 3.0
                    }
                }
            },
            _ => self.0 = Features::from(self.0.to_dense()),
        })
    }
    fn observe(&self) -> R<Vec<f64>, String> {
        denote(&self.0)
    }
}

#[derive(Clone)]
struct SOpt {
    o: Opt,
    w: Weights,
    n: usize,
}

impl Subject for SOpt {
    fn assign(&mut self, o: &Self) {
        self.o.clone_from(&o.o);
        self.w = o.w.clone()
    }
    fn ops(&self) -> usize {
        5
    }
    fn apply(&mut self, op: usize) -> Res {
        let (v, k, s) = match op {
            0 => ([1.0, 0.0], Kind::Dense, 0.5),
            1 => ([0.0, 2.0], Kind::Sparse, -1.0),
            2 => ([1.0, 1.0], Kind::SparseFull, 3.0),
            3 => ([-0.25, 1.0], Kind::DenseRev, 0.0),
            _ => return guarded("reset", || self.o.reset()),
        };
        let v: Vec<f64> = (0..self.n).map(|i| v[i % 2]).collect();
        let (o, w) = (&mut self.o, &mut self.w);
        guarded("step", || o.step_scaled(&mut w.view_mut(), &build(k, &v), s))?.map_err(|e| e.to_string())
    }
    fn observe(&self) -> R<Vec<f64>, String> {
        // weights now and after one more step: the hidden state shows
        let mut v = self.w.get();
        let mut c = self.o.0.dup();
        let mut w = self.w.clone();
        guarded("step", || c.step_scaled(&mut w.view_mut(), &build(Kind::Dense, &(0..self.n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect::<Vec<_>>()), 1.0))?.map_err(|e| e.to_string())?;
        v.extend(w.get());
        Ok(v)
    }
}

#[derive(Clone)]
struct SScalar(LFA<Dyn, Array1<f64>, Opt>, Vec<Vec<f64>>);

impl Subject for SScalar {
    fn assign(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn ops(&self) -> usize {
        5
    }
    fn apply(&mut self, op: usize) -> Res {
        let xs = &self.1;
        let fa = &mut self.0;
        guarded("the operation", || match op {
            0 => fa.update(&xs[0][..], 1.0),
            1 => fa.update_with(&xs[1][..], |_, y| 2.0 - y),
            2 => fa.update(&xs[2][..], -0.5),
            3 => {
                fa.weights.fill(0.25);
                Ok(())
            }
            _ => {
                fa.optimiser.reset();
                Ok(())
            }
        })?
        .map_err(|e| e.to_string())
    }
    fn observe(&self) -> R<Vec<f64>, String> {
        let mut v = self.0.weights.to_vec();
        for x in &self.1 {
            v.push(guarded("evaluate", || self.0.evaluate(&x[..]))?.map_err(|e| e.to_string())?);
        }
        // hidden optimiser state
        let mut o = self.0.optimiser.0.dup();
        let n = self.0.weights.len();
        let mut w = Weights::new(Layout::Contiguous, &vec![0.0; n]);
        guarded("step", || o.step_scaled(&mut w.view_mut(), &build(Kind::Dense, &vec![1.0; n]), 1.0))?.map_err(|e| e.to_string())?;
        v.extend(w.get());
        Ok(v)
    }
}

#[derive(Clone)]
struct SVector(LFA<Dyn, Array2<f64>, Opt>, Vec<Vec<f64>>);

impl Subject for SVector {
    fn assign(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn ops(&self) -> usize {
        5
    }
    fn apply(&mut self, op: usize) -> Res {
        let xs = &self.1;
        let fa = &mut self.0;
        guarded("the operation", || match op {
            0 => fa.update(&xs[0][..], vec![1.0, -2.0]),
            1 => fa.update_with(&xs[1][..], |_, y| 2.0 - y),
            2 => fa.update_index(&xs[2][..], 1, -0.5),
            3 => {
                fa.weights.fill(0.25);
                Ok(())
            }
            _ => {
                fa.optimiser.reset();
                Ok(())
            }
        })?
        .map_err(|e| e.to_string())
    }
    fn observe(&self) -> R<Vec<f64>, String> {
        let mut v: Vec<f64> = self.0.weights.iter().copied().collect();
        for x in &self.1 {
            v.extend(guarded("evaluate", || self.0.evaluate(&x[..]))?.map_err(|e| e.to_string())?);
        }
        Ok(v)
    }
}

#[derive(Clone)]
struct SBasis(Dyn, Vec<Vec<f64>>, usize, usize);

impl Subject for SBasis {
    fn assign(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn ops(&self) -> usize {
        self.3
    }
    fn apply(&mut self, op: usize) -> Res {
        // using a basis does not change it; combinators consume a copy
        match op {
            0 | 1 => guarded("project", || self.0 .0.project(&self.1[op]).map(|_| ()))?.map_err(|e| e.to_string()),
            2 => {
                let c = self.0.clone();
                guarded("with_bias on a copy", || {
                    let b = c.with_bias();
                    Basis::<&[f64]>::project(&b, &self.1[2]).map(|_| ())
                })?
                .map_err(|e| e.to_string())
            }
            _ => {
                if self.2 > 0 {
                    guarded("ith", || self.0 .0.ith(&self.1[1], self.2 - 1).map_or(Ok(()), |r| r.map(|_| ())))?.map_err(|e| e.to_string())
                } else {
                    Ok(())
                }
            }
        }
    }
    fn observe(&self) -> R<Vec<f64>, String> {
        let mut v = vec![self.0 .0.dim() as f64];
        for x in &self.1 {
            v.extend(denote(&guarded("project", || self.0 .0.project(x))?.map_err(|e| e.to_string())?)?);
        }
        Ok(v)
    }
}

fn points(d: usize) -> Vec<Vec<f64>> {
    let all = inputs(d, if d == 1 { 6 } else { 3 });
    let k = all.len();
    vec![all[1].clone(), all[k / 2].clone(), all[k - 1].clone()]
}

/// Bases whose parts are public: changing a clone leaves the original alone.
fn public_parts() -> Scenario {
    scenario("mutating the public parts of a cloned basis", |ctx| {
        use lfa::basis::kernels::*;
        let which = ctx.choose(6);
        let swap = ctx.flag();
        let x = [0.3, -0.4];
        macro_rules! go {
            ($b:expr, $mutate:expr) => {{
                let mut a = $b;
                let before = denote(&a.project(&x[..]).map_err(|e| e.to_string())?)?;
                let mut c = guarded("clone", || a.clone())?;
                let (touched, kept) = if swap { (&mut a, &mut c) } else { (&mut c, &mut a) };
                guarded("changing one", || $mutate(touched))?;
                let after = denote(&kept.project(&x[..]).map_err(|e| e.to_string())?)?;
                expect_vec("the other one after changing one", &after, &before)?;
                let other = guarded("project", || touched.project(&x[..]))?.map_err(|e| e.to_string())?;
                let other = denote(&other)?;
                if close_vec(&other, &before) {
                    return Err("changing a public part had no effect".into());
                }
                #[allow(dropping_copy_types)]
                drop(c);
                let after = denote(&a.project(&x[..]).map_err(|e| e.to_string())?)?;
                expect_vec("the original after the clone is gone", &after, if swap { &other } else { &before })?;
            }};
        }
        match which {
            0 => go!(Bias(2.0), |b: &mut Bias| b.0 = 5.0),
            1 => go!(Fixed::dense(vec![1.0, 2.0]), |b: &mut Fixed<_>| *b = Fixed::dense(vec![1.0, 3.0])),
            2 => go!(KernelBasis::homogeneous(vec![vec![0.0, 0.0], vec![1.0, 1.0]], ExpQuad::new(1.0, vec![0.5, 2.0])), |b: &mut KernelBasis<_, _>| {
                b.prototypes.pop();
            }),
            3 => go!(Polynomial::new(2, 1), |b: &mut Polynomial| *b = b.clone().with_zeroth()),
            4 => go!(Chebyshev::new(2, limits(2)), |b: &mut Chebyshev| *b = b.clone().with_zeroth()),
            _ => go!(UniformGrid::new(equi(&[3, 2])), |b: &mut UniformGrid| *b = UniformGrid::new(equi(&[2, 2]))),
        }
        ctx.steps(5);
        ctx.state((which, swap));
        Ok(())
    })
}

/// Cloning into an object of another size or configuration, for every pair.
fn assignments() -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("cloning a feature vector into another", |ctx| {
        let vs: Vec<Vec<f64>> = vec![vec![], vec![1.0], vec![0.0, 2.0], vec![1.0, 0.0, -2.0], vec![0.0; 3], vec![3.0, 4.0, 5.0, 6.0]];
        let (a, ka, b, kb) = (ctx.pick(&vs).clone(), *ctx.pick(&KINDS), ctx.pick(&vs).clone(), *ctx.pick(&KINDS));
        let (from, mut to) = (build(ka, &a), build(kb, &b));
        let dup = from.clone();
        let what = format!("clone of {:?} as {:?} into {:?} as {:?}", a, ka, b, kb);
        let inner = ctx.flag();
        match (inner, &from, &mut to) {
            // the records inside can be cloned on their own
            (true, Features::Sparse(x), Features::Sparse(y)) => guarded("clone_from", || y.clone_from(x))?,
            (true, Features::Dense(x), Features::Dense(y)) => guarded("clone_from", || y.clone_from(x))?,
            _ => guarded("clone_from", || to.clone_from(&from))?,
        }
        ctx.steps(3);
        ctx.state((&what, inner));
        let listed = |f: &Features| match f {
            Features::Sparse(s) => s.activations.len() as isize,
            _ => -1,
        };
        expect_vec(&what, &denote(&to)?, &a)?;
        if listed(&to) != listed(&dup) {
            return Err(format!("{}: stored as {:?}", what, to));
        }
        guarded("map", || to.map_inplace(|x| x + 7.0))?;
        guarded("remove", || to.remove(0))?;
        expect_vec(&format!("the original after {} and changes to the clone", what), &denote(&from)?, &a)
    }));
    for spec in all_specs(false) {
        out.push(scenario(format!("cloning {:?} into another", spec), move |ctx| {
            let other = *ctx.pick(&all_specs(false));
            let sizes = [1usize, 2, 3, 5];
            let (n, m) = (*ctx.pick(&sizes), *ctx.pick(&sizes));
            let start = |s: &Spec, n: usize| SOpt { o: s.build(n), w: Weights::new(Layout::Contiguous, &vec![0.5; n]), n };
            let (mut a, mut b, mut twin) = (start(&spec, n), start(&other, m), start(&spec, n));
            for op in 0..ctx.choose(4) {
                a.apply(op)?;
                twin.apply(op)?;
            }
            for op in 0..ctx.choose(3) {
                b.apply(op)?;
            }
            guarded("clone_from", || b.assign(&a))?;
            b.n = n;
            ctx.steps(2);
            let what = format!("{:?} for {} weights cloned into {:?} for {}", spec, n, other, m);
            expect_vec(&what, &b.observe()?, &twin.observe()?)?;
            ctx.state((&what, bits(&b.observe()?)));
            b.apply(0)?;
            b.apply(1)?;
            expect_vec(&format!("the original after {}", what), &a.observe()?, &twin.observe()?)?;
            twin.apply(0)?;
            twin.apply(1)?;
            expect_vec(&format!("the clone after {}", what), &b.observe()?, &twin.observe()?)
        }));
    }
    // What little an optimiser has seen is not lost on its clone.
    for spec in all_specs(false) {
        out.push(scenario(format!("faint steps before cloning {:?}", spec), move |ctx| {
            let how = ctx.choose(2);
            let scales = [1e-3, -1e-6, 1e-8, 1e-11, 1e-20];
            let step = |o: &mut Opt, s: f64, k: Kind| -> R<Vec<f64>, String> {
                let mut w = Weights::new(Layout::Contiguous, &[0.0, 0.0]);
                guarded("step", || o.step_scaled(&mut w.view_mut(), &build(k, &[1.0, -0.5]), s))?.map_err(|e| e.to_string())?;
                Ok(w.get())
            };
            let (mut a, mut twin) = (spec.build(2), spec.build(2));
            let mut seen = vec![];
            for _ in 0..1 + ctx.choose(2) {
                let (s, k) = (*ctx.pick(&scales), *ctx.pick(&[Kind::Dense, Kind::Sparse]));
                step(&mut a, s, k)?;
                step(&mut twin, s, k)?;
                seen.push((s, k));
            }
            let mut c = guarded("clone", || a.clone())?;
            if how == 1 {
                c = spec.build(2);
                guarded("clone_from", || c.clone_from(&a))?;
            }
            ctx.steps(seen.len());
            let s = *ctx.pick(&scales);
            let want = step(&mut twin, s, Kind::Dense)?;
            for (who, o) in [("clone", &mut c), ("original", &mut a)] {
                let got = step(o, s, Kind::Dense)?;
                ctx.state((who, bits(&got)));
                if !got.iter().zip(&want).all(|(x, y)| close_tol(*x, *y, 1e-9, 0.0)) {
                    return Err(format!("the {} of {:?} after {:?}: a step with scale {} moves zero weights to {:?}, not {:?}", who, spec, seen, s, got, want));
                }
            }
            Ok(())
        }));
    }
    out.push(scenario("cloning a basis into another", |ctx| {
        let d = 1 + ctx.choose(2);
        let all: Vec<Entry> = base_entries(d).into_iter().chain(edited_entries()).filter(|e| e.n <= 70 && e.d == d).collect();
        let (i, j) = (ctx.choose(all.len()), ctx.choose(all.len()));
        let (e, f) = (&all[i], &all[j]);
        let (a, mut b, twin) = ((e.make)(), (f.make)(), (e.make)());
        guarded("clone_from", || b.clone_from(&a))?;
        ctx.step();
        ctx.state((d, i, j));
        for x in points(d) {
            for (who, g) in [("clone", &b), ("original", &a)] {
                let what = format!("the {} after cloning {} into {}", who, e.name, f.name);
                let (p, q) = (guarded("project", || g.project(&x[..]))?, guarded("project", || twin.project(&x[..]))?);
                expect_vec(&what, &denote(&p.map_err(|e| e.to_string())?)?, &denote(&q.map_err(|e| e.to_string())?)?)?;
                if spaces::Space::dim(g) != spaces::Space::dim(&twin) {
                    return Err(format!("{}: size {:?}", what, spaces::Space::dim(g)));
                }
            }
        }
        Ok(())
    }));
    out
}

pub fn c29(t: bool) -> Vec<Scenario> {
    let mut out = assignments();
    let v = vec![1.0, 0.0, -2.0];
    for kind in KINDS {
        let v = v.clone();
        out.push(scenario(format!("features: {:?}", kind), move |ctx| {
            let (b, a) = if ctx.thorough { (3, 4) } else { (2, 3) };
            let t = || SFeat(build(kind, &v));
            clone_histories(ctx, &|_| t(), &t, b, a)
        }));
    }
    for n in [1usize, 9, 33, 70, 130, 300] {
        for kind in KINDS {
            let v: Vec<f64> = (0..n).map(|i| if i % 3 == 1 { 0.0 } else { 1.5 - i as f64 }).collect();
            out.push(scenario(format!("features: {:?}, {} of them", kind, n), move |ctx| {
                let t = || SFeat(build(kind, &v));
                clone_histories(ctx, &|_| t(), &t, 1, 3)
            }));
        }
    }
    for spec in all_specs(false) {
        out.push(scenario(format!("optimisers: {:?}", spec), move |ctx| {
            let (b, a) = if ctx.thorough { (3, 4) } else { (2, 3) };
            let t = || SOpt { o: spec.build(2), w: Weights::new(Layout::Contiguous, &[0.5, -1.0]), n: 2 };
            clone_histories(ctx, &|_| t(), &t, b, a)
        }));
        for n in [1usize, 9, 33, 70, 130, 300] {
            out.push(scenario(format!("optimisers: {:?} for {} weights", spec, n), move |ctx| {
                let t = || SOpt { o: spec.build(n), w: Weights::new(Layout::Contiguous, &(0..n).map(|i| 0.5 - i as f64).collect::<Vec<_>>()), n };
                clone_histories(ctx, &|_| t(), &t, 1, 2)
            }));
        }
    }
    let mut es: Vec<Entry> = base_entries(2).into_iter().filter(|e| e.n <= 70).collect();
    es.extend(base_entries(1).into_iter().filter(|e| e.n <= 12));
    es.extend(static_entries().into_iter().filter(|e| e.n <= 70));
    for e in es {
        out.push(scenario(format!("bases: {}", e.name), move |ctx| {
            let n = if e.enumerable { 4 } else { 2 };
            let t = || SBasis((e.make)(), points(e.d), e.n, n);
            let a = if ctx.thorough { 3 } else { 2 };
            clone_histories(ctx, &|_| t(), &t, 1, a)
        }));
    }
    for spec in specs() {
        for (i, d) in [(0usize, 2usize), (1, 2), (2, 1)] {
            let make = move || {
                let names = ["UniformGrid([3, 2])", "Polynomial(2,1).with_zeroth", "Closure/1"];
                base_entries(d).into_iter().find(|e| e.name == names[i]).expect("harness: no such basis")
            };
            let e = std::sync::Arc::new(make());
            let e2 = e.clone();
            out.push(scenario(format!("scalar approximators: {} with {:?}", e.name, spec), move |ctx| {
                let (b, a) = if ctx.thorough { (2, 4) } else { (2, 3) };
                let t = || SScalar(LFA::scalar((e.make)(), spec.build(e.n)), points(e.d));
                clone_histories(ctx, &|_| t(), &t, b, a)
            }));
            out.push(scenario(format!("vector approximators: {} with {:?}", e2.name, spec), move |ctx| {
                let (b, a) = if ctx.thorough { (2, 4) } else { (2, 3) };
                let t = || SVector(LFA::vector((e2.make)(), spec.build(e2.n), 2), points(e2.d));
                clone_histories(ctx, &|_| t(), &t, b, a)
            }));
        }
    }
    out.push(public_parts());
    let _ = t;
    out
}
