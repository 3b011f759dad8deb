//! C09-C19: bases against independent definitions.
use crate::basis_util::*;
use crate::engine::*;
use crate::isolate::isolated_answer;
use crate::util::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::{Error, Features, Result};
use ndarray::Array1;
use spaces::Equipartition;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

fn proj(what: &str, b: &Dyn, x: &[f64]) -> std::result::Result<Features, String> {
    guarded(what, || b.0.project(x))?.map_err(|e| format!("{} failed: {}", what, e))
}

fn proj_vec(what: &str, b: &Dyn, x: &[f64]) -> std::result::Result<Vec<f64>, String> {
    denote(&proj(what, b, x)?).map_err(|e| format!("{}: {}", what, e))
}

pub fn all_entries(t: bool) -> Vec<Entry> {
    let mut v = vec![];
    for d in 1..=(if t { 4 } else { 3 }) {
        v.extend(base_entries(d));
    }
    v.extend(composed_entries(1));
    v.extend(composed_entries(2));
    if t {
        v.extend(composed_entries(3));
    }
    v.extend(static_entries());
    v.extend(edited_entries());
    v
}

// ---------------------------------------------------------------------- C09

/// One projection, checked for the advertised shape.
fn well_formed(e: &Entry, what: &str, f: &Features) -> std::result::Result<Vec<f64>, String> {
    expect_eq(&format!("{}: length", what), dim_of(f), e.n)?;
    expect_eq(&format!("{}: reported length", what), f.n_features(), e.n)?;
    let v = denote(f).map_err(|m| format!("{}: {}", what, m))?;
    if let Some(x) = v.iter().find(|x| !x.is_finite()) {
        return Err(format!("{}: activation {} is not finite", what, x));
    }
    expect_eq(&format!("{}: sparse storage", what), is_sparse(f), e.sparse)?;
    Ok(v)
}

macro_rules! form_check {
    ($want:expr, $b:expr, $($name:literal => $x:expr),+ $(,)?) => {{
        $({
            let f = guarded(concat!("project(", $name, ")"), || $b.project($x))?
                .map_err(|e| format!("project({}) failed: {}", $name, e))?;
            same_features(concat!("project(", $name, ")"), &f, &$want)?;
        })+
    }};
}

fn forms_by_item(d: usize, name: &'static str) -> Scenario {
    // Bases that accept any iterator over values or references.
    scenario(format!("input forms: {} {}d", name, d), move |ctx| {
        let xs = inputs(d, if d == 1 { 6 } else { 3 });
        let x = ctx.pick(&xs).clone();
        ctx.log(|| format!("{:?}", x));
        let a1 = Array1::from(x.clone());
        macro_rules! all {
            ($b:expr) => {{
                let b = $b;
                let want = denote(&b.project(&x[..]).map_err(|e| e.to_string())?)?;
                form_check!(want, b,
                    "&[f64]" => &x[..],
                    "&Vec<f64>" => &x,
                    "Vec<f64>" => x.clone(),
                    "&Array1" => &a1,
                    "ArrayView1" => a1.view(),
                    "iterator of values" => x.iter().copied(),
                    "iterator of references" => x.iter(),
                    "mapped iterator" => x.iter().map(|v| v + 0.0),
                    "Vec<&f64>" => x.iter().collect::<Vec<&f64>>());
                if d == 2 {
                    let fixed = [x[0], x[1]];
                    form_check!(want, b, "&[f64; 2]" => &fixed, "[f64; 2]" => fixed);
                    let t = std::iter::once(x[0]).chain(std::iter::once(x[1]));
                    form_check!(want, b, "chained iterator" => t.clone());
                }
                let c = b.clone();
                form_check!(want, c, "clone with Vec<f64>" => x.clone());
                for i in 0..want.len() {
                    for (k, y) in [b.ith(&x[..], i), b.ith(x.clone(), i), b.ith(&x, i), b.ith(x.iter(), i), b.ith(a1.view(), i)].into_iter().enumerate() {
                        expect(&format!("ith({}) form {}", i, k), y.map_err(|e| e.to_string())?, want[i])?;
                    }
                }
                ctx.steps(12 + 5 * want.len());
                ctx.state((d, name, bits(&want)));
            }};
        }
        match name {
            "Polynomial" => all!(Polynomial::new(d, 2).with_zeroth()),
            "Chebyshev" => all!(Chebyshev::new(2, limits(d)).with_zeroth()),
            _ => all!(Fourier::new(2, limits(d))),
        }
        Ok(())
    })
}

fn forms_by_ref(d: usize, grid: bool) -> Scenario {
    scenario(format!("input forms: {} {}d", if grid { "UniformGrid" } else { "TileCoding" }, d), move |ctx| {
        let xs = inputs(d, if d == 1 { 6 } else { 3 });
        let x = ctx.pick(&xs).clone();
        let a1 = Array1::from(x.clone());
        macro_rules! all {
            ($b:expr) => {{
                let b = $b;
                let want = denote(&b.project(&x[..]).map_err(|e| e.to_string())?)?;
                form_check!(want, b,
                    "&[f64]" => &x[..],
                    "&Vec<f64>" => &x,
                    "&Array1" => &a1,
                    "ArrayView1" => a1.view(),
                    "iterator of references" => x.iter(),
                    "Vec<&f64>" => x.iter().collect::<Vec<&f64>>());
                ctx.steps(6);
                ctx.state((d, grid, bits(&want)));
                for i in 0..want.len() {
                    for y in [b.ith(&x[..], i), b.ith(&x, i), b.ith(x.iter(), i)] {
                        expect(&format!("ith({})", i), y.map_err(|e| e.to_string())?, want[i])?;
                    }
                }
            }};
        }
        if grid {
            all!(UniformGrid::new(equi(&[3, 2, 4][..d])))
        } else {
            all!(TileCoding::new(Bh::default(), 4, 64))
        }
        Ok(())
    })
}

fn forms_by_slice() -> Scenario {
    scenario("input forms: KernelBasis", |ctx| {
        let d = 1 + ctx.choose(3);
        let xs = inputs(d, 3);
        let x = ctx.pick(&xs).clone();
        let b = KernelBasis::exp_quad(equi(&[3, 2, 2][..d]));
        let want = denote(&b.project(&x[..]).map_err(|e| e.to_string())?)?;
        form_check!(want, b, "&[f64]" => &x[..], "Vec<f64>" => x.clone(), "Box<[f64]>" => x.clone().into_boxed_slice());
        if d == 2 {
            form_check!(want, b, "[f64; 2]" => [x[0], x[1]]);
        }
        ctx.steps(4);
        ctx.state((d, bits(&want)));
        for p in &b.prototypes {
            let v = p.distance_from(&x[..]);
            expect("prototype", p.distance_from(x.clone()), v)?;
        }
        Ok(())
    })
}

/// Points within the limits of the bases of [`wide_entries`].
fn wide_inputs(d: usize) -> Vec<Vec<f64>> {
    let lim = [(-1.0, 1.0), (0.0, 3.0), (-2.0, 0.5), (5.0, 6.0)];
    let mut xs: Vec<Vec<f64>> = [0.4, 0.05, 0.97]
        .iter()
        .map(|f| (0..d).map(|i| lim[i % 4]).map(|(a, b): (f64, f64)| a + f * (b - a)).collect())
        .collect();
    xs.push((0..d).map(|i| [0.02, 2.9, -1.9, 5.5, 0.5][i % 5]).collect());
    xs
}

/// A basis next to a part that fails for one input and panics for another:
/// histories of accepted and refused projections.
fn refused(e: Arc<Entry>) -> Scenario {
    let all = inputs(e.d, if e.d == 1 { 6 } else { 3 });
    let k = all.len();
    let xs = [all[0].clone(), all[k / 2].clone()];
    let (fails, panics) = (all[k - 1][0], all[k - 1][0] - 0.0625);
    let mut refused = [all[k - 1].clone(), all[k - 1].clone()];
    refused[1][0] = panics;
    assert!(xs.iter().all(|x| x[0] != fails && x[0] != panics));
    let row = |x: &[f64]| vec![x[0] - 1.5, 2.0];
    let bad = move || {
        mock(2, move |x| {
            if x[0] == panics {
                panic!("user code: refused");
            }
            Features::from(row(x))
        })
        .failing(fails, 5)
    };
    // (nothing has failed yet)
    let own: Vec<_> = xs.iter().map(|x| proj_vec("fresh", &(e.make)(), x)).collect();
    scenario(format!("refusals in between: {}", e.name), move |ctx| {
        let shape = ctx.choose(7);
        let make = || -> Dyn {
            let b = (e.make)();
            match shape {
                0 => plain(b.stack(bad())),
                1 => plain(bad().stack(b)),
                2 => plain(b.stack(bad()).with_bias()),
                3 => plain(Bias(0.5).stack(bad().stack(b))),
                4 => plain(b.stack(bad().normalise_l1())),
                5 => plain(b.stack(bad()).normalise_linf()),
                _ => plain(Bias(3.0).stack(b).stack(bad())),
            }
        };
        let want = |i: usize| -> std::result::Result<Vec<f64>, String> {
            let (a, r) = (own[i].clone()?, row(&xs[i]));
            let l1 = r[0].abs() + r[1].abs();
            Ok(match shape {
                0 => [a, r].concat(),
                1 => [r, a].concat(),
                2 => [a, r, vec![1.0]].concat(),
                3 => [vec![0.5], r, a].concat(),
                4 => [a, vec![r[0] / l1, r[1] / l1]].concat(),
                5 => {
                    let v = [a, r].concat();
                    let z = v.iter().fold(0.0f64, |z, x| z.max(x.abs()));
                    v.iter().map(|x| x / z).collect()
                }
                _ => [vec![3.0], a, r].concat(),
            })
        };
        let mut b = make();
        let other = make();
        let mut trace = vec![];
        for _ in 0..(if ctx.thorough { 5 } else { 4 }) {
            let op = ctx.choose(7);
            trace.push(op);
            ctx.step();
            let the = if op == 4 { &other } else { &b };
            match op {
                0 | 1 | 4 => expect_vec("project in a history", &proj_vec("project", the, &xs[op % 4])?, &want(op % 4)?)?,
                2 => match guarded("project", || b.0.project(&refused[0]))? {
                    Ok(f) => return Err(format!("projecting what a part refuses gave {:?}", f)),
                    Err(err) => expect_eq("error", err, bad().error())?,
                },
                3 => {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.0.project(&refused[1])));
                    if r.is_ok() || !last_panic().contains("user code") {
                        return Err(format!("a part panicked, but the projection returned {:?} (last panic: {})", r.ok(), last_panic()));
                    }
                }
                5 => b = b.clone(),
                _ => b = make(),
            }
        }
        ctx.log(|| format!("{} in shape {}: {:?}", e.name, shape, trace));
        ctx.state((&e.name, shape, trace));
        Ok(())
    })
}

pub fn c09(t: bool) -> Vec<Scenario> {
    let mut out = vec![super::nested::bases()];
    for e in wide_entries(t) {
        out.push(scenario(format!("shape: {}", e.name), move |ctx| {
            let xs = wide_inputs(e.d);
            let i = ctx.choose(xs.len());
            let j = ctx.choose(xs.len());
            ctx.log(|| format!("{} at {:?} after {:?}", e.name, xs[j], xs[i]));
            let b = guarded("construction", || (e.make)())?;
            expect_eq("dim()", b.0.dim(), e.n)?;
            expect_eq("n_features()", b.0.n_features(), e.n)?;
            let mut answers = vec![];
            for k in [i, j, i] {
                answers.push(well_formed(&e, "project", &proj("project", &b, &xs[k])?)?);
            }
            expect_vec("project again", &answers[2], &answers[0])?;
            expect_vec("fresh", &proj_vec("fresh", &(e.make)(), &xs[j])?, &answers[1])?;
            expect_vec("clone", &proj_vec("clone", &b.clone(), &xs[j])?, &answers[1])?;
            ctx.steps(5);
            ctx.state((&e.name, i, j));
            Ok(())
        }));
    }
    let depth = if t { 5 } else { 4 };
    for e in all_entries(t) {
        let e = Arc::new(e);
        let e1 = e.clone();
        out.push(scenario(format!("shape: {}", e.name), move |ctx| {
            let e = &*e1;
            let xs = inputs(e.d, match (e.d, ctx.thorough) {
                (1, _) => 6,
                (2, true) => 6,
                (2, false) => 4,
                _ => 3,
            });
            let x = ctx.pick(&xs).clone();
            ctx.log(|| format!("{} at {:?}", e.name, x));
            let b = guarded("construction", || (e.make)())?;
            expect_eq("dim()", b.0.dim(), e.n)?;
            expect_eq("n_features()", b.0.n_features(), e.n)?;
            let v = well_formed(e, "project", &proj("project", &b, &x)?)?;
            let again = well_formed(e, "project again", &proj("project again", &b, &x)?)?;
            expect_vec("project again", &again, &v)?;
            let c = b.clone();
            expect_eq("clone: dim()", c.0.dim(), e.n)?;
            expect_vec("clone", &well_formed(e, "clone", &proj("clone", &c, &x)?)?, &v)?;
            let fresh = (e.make)();
            expect_vec("fresh", &proj_vec("fresh", &fresh, &x)?, &v)?;
            ctx.steps(4);
            ctx.state((&e.name, bits(&x)));
            Ok(())
        }));
        // Histories over one object: every answer must be the one a fresh
        // object would give.
        if e.n <= 70 && (!e.name.contains("++") || t) {
            let e2 = e.clone();
            out.push(scenario(format!("history: {}", e.name), move |ctx| {
                let e = &*e2;
                let all = inputs(e.d, if e.d == 1 { 6 } else { 3 });
                let k = all.len();
                let xs = [all[0].clone(), all[k / 2].clone(), all[k - 1].clone()];
                let mut b = (e.make)();
                let other = (e.make)();
                let mut trace = vec![];
                for _ in 0..depth {
                    let op = ctx.choose(if e.enumerable { 9 } else { 6 });
                    let i = op % 3;
                    trace.push(op);
                    ctx.step();
                    match op / 3 {
                        0 => {
                            let want = proj_vec("fresh", &(e.make)(), &xs[i])?;
                            ctx.state_here((i, bits(&want)));
                            expect_vec("project in a history", &proj_vec("project", &b, &xs[i])?, &want)?;
                        }
                        1 if i == 0 => b = b.clone(),
                        1 => {
                            // somebody else projects in between
                            let want = proj_vec("fresh", &(e.make)(), &xs[i])?;
                            expect_vec("another basis", &proj_vec("project", &other, &xs[i])?, &want)?;
                        }
                        _ => {
                            if e.n > 0 {
                                let j = (i + 1) % e.n;
                                let want = proj_vec("fresh", &(e.make)(), &xs[i])?[j];
                                let got = guarded("ith", || b.0.ith(&xs[i], j))?.unwrap().map_err(|e| e.to_string())?;
                                expect("ith in a history", got, want)?;
                            }
                        }
                    }
                }
                ctx.log(|| format!("{} ops {:?}", e.name, trace));
                Ok(())
            }));
        }
    }
    // Projections that fail or panic in some part of a composition, and what is
    // answered afterwards.
    for d in 1..=(if t { 3 } else { 2 }) {
        for e in base_entries(d).into_iter().filter(|e| e.n <= 40) {
            out.push(refused(Arc::new(e)));
        }
    }
    // Any two bases used in turn at the same inputs, from the state the library
    // has before its first use; the answers expected are those of processes
    // that have asked for nothing else.
    let mut families: Vec<(String, Vec<Entry>)> = (1..=3)
        .map(|d| {
            let mut es = base_entries(d);
            // half of the orders will do for pairs
            es.retain(|e| t || !(e.name.contains(",4)") || e.name.contains(",5)") || e.name.contains(",6)")));
            es.extend(variant_entries(d));
            (format!("{}d", d), es)
        })
        .collect();
    if t {
        families.push(("composed 1d".into(), composed_entries(1).into_iter().filter(|e| !e.name.contains("++")).collect()));
        families.push(("combinators".into(), static_entries()));
    }
    for (_, es) in families.iter_mut() {
        es.retain(|e| e.n <= 130);
    }
    families.push(("colliding parameters".into(), colliding_entries()));
    for (name, es) in families {
        let d = es[0].d;
        let all = inputs(d, if d == 1 { 6 } else { 3 });
        let xs = [all[1].clone(), all[all.len() - 1].clone()];
        let answers: Vec<Vec<std::result::Result<Vec<f64>, String>>> = es
            .iter()
            .map(|e| xs.iter().map(|x| isolated_answer(|| proj_vec("project", &guarded("construction", || (e.make)())?, x))).collect())
            .collect();
        out.push(
            scenario(format!("any two bases in turn: {}", name), move |ctx| {
                let (i, j) = (ctx.choose(es.len()), ctx.choose(es.len()));
                let (a, b) = ((es[i].make)(), (es[j].make)());
                ctx.log(|| format!("{} and {}", es[i].name, es[j].name));
                for (k, x, first) in [(0, 0, true), (1, 0, false), (2, 0, true), (3, 1, true), (4, 1, false), (5, 0, true), (6, 0, false)] {
                    let (e, bas, want) = if first { (&es[i], &a, &answers[i][x]) } else { (&es[j], &b, &answers[j][x]) };
                    let want = want.as_ref().map_err(|m| format!("{}: {}", e.name, m))?;
                    let what = format!("{} and {} in turn, projection {} ({} at {:?}) against a process that does only this", es[i].name, es[j].name, k, e.name, xs[x]);
                    expect_vec(&what, &proj_vec("project", bas, &xs[x])?, want)?;
                    if e.enumerable && e.n > 0 {
                        let got = guarded("ith", || bas.0.ith(&xs[x], e.n / 2))?.unwrap().map_err(|e| e.to_string())?;
                        expect(&format!("{}: single feature", what), got, want[e.n / 2])?;
                        ctx.step();
                    }
                    ctx.step();
                    ctx.state((&e.name, bits(want)));
                }
                drop((a, b));
                // Inputs and bases that come and go in the same places in memory.
                let mut buf = xs[0].clone();
                for k in 0..4 {
                    let (e, answers) = if k % 2 == 0 { (&es[i], &answers[i]) } else { (&es[j], &answers[j]) };
                    let bas = (e.make)();
                    for x in [k % 2, 1 - k % 2] {
                        buf.copy_from_slice(&xs[x]);
                        let want = answers[x].as_ref().map_err(|m| format!("{}: {}", e.name, m))?;
                        let what = format!("{} then {} in its place, the input in the same buffer, round {} at {:?}", es[i].name, es[j].name, k, buf);
                        expect_vec(&what, &proj_vec("project", &bas, &buf)?, want)?;
                        if e.enumerable && e.n > 0 {
                            let got = guarded("ith", || bas.0.ith(&buf, e.n / 2))?.unwrap().map_err(|e| e.to_string())?;
                            expect(&format!("{}: single feature", what), got, want[e.n / 2])?;
                        }
                        ctx.step();
                    }
                }
                Ok(())
            })
            .isolated(),
        );
    }
    // Many distinct inputs between two projections of the same one.
    for d in 1..=2 {
        for e in base_entries(d) {
            if e.n > 70 {
                continue;
            }
            out.push(scenario(format!("long history: {}", e.name), move |ctx| {
                let len = *ctx.pick(&[10usize, 70, 300]);
                let b = (e.make)();
                let l = limits(e.d);
                let pt = |k: usize| -> Vec<f64> {
                    (0..e.d).map(|i| l[i].0 + (l[i].1 - l[i].0) * (((k * (7 + 4 * i) + 3 * i) % 331) as f64 + 0.5) / 331.0).collect()
                };
                for k in 0..len {
                    let want = proj_vec("fresh", &(e.make)(), &pt(k))?;
                    ctx.state_here(bits(&want));
                    expect_vec(&format!("project number {}", k), &proj_vec("project", &b, &pt(k))?, &want)?;
                }
                for k in 0..len {
                    let want = proj_vec("fresh", &(e.make)(), &pt(k))?;
                    expect_vec(&format!("second round, project number {}", k), &proj_vec("project", &b, &pt(k))?, &want)?;
                }
                ctx.steps(2 * len);
                Ok(())
            }));
        }
    }
    // Inputs that are alike in what a shortcut might look at: the same numbers
    // in another order, with other signs, a hair apart.
    for d in 1..=3usize {
        let mut xs: Vec<Vec<f64>> = match d {
            1 => [0.25, -0.25, 0.25 + 1e-9, 0.25 + 1e-6, 0.75, 4.25, 4.25 + 1e-9, -0.0, 0.0, 1e-9].iter().map(|x| vec![*x]).collect(),
            2 => grid(2, &[0.25, -0.25, 0.75, 0.25 + 1e-6]),
            _ => grid(3, &[0.25, -0.75]),
        };
        if d == 3 {
            xs.extend([vec![0.25, 0.5, 0.75], vec![0.5, 0.75, 0.25], vec![0.75, 0.25, 0.5], vec![0.25, 0.75, 0.5]]);
        }
        for e in base_entries(d) {
            if e.n > 130 {
                continue;
            }
            let answers: Vec<std::result::Result<Vec<f64>, String>> =
                xs.iter().map(|x| isolated_answer(|| proj_vec("project", &guarded("construction", || (e.make)())?, x))).collect();
            let xs = xs.clone();
            out.push(scenario(format!("similar inputs in turn: {}", e.name), move |ctx| {
                let (i, j) = (ctx.choose(xs.len()), ctx.choose(xs.len()));
                ctx.log(|| format!("{} at {:?} and {:?}", e.name, xs[i], xs[j]));
                let b = guarded("construction", || (e.make)())?;
                let other = (e.make)();
                for (k, x, b) in [(0, i, &b), (1, j, &b), (2, i, &b), (3, j, &other), (4, i, &other)] {
                    let want = answers[x].as_ref().map_err(|m| format!("{}: {}", e.name, m))?;
                    let what = format!("projection {} at {:?} against a process that does only this", k, xs[x]);
                    expect_vec(&what, &proj_vec("project", b, &xs[x])?, want)?;
                    if e.enumerable && e.n > 0 {
                        let got = guarded("ith", || b.0.ith(&xs[x], e.n - 1))?.unwrap().map_err(|e| e.to_string())?;
                        expect(&format!("{}: single feature", what), got, want[e.n - 1])?;
                    }
                    ctx.steps(2);
                }
                ctx.state((&e.name, i, j));
                Ok(())
            }));
        }
    }
    // So many distinct inputs that whatever might be kept of them is full.
    for d in 1..=2usize {
        for e in base_entries(d) {
            if e.n > 40 {
                continue;
            }
            let l = limits(d);
            let pt = move |k: usize| -> Vec<f64> {
                (0..d).map(|i| l[i].0 + (l[i].1 - l[i].0) * (((k * (1 + 4 * i)) % 100_003) as f64 + 0.5) / 100_003.0).collect()
            };
            let probes: Vec<Vec<f64>> = (0..40).map(|k| pt(k * 2477 + 11)).flat_map(|p| {
                let mut q = p.clone();
                q[0] += 3e-7;
                [p, q]
            }).collect();
            let wants = isolated_answer(|| {
                let b = guarded("construction", || (e.make)())?;
                let mut out = vec![];
                for x in &probes {
                    out.extend(proj_vec("project", &b, x)?);
                }
                Ok(out)
            });
            out.push(
                scenario(format!("very many inputs: {}", e.name), move |ctx| {
                    let len = *ctx.pick(if ctx.thorough { &[1000usize, 5000, 70_000, 1_100_000][..] } else { &[5000, 70_000][..] });
                    let want = wants.as_ref().map_err(|m| format!("{}: {}", e.name, m))?;
                    let b = guarded("construction", || (e.make)())?;
                    for k in 0..len {
                        let f = proj("project", &b, &pt(k))?;
                        expect_eq("length", dim_of(&f), e.n)?;
                    }
                    for (b, who) in [(b.clone(), "clone"), ((e.make)(), "fresh"), (b, "the same")] {
                        for (k, x) in probes.iter().enumerate() {
                            let what = format!("{} basis at {:?} after {} other inputs", who, x, len);
                            expect_vec(&what, &proj_vec("project", &b, x)?, &want[k * e.n..(k + 1) * e.n])?;
                        }
                    }
                    ctx.steps(len + 240);
                    ctx.state((&e.name, len));
                    Ok(())
                })
                .isolated(),
            );
        }
    }
    for d in 1..=3 {
        for n in ["Polynomial", "Chebyshev", "Fourier"] {
            out.push(forms_by_item(d, n));
        }
        out.push(forms_by_ref(d, true));
        out.push(forms_by_ref(d, false));
    }
    out.push(forms_by_slice());
    out
}

// ---------------------------------------------------------------------- C10

fn check_ith(ctx: &mut Ctx, b: &Dyn, x: &[f64], n: usize, i: usize) -> Res {
    let v = if x.iter().all(|v| v.is_finite()) {
        proj_vec("project", b, x)?
    } else {
        // nothing is promised about the projection itself
        match guarded("project", || b.0.project(x)) {
            Ok(Ok(f)) => denote(&f)?,
            _ => return Ok(()),
        }
    };
    if i < n && v[i].is_nan() {
        return Ok(());
    }
    let r = guarded(&format!("ith({})", i), || b.0.ith(x, i))?.expect("enumerable");
    ctx.step();
    match r {
        Ok(y) if i < n => expect(&format!("ith({})", i), y, v[i]),
        Ok(y) => Err(format!("ith({}) of {} features returned {}", i, n, y)),
        Err(e) if i < n => Err(format!("ith({}) of {} features failed: {}", i, n, e)),
        Err(_) => Ok(()),
    }
}

pub fn c10(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for e in all_entries(t) {
        if !e.enumerable {
            continue;
        }
        out.push(scenario(format!("ith: {}", e.name), move |ctx| {
            let mut xs = inputs(e.d, match e.d {
                1 => 6,
                2 => 3,
                _ => 2,
            });
            // on and beyond the limits of the basis
            let mid: Vec<f64> = limits(e.d).iter().map(|(a, b)| a + 0.4 * (b - a)).collect();
            for (k, far) in [-7.5, 9.25, -1e6, 1e9, f64::INFINITY, f64::NEG_INFINITY].into_iter().enumerate() {
                if !far.is_finite() && e.name.contains("ile") {
                    continue; // tile coordinates are integers
                }
                let mut p = mid.clone();
                p[k % e.d] = far;
                xs.push(p);
                xs.push(vec![far; e.d]);
            }
            let x = ctx.pick(&xs).clone();
            let extra = [e.n, e.n + 1, e.n + 2, 2 * e.n + 1, e.n + 64, 1 << 33, usize::MAX / 2, usize::MAX - 1, usize::MAX];
            let k = ctx.choose(e.n + extra.len());
            let i = if k < e.n { k } else { extra[k - e.n] };
            ctx.log(|| format!("{} at {:?}, index {}", e.name, x, i));
            let b = (e.make)();
            if i >= e.n {
                ctx.witness("out of range");
            }
            ctx.state((&e.name, bits(&x), i));
            check_ith(ctx, &b, &x, e.n, i)
        }));
    }
    for e in wide_entries(t) {
        out.push(scenario(format!("ith: {}", e.name), move |ctx| {
            let x = ctx.pick(&wide_inputs(e.d)).clone();
            let b = (e.make)();
            let v = proj_vec("project", &b, &x)?;
            // all of them, or those at the edges, the active ones, and some between
            let all: Vec<usize> = if e.n <= 1000 {
                (0..e.n + 3).collect()
            } else {
                let mut l = vec![0, 1, 2, e.n / 3, e.n / 2, e.n / 2 + 1, e.n - 2, e.n - 1, e.n, e.n + 1, 2 * e.n];
                l.extend([255, 256, 4095, 4096, 65_534, 65_535, 65_536, 65_537]);
                l.extend(v.iter().enumerate().filter(|(_, a)| **a != 0.0).map(|(i, _)| i).take(40));
                l
            };
            ctx.log(|| format!("{} at {:?}", e.name, x));
            ctx.state((&e.name, bits(&x)));
            for i in all {
                let r = guarded(&format!("ith({})", i), || b.0.ith(&x, i))?.expect("enumerable");
                ctx.step();
                match r {
                    Ok(y) if i < e.n => expect(&format!("ith({})", i), y, v[i])?,
                    Ok(y) => return Err(format!("ith({}) of {} features returned {}", i, e.n, y)),
                    Err(err) if i < e.n => return Err(format!("ith({}) of {} features failed: {}", i, e.n, err)),
                    Err(_) => {}
                }
            }
            Ok(())
        }));
    }
    // The default evaluation, stacks and normalisers over arbitrary vectors.
    for (name, n) in [("small", 3usize), ("long", 33)] {
        out.push(scenario(format!("arbitrary projections: {}", name), move |ctx| {
            let wrap = ctx.choose(9);
            let kind = *ctx.pick(&KINDS);
            let v = if n == 3 { ctx.pick_vec(3, &[0.0, 1.0, -0.5, 3.0]) } else { ctx.pick(&long_vectors(33)).clone() };
            let k = kind;
            let vv = v.clone();
            let m = || {
                let vv = vv.clone();
                mock(vv.len(), move |_| build(k, &vv))
            };
            let tail = || mock(2, |_| build(Kind::Sparse, &[0.0, 5.0]));
            let (b, total): (Dyn, usize) = match wrap {
                0 => (en(m()), n),
                1 => (en(m().normalise_l0()), n),
                2 => (en(m().normalise_l1()), n),
                3 => (en(m().normalise_l2()), n),
                4 => (en(m().normalise_linf()), n),
                5 => (en(m().stack(tail())), n + 2),
                6 => (en(tail().stack(m())), n + 2),
                7 => (en(m().stack(m().normalise_l1()).with_bias()), 2 * n + 1),
                _ => (en(tail().stack(m().stack(tail())).normalise_l2()), n + 4),
            };
            let i = if n == 3 {
                ctx.choose(total + 3)
            } else {
                *ctx.pick(&[0, 1, 16, 31, 32, 33, 34, 35, 65, 66, 67, 99])
            };
            ctx.log(|| format!("wrap {} {:?} {:?} index {}", wrap, kind, v, i));
            ctx.state((wrap, kind, bits(&v), i));
            if kind.is_sparse() && i < n && v[i] == 0.0 {
                ctx.witness("inactive feature");
            }
            check_ith(ctx, &b, &[0.0], total, i)
        }));
    }
    out
}

// ------------------------------------------------------------- C11, C12, C13

/// All vectors in {0..=n}^d but zero, in lexicographic order.
pub fn degree_vectors(d: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut v = vec![0usize; d];
    loop {
        let mut i = d;
        loop {
            if i == 0 {
                return out;
            }
            i -= 1;
            if v[i] < n {
                v[i] += 1;
                for x in v[i + 1..].iter_mut() {
                    *x = 0;
                }
                break;
            }
        }
        out.push(v.clone());
    }
}

fn grid(d: usize, vals: &[f64]) -> Vec<Vec<f64>> {
    let mut out: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..d {
        out = out
            .into_iter()
            .flat_map(|p| {
                vals.iter().map(move |v| {
                    let mut q = p.clone();
                    q.push(*v);
                    q
                })
            })
            .collect();
    }
    out
}

fn polynomial_sizes(t: bool) -> Vec<(usize, Vec<usize>)> {
    vec![
        (1, (0..=40).chain(vec![64, 100, 127, 128, 200, 254, 255]).collect()),
        (2, (0..=(if t { 20 } else { 11 })).collect()),
        (3, (0..=(if t { 9 } else { 5 })).collect()),
        (4, (0..=(if t { 5 } else { 3 })).collect()),
        (5, (0..=(if t { 3 } else { 2 })).collect()),
        (6, (0..=(if t { 2 } else { 1 })).collect()),
        (8, vec![0, 1]),
        (10, vec![1]),
    ]
}

fn check_features(ctx: &mut Ctx, what: &str, b: &Dyn, x: &[f64], want: &[f64], rtol: f64, atol: f64) -> Res {
    expect_eq(&format!("{}: size", what), b.0.dim(), want.len())?;
    let f = proj(what, b, x)?;
    let v = denote(&f)?;
    for i in 0..v.len().min(want.len()) {
        if !close_tol(v[i], want[i], rtol, atol) {
            return Err(format!("{}: feature {} at {:?} is {}, want {}", what, i, x, v[i], want[i]));
        }
    }
    expect_eq(&format!("{}: length", what), v.len(), want.len())?;
    ctx.step();
    Ok(())
}

fn check_features_each(ctx: &mut Ctx, what: &str, b: &Dyn, x: &[f64], want: &[f64], tol: &[f64]) -> Res {
    expect_eq(&format!("{}: size", what), b.0.dim(), want.len())?;
    let v = denote(&proj(what, b, x)?)?;
    for i in 0..v.len().min(want.len()) {
        if !close_tol(v[i], want[i], 0.0, tol[i]) {
            return Err(format!("{}: feature {} at {:?} is {}, want {} (tolerance {:e})", what, i, x, v[i], want[i], tol[i]));
        }
    }
    expect_eq(&format!("{}: length", what), v.len(), want.len())?;
    ctx.step();
    Ok(())
}

pub fn c11(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for (d, orders) in polynomial_sizes(t) {
        for o in orders {
            out.push(scenario(format!("d={} order={}", d, o), move |ctx| {
                let pts: Vec<Vec<f64>> = match d {
                    1 => grid(1, &[-2.0, -1.5, -1.0, -0.7, -0.5, 0.0, 0.3, 0.5, 1.0, 1.1, 1.5, 3.0]),
                    2 => grid(2, &[-2.0, -1.0, -0.7, 0.0, 0.3, 1.0, 1.1, 1.5]),
                    3 => grid(3, &[-1.5, -1.0, 0.0, 0.7, 1.3]),
                    4 => grid(4, &[-1.5, 0.0, 0.7]),
                    _ => {
                        let mut g = vec![
                            (0..d).map(|i| 0.5 + 0.21 * i as f64).collect::<Vec<f64>>(),
                            (0..d).map(|i| if i % 2 == 0 { -1.25 } else { 0.75 }).collect(),
                        ];
                        for i in 0..d {
                            let mut p = vec![1.0; d];
                            p[i] = -1.7;
                            g.push(p);
                            let mut p: Vec<f64> = (0..d).map(|j| 1.0 + 0.1 * j as f64).collect();
                            p[i] = 0.0;
                            g.push(p);
                        }
                        g
                    }
                };
                let x = ctx.pick(&pts).clone();
                ctx.log(|| format!("{:?}", x));
                let mut want: Vec<f64> = degree_vectors(d, o)
                    .iter()
                    .map(|e| {
                        let mut p = 1.0;
                        for (v, k) in x.iter().zip(e) {
                            for _ in 0..*k {
                                p *= v;
                            }
                        }
                        p
                    })
                    .collect();
                expect_eq("oracle size", want.len() as u64, (o as u64 + 1).pow(d as u32) - 1)?;
                // denormal results lose relative accuracy
                let (r, a) = (1e-9, 1e-290);
                let b = guarded("Polynomial::new", || en(Polynomial::new(d, o as u8)))?;
                check_features(ctx, "Polynomial", &b, &x, &want, r, a)?;
                want.push(1.0);
                let b = guarded("with_zeroth", || en(Polynomial::new(d, o as u8).with_zeroth()))?;
                check_features(ctx, "with_zeroth", &b, &x, &want, r, a)?;
                want.push(1.0);
                let b = guarded("with_zeroth twice", || en(Polynomial::new(d, o as u8).with_zeroth().with_zeroth()))?;
                check_features(ctx, "with_zeroth twice", &b, &x, &want, r, a)?;
                ctx.state((d, o, bits(&x)));
                Ok(())
            }));
        }
    }
    for (d, o) in large_sizes(t) {
        out.push(scenario(format!("large: d={} order={}", d, o), move |ctx| {
            let x = ctx.pick(&large_inputs(d)).clone();
            let want: Vec<f64> =
                degree_vectors(d, o).iter().map(|e| x.iter().zip(e).map(|(v, k)| v.powi(*k as i32)).product()).collect();
            let tol: Vec<f64> = want.iter().map(|w| 1e-290 + 1e-9 * w.abs()).collect();
            let b = guarded("Polynomial::new", || en(Polynomial::new(d, o as u8)))?;
            check_large(ctx, "Polynomial", &b, &x, &want, &tol)?;
            ctx.state((d, o, bits(&x)));
            Ok(())
        }));
    }
    out
}

fn many_limits() -> Vec<(f64, f64)> {
    vec![
        (-1.0, 1.0), (0.0, 3.0), (-2.0, 0.5), (5.0, 6.0), (-1e3, 1e3), (-10.0, -9.5), (0.0, 1.0), (1e-3, 2e-3),
        // narrow, far from the origin; very wide; very narrow
        (1e10, 1e10 + 0.75), (-1e8, -1e8 + 1.0), (-1e150, 3e150), (1e-200, 5e-200),
    ]
}

/// Degree and coefficient orders for more features than 16 bits count.
fn large_sizes(t: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(2, 255), (3, 40), (4, 16), (17, 1)];
    if t {
        v.extend(vec![(3, 70), (5, 9), (11, 2)]);
    }
    v
}

fn large_inputs(d: usize) -> Vec<Vec<f64>> {
    vec![
        (0..d).map(|i| 0.83 + 0.11 * (i % 5) as f64).collect(),
        (0..d).map(|i| if i % 2 == 0 { -0.9 } else { 1.01 }).collect(),
    ]
}

/// Features of a basis too large to read entry by entry: all of them at once,
/// and chosen ones alone.
fn check_large(ctx: &mut Ctx, what: &str, b: &Dyn, x: &[f64], want: &[f64], tol: &[f64]) -> Res {
    check_features_each(ctx, what, b, x, want, tol)?;
    let n = want.len();
    for i in [0, 1, 255, 256, 65_534, 65_535, 65_536, 65_537, n / 2, n - 2, n - 1] {
        if i >= n {
            continue;
        }
        let v = guarded("ith", || b.0.ith(x, i))?.expect("enumerable").map_err(|e| e.to_string())?;
        if !close_tol(v, want[i], 0.0, tol[i]) {
            return Err(format!("{}: ith({}) at {:?} is {}, want {}", what, i, x, v, want[i]));
        }
    }
    ctx.step();
    Ok(())
}

fn limit_choices(ctx: &mut Ctx, d: usize) -> Vec<(f64, f64)> {
    let l = many_limits();
    if d == 1 {
        vec![*ctx.pick(&l)]
    } else {
        let k = ctx.choose(if d == 2 { l.len() } else { 4 });
        (0..d).map(|i| l[(k + i * (1 + k % 3)) % l.len()]).collect()
    }
}

fn chebyshev(n: usize, x: f64) -> f64 {
    let (mut a, mut b) = (1.0, x);
    if n == 0 {
        return a;
    }
    for _ in 1..n {
        let c = 2.0 * x * b - a;
        a = b;
        b = c;
    }
    b
}

/// The sum of the magnitudes of the monomials of T_n at x >= 0.
fn chebyshev_magnitude(n: usize, x: f64) -> f64 {
    let (mut a, mut b) = (1.0, x);
    if n == 0 {
        return a;
    }
    for _ in 1..n {
        let c = 2.0 * x * b + a;
        a = b;
        b = c;
    }
    b
}

pub fn c12(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let sizes: Vec<(usize, usize)> = (0..=11)
        .map(|o| (1, o))
        .chain((0..=11).map(|o| (2, o)))
        .chain((0..=(if t { 11 } else { 6 })).map(|o| (3, o)))
        .chain((0..=(if t { 5 } else { 3 })).map(|o| (4, o)))
        .chain((0..=(if t { 3 } else { 1 })).map(|o| (5, o)))
        .chain(vec![(7, 1)])
        .collect();
    for (d, o) in sizes {
        out.push(scenario(format!("d={} order={}", d, o), move |ctx| {
            let lim = limit_choices(ctx, d);
            let fr: Vec<f64> = match d {
                1 => (0..=40)
                    .map(|k| k as f64 / 40.0)
                    .chain(vec![-0.1, 1.05, 1.3])
                    .chain((3..=9).flat_map(|k| {
                        let e = 10f64.powi(-k);
                        vec![0.5 - e, 0.5 + e, e, 1.0 - e, -e, 1.0 + e]
                    }))
                    .collect(),
                2 => vec![0.0, 0.1, 0.27, 0.5, 0.61, 0.83, 1.0, 0.5 + 1e-5, 0.5 - 1e-7, 1.0 - 1e-6],
                3 => vec![0.0, 0.27, 0.61, 1.0],
                4 => vec![0.0, 0.27, 0.8],
                _ => vec![0.27, 0.8],
            };
            let f = ctx.pick_vec(d, &fr);
            let x: Vec<f64> = f.iter().zip(&lim).map(|(f, l)| l.0 + f * (l.1 - l.0)).collect();
            ctx.log(|| format!("limits {:?} x {:?}", lim, x));
            let inside = f.iter().all(|f| (0.0..=1.0).contains(f));
            let s: Vec<f64> = x.iter().zip(&lim).map(|(v, l)| 2.0 * (v - l.0) / (l.1 - l.0) - 1.0).collect();
            // per-variable tables
            let tab: Vec<Vec<f64>> = s.iter().map(|s| (0..=o).map(|n| chebyshev(n, *s)).collect()).collect();
            if inside {
                // the oracle itself, against the trigonometric definition
                for (s, tb) in s.iter().zip(&tab) {
                    for n in 0..=o {
                        // near the ends the angle itself is inaccurate
                        if 1.0 - s.abs() < 1e-3 {
                            continue;
                        }
                        let c = (n as f64 * s.max(-1.0).min(1.0).acos()).cos();
                        if (tb[n] - c).abs() > 1e-6 {
                            return Err(format!("oracle mismatch T_{}({})", n, s));
                        }
                    }
                }
            }
            let mut want: Vec<f64> = degree_vectors(d, o)
                .iter()
                .map(|e| e.iter().zip(&tab).map(|(k, tb)| tb[*k]).product())
                .collect();
            // The monomial form cancels: every feature is accurate relative to
            // the magnitudes of its terms only, which are the values of the
            // same polynomials with all coefficients positive.
            let mag: Vec<Vec<f64>> = s.iter().map(|s| (0..=o).map(|n| chebyshev_magnitude(n, s.abs())).collect()).collect();
            let mut tol: Vec<f64> = degree_vectors(d, o)
                .iter()
                .map(|e| 1e-12 * (1.0 + (o * o) as f64) * e.iter().zip(&mag).map(|(k, tb)| tb[*k].max(1.0)).product::<f64>())
                .collect();
            let b = guarded("Chebyshev::new", || en(Chebyshev::new(o as u8, lim.clone())))?;
            check_features_each(ctx, "Chebyshev", &b, &x, &want, &tol)?;
            if inside {
                ctx.witness("inside the limits");
                for v in proj_vec("project", &b, &x)? {
                    if !(v.abs() <= 1.0 + 1e-8) {
                        return Err(format!("activation {} outside [-1,1]", v));
                    }
                }
            }
            let b = guarded("from_space", || en(Chebyshev::from_space(o as u8, intervals(&lim))))?;
            check_features_each(ctx, "from_space", &b, &x, &want, &tol)?;
            want.push(1.0);
            tol.push(1e-12);
            let b = guarded("with_zeroth", || en(Chebyshev::new(o as u8, lim.clone()).with_zeroth()))?;
            check_features_each(ctx, "with_zeroth", &b, &x, &want, &tol)?;
            ctx.state((d, o, bits(&x)));
            Ok(())
        }));
    }
    for (d, o) in large_sizes(t).into_iter().filter(|(_, o)| *o <= 11).chain(vec![(5, 9), (6, 6)]) {
        out.push(scenario(format!("large: d={} order={}", d, o), move |ctx| {
            let lim: Vec<(f64, f64)> = (0..d).map(|i| [(-1.0, 1.0), (-1.0, 2.0), (-2.0, 1.5)][i % 3]).collect();
            let x = ctx.pick(&large_inputs(d)).clone();
            let s: Vec<f64> = x.iter().zip(&lim).map(|(v, l)| 2.0 * (v - l.0) / (l.1 - l.0) - 1.0).collect();
            let tab: Vec<Vec<f64>> = s.iter().map(|s| (0..=o).map(|n| chebyshev(n, *s)).collect()).collect();
            let mag: Vec<Vec<f64>> = s.iter().map(|s| (0..=o).map(|n| chebyshev_magnitude(n, s.abs()).max(1.0)).collect()).collect();
            let degrees = degree_vectors(d, o);
            let of = |tab: &[Vec<f64>]| -> Vec<f64> {
                degrees.iter().map(|e| e.iter().zip(tab).map(|(k, tb)| tb[*k]).product()).collect()
            };
            let tol: Vec<f64> = of(&mag).iter().map(|m| 1e-12 * (d + o * o) as f64 * m).collect();
            let b = guarded("Chebyshev::new", || en(Chebyshev::new(o as u8, lim.clone())))?;
            check_large(ctx, "Chebyshev", &b, &x, &of(&tab), &tol)?;
            ctx.state((d, o, bits(&x)));
            Ok(())
        }));
    }
    out
}

pub fn c13(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let sizes: Vec<(usize, usize)> = (0..=20)
        .chain(vec![50, 127, 128, 255])
        .map(|o| (1, o))
        .chain((0..=(if t { 12 } else { 7 })).map(|o| (2, o)))
        .chain((0..=(if t { 6 } else { 4 })).map(|o| (3, o)))
        .chain((0..=(if t { 4 } else { 2 })).map(|o| (4, o)))
        .chain((0..=2).map(|o| (5, o)))
        .chain(vec![(7, 1)])
        .collect();
    for (d, o) in sizes {
        out.push(scenario(format!("d={} order={}", d, o), move |ctx| {
            let lim = limit_choices(ctx, d);
            let fr: Vec<f64> = match d {
                1 => (-8..=28).map(|k| k as f64 / 20.0).chain(vec![-3.3, 7.1]).collect(),
                2 => vec![-0.4, 0.0, 0.1, 0.27, 0.5, 0.83, 1.0, 1.6],
                3 => vec![-0.4, 0.0, 0.27, 0.61, 1.0],
                4 => vec![-0.4, 0.27, 1.0],
                _ => vec![0.27, 1.3],
            };
            let f = ctx.pick_vec(d, &fr);
            let x: Vec<f64> = f.iter().zip(&lim).map(|(f, l)| l.0 + f * (l.1 - l.0)).collect();
            ctx.log(|| format!("limits {:?} x {:?}", lim, x));
            let s: Vec<f64> = x.iter().zip(&lim).map(|(v, l)| (v - l.0) / (l.1 - l.0)).collect();
            let want: Vec<f64> = degree_vectors(d, o)
                .iter()
                .map(|c| (std::f64::consts::PI * c.iter().zip(&s).map(|(k, s)| *k as f64 * s).sum::<f64>()).cos())
                .collect();
            let (r, a) = (0.0, 1e-8);
            let b = guarded("Fourier::new", || en(Fourier::new(o as u8, lim.clone())))?;
            check_features(ctx, "Fourier", &b, &x, &want, r, a)?;
            let b = guarded("from_space", || en(Fourier::from_space(o as u8, intervals(&lim))))?;
            check_features(ctx, "from_space", &b, &x, &want, r, a)?;
            for far in [1e5, -1e9, 1e15] {
                let y: Vec<f64> = x.iter().map(|v| v * far).collect();
                for v in proj_vec("project far away", &b, &y)? {
                    if !(v.abs() <= 1.0 + 1e-12) {
                        return Err(format!("activation {} outside [-1,1]", v));
                    }
                }
            }
            ctx.state((d, o, bits(&x)));
            Ok(())
        }));
    }
    for (d, o) in large_sizes(t) {
        out.push(scenario(format!("large: d={} order={}", d, o), move |ctx| {
            let lim: Vec<(f64, f64)> = (0..d).map(|i| [(-1.0, 1.0), (-1.0, 2.0), (-2.0, 1.5)][i % 3]).collect();
            let x = ctx.pick(&large_inputs(d)).clone();
            let s: Vec<f64> = x.iter().zip(&lim).map(|(v, l)| (v - l.0) / (l.1 - l.0)).collect();
            let want: Vec<f64> = degree_vectors(d, o)
                .iter()
                .map(|c| (std::f64::consts::PI * c.iter().zip(&s).map(|(k, s)| *k as f64 * s).sum::<f64>()).cos())
                .collect();
            let tol = vec![1e-8; want.len()];
            let b = guarded("Fourier::new", || en(Fourier::new(o as u8, lim.clone())))?;
            check_large(ctx, "Fourier", &b, &x, &want, &tol)?;
            ctx.state((d, o, bits(&x)));
            Ok(())
        }));
    }
    out
}

// ---------------------------------------------------------------------- C14

pub fn c14(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let mut shapes: Vec<Vec<usize>> = vec![];
    for a in (1..=12).chain(vec![16, 31, 64, 100, 255, 256, 1000]) {
        shapes.push(vec![a]);
    }
    let c: &[usize] = if t { &[1, 2, 3, 4, 5, 7] } else { &[1, 2, 3, 5] };
    for a in c {
        for b in c {
            shapes.push(vec![*a, *b]);
            for e in [1usize, 2, 3, 4] {
                shapes.push(vec![*a, *b, e]);
                if t || (*a <= 3 && *b <= 3) {
                    shapes.push(vec![*a, *b, e, 2]);
                    shapes.push(vec![*a, 1, *b, e]);
                }
            }
        }
    }
    shapes.push(vec![10, 7, 3]);
    shapes.push(vec![20, 33]);
    shapes.push(vec![1, 2, 1, 3, 2]);
    shapes.push(vec![2, 3, 2, 2, 2, 2]);
    shapes.sort();
    shapes.dedup();
    for s in shapes {
        out.push(scenario(format!("grid {:?}", s), move |ctx| {
            let d = s.len();
            // Dyadic limits, so that the boundaries are exact.
            let widths = [1.0, 0.5, 2.0, 0.25, 1.0, 4.0];
            let lows = [0.0, -1.0, 4.0, -8.0, 0.5, -2.0];
            let shift = if d <= 2 { ctx.choose(3) } else { ctx.choose(2) };
            let lim: Vec<(f64, f64)> = (0..d)
                .map(|i| {
                    let j = (i + shift) % 6;
                    (lows[j], lows[j] + widths[j] * s[i] as f64)
                })
                .collect();
            let b = guarded("UniformGrid::new", || {
                en(UniformGrid::new(spaces::ProductSpace::new(
                    lim.iter().zip(&s).map(|(l, n)| Equipartition::new(l.0, l.1, *n)).collect::<Vec<_>>(),
                )))
            })?;
            let n: usize = s.iter().product();
            expect_eq("size", b.0.dim(), n)?;
            let within: &[f64] = match d {
                1 => &[0.0, 0.125, 0.5, 0.9375, 0.999999],
                2 => &[0.0, 0.5, 0.9375],
                3 => &[0.0, 0.75],
                _ => &[0.5],
            };
            let mut idx = 0;
            let mut x = vec![];
            for i in 0..d {
                let w = widths[(i + shift) % 6];
                let outside = if d <= 3 { 7 } else { 3 };
                let k = ctx.choose(s[i] * within.len() + outside);
                let cell;
                if k < s[i] * within.len() {
                    cell = k / within.len();
                    x.push(lim[i].0 + w * (cell as f64 + within[k % within.len()]));
                    if within[k % within.len()] == 0.0 {
                        ctx.witness("on a boundary");
                    }
                } else {
                    ctx.witness("outside or at the limit");
                    let (c, v) = match k - s[i] * within.len() {
                        0 => (s[i] - 1, lim[i].1),
                        1 => (0, lim[i].0 - 0.25 * w),
                        2 => (s[i] - 1, lim[i].1 + 0.75 * w),
                        3 => (0, -1e9),
                        4 => (s[i] - 1, 1e9),
                        5 => (0, -1e18),
                        _ => (s[i] - 1, 1e18),
                    };
                    cell = c;
                    x.push(v);
                }
                idx = idx * s[i] + cell;
            }
            ctx.log(|| format!("limits {:?} x {:?} cell {}", lim, x, idx));
            let f = proj("project", &b, &x)?;
            let v = denote(&f)?;
            expect_eq("length", v.len(), n)?;
            let active: Vec<(usize, f64)> = v.iter().copied().enumerate().filter(|(_, a)| *a != 0.0).collect();
            expect_eq("active features", active, vec![(idx, 1.0)])?;
            ctx.step();
            ctx.state((&s, idx));
            Ok(())
        }));
    }
    out.push(large_grids());
    out.push(grid_edges());
    out
}

/// One unit in the last place either side of every boundary, where all the
/// arithmetic that could be involved is exact.
fn grid_edges() -> Scenario {
    scenario("either side of an edge", |ctx| {
        let shapes: [&[usize]; 9] = [&[1], &[2], &[8], &[1024], &[1 << 20], &[4, 8], &[1, 64], &[2, 4, 2], &[2, 1, 2, 4]];
        let s = *ctx.pick(&shapes);
        
        let w = *ctx.pick(&[1.0, 0.25, 4.0, 1.0 / 1024.0, 65_536.0, 1e-300f64, 1e250].map(|v: f64| 2f64.powi(v.log2().round() as i32)));
        let b = UniformGrid::new(spaces::ProductSpace::new(s.iter().map(|n| Equipartition::new(0.0, w * *n as f64, *n)).collect::<Vec<_>>()));
        let mut idx = 0;
        let mut x = vec![];
        for n in s {
            let mut edges: Vec<usize> = if *n <= 8 { (0..=*n).collect() } else { vec![0, 1, 2, 3, 7, n / 2, n - 7, n - 1, *n] };
            edges.dedup();
            let e = *ctx.pick(&edges);
            let at = w * e as f64;
            let (v, c) = match ctx.choose(3) {
                0 => (at, e),
                1 if e > 0 => (f64::from_bits(at.to_bits() - 1), e - 1),
                1 => (-w * f64::EPSILON, 0),
                _ => (if e > 0 { f64::from_bits(at.to_bits() + 1) } else { w * f64::EPSILON }, e),
            };
            x.push(v);
            idx = idx * n + c.min(n - 1);
        }
        ctx.log(|| format!("grid {:?} of cells of width {:e}, x {:?}, cell {}", s, w, x, idx));
        let v = denote(&guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())?)?;
        let active: Vec<(usize, f64)> = v.iter().copied().enumerate().filter(|(_, a)| *a != 0.0).collect();
        expect_eq("active features", active, vec![(idx, 1.0)])?;
        ctx.step();
        ctx.state((s, w.to_bits(), idx));
        Ok(())
    })
}

fn large_grids() -> Scenario {
    scenario("large grids", |ctx| {
        let shapes: [&[usize]; 20] = [
            &[65_535], &[65_536], &[65_537], &[100_003], &[1_000_000],
            &[300, 300], &[256, 256], &[2, 40_000], &[40_000, 2], &[1, 70_000],
            &[41, 41, 41], &[64, 32, 33], &[20, 20, 20, 20], &[10, 9, 8, 7, 6, 5],
            // more cells than 32 bits count: far too many to write out
            &[65_536, 65_536], &[65_537, 65_539], &[3, 1 << 31], &[4096, 4097, 4099], &[100_003, 7, 99_991, 11], &[5_000_000_000],
        ];
        let s = *ctx.pick(&shapes);
        let d = s.len();
        let widths = [0.5, 1.0, 0.25, 2.0, 1.0, 4.0];
        let lows = [-1.0, 0.0, -8.0, 4.0, 0.5, -2.0];
        let b = UniformGrid::new(spaces::ProductSpace::new(
            (0..d).map(|i| Equipartition::new(lows[i], lows[i] + widths[i] * s[i] as f64, s[i])).collect::<Vec<_>>(),
        ));
        let n: usize = s.iter().product();
        { let k: usize = spaces::Space::dim(&b).into(); expect_eq("size", k, n)?; }
        let mut idx = 0usize;
        let mut x = vec![];
        for i in 0..d {
            let m = s[i];
            let mut cells = vec![0, 1, m / 3, m / 2, m.saturating_sub(2), m - 1];
            if d == 1 {
                cells.extend([255usize, 256, 4095, 4096, 32_767, 32_768, 65_534, 65_535, 65_536, 70_000, 1 << 31, 1 << 32].iter().filter(|c| **c < m));
            }
            cells.retain(|c| *c < m);
            cells.sort();
            cells.dedup();
            let c = *ctx.pick(&cells);
            let within = *ctx.pick(if d <= 2 { &[0.0, 0.5, 0.9375][..] } else { &[0.5][..] });
            x.push(lows[i] + widths[i] * (c as f64 + within));
            idx = idx * m + c;
        }
        ctx.log(|| format!("grid {:?} x {:?} cell {}", s, x, idx));
        match guarded("project", || b.project(&x[..]))?.map_err(|e| e.to_string())? {
            Features::Sparse(sa) => {
                expect_eq("length", sa.dim, n)?;
                let active: Vec<(usize, f64)> = sa.activations.iter().map(|(i, a)| (*i, *a)).filter(|(_, a)| *a != 0.0).collect();
                expect_eq("active features", active, vec![(idx, 1.0)])?;
            }
            f => {
                let v = denote(&f)?;
                expect_eq("length", v.len(), n)?;
                let active: Vec<(usize, f64)> = v.iter().copied().enumerate().filter(|(_, a)| *a != 0.0).collect();
                expect_eq("active features", active, vec![(idx, 1.0)])?;
            }
        }
        let low32 = idx & 0xffff_ffff;
        expect(&format!("ith({})", low32), b.ith(&x[..], low32).map_err(|e| e.to_string())?, if low32 == idx { 1.0 } else { 0.0 })?;
        for (i, want) in [(idx, 1.0), ((idx + 1) % n, 0.0), (idx & 0xffff, if idx & 0xffff == idx { 1.0 } else { 0.0 })] {
            expect(&format!("ith({})", i), b.ith(&x[..], i).map_err(|e| e.to_string())?, want)?;
        }
        ctx.step();
        ctx.state((s, idx));
        Ok(())
    })
}

// ---------------------------------------------------------------------- C15

/// A hasher that keeps what it is fed and returns a distinct number for every
/// distinct byte stream, also modulo [`HUGE`]: a hash without collisions.
#[derive(Clone, Default)]
pub struct Interner {
    table: Arc<Mutex<HashMap<Vec<u8>, u64>>>,
    /// The numbers are 0, 1, 2, ... instead of spread over all 64 bits.
    small: bool,
}

pub struct InternHasher {
    of: Interner,
    buf: Vec<u8>,
}

impl BuildHasher for Interner {
    type Hasher = InternHasher;
    fn build_hasher(&self) -> InternHasher {
        InternHasher { of: self.clone(), buf: vec![] }
    }
}

impl Hasher for InternHasher {
    fn write(&mut self, bytes: &[u8]) {
        // keep the boundaries between writes
        self.buf.push(bytes.len() as u8);
        self.buf.extend_from_slice(bytes);
    }
    fn finish(&self) -> u64 {
        let mut t = self.of.table.lock().unwrap();
        let n = t.len() as u64;
        let n = *t.entry(self.buf.clone()).or_insert(n);
        if self.of.small {
            return n;
        }
        // numbers that follow each other differ in bits 32..40 only; the bits
        // from 40 on do not count
        ((n & 0xff) << 32) | (n >> 8) | ((n % 3) << 62) | ((n & 1) << 45)
    }
}

const HUGE: usize = 1 << 40;

fn tiles(b: &TileCoding<Interner>, x: &[f64], n: usize) -> std::result::Result<BTreeSet<usize>, String> {
    let f = guarded("project", || b.project(x))?.map_err(|e| e.to_string())?;
    match &f {
        Features::Sparse(sa) => {
            expect_eq("length", sa.dim, HUGE)?;
            for (i, a) in sa.activations.iter() {
                if *i >= HUGE || *a != 1.0 {
                    return Err(format!("tile {} has activation {}", i, a));
                }
            }
            expect_eq("active tiles", sa.activations.len(), n)?;
            Ok(sa.activations.keys().copied().collect())
        }
        _ => Err("dense tile coding".into()),
    }
}

fn tile_model(x: &[f64], n: usize) -> BTreeSet<(usize, Vec<i64>)> {
    (0..n)
        .map(|t| {
            let k = x
                .iter()
                .enumerate()
                .map(|(i, v)| {
                    let q = (v * n as f64).floor() as i64 + (t as i64) * (2 * i as i64 + 1);
                    // floor division
                    let (n, r) = (n as i64, q % n as i64);
                    (q - if r < 0 { r + n } else { r }) / n
                })
                .collect();
            (t, k)
        })
        .collect()
}

/// The same with coordinate `at` taken as zero.
fn tile_model_but(x: &[f64], n: usize, at: usize) -> BTreeSet<(usize, Vec<i64>)> {
    let mut x = x.to_vec();
    x[at] = 0.0;
    tile_model(&x, n)
}

/// Coordinates around the origin, away from rounding-sensitive boundaries
/// unless these are exact.
fn tile_coords(n: usize, span: i64, boundaries: bool) -> Vec<f64> {
    let mut v: Vec<f64> = (-span..span).map(|k| (k as f64 + 0.5) / n as f64).collect();
    if boundaries && n.is_power_of_two() {
        v.extend((-span..=span).map(|k| k as f64 / n as f64));
    }
    v
}

pub fn c15(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let ns: &[usize] = if t { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16] };
    for &n in ns {
        let maxd = if t { 4 } else { 3 };
        for d in 1..=maxd {
            out.push(scenario(format!("sharing: {} tilings, {}d", n, d), move |ctx| {
                // x runs over a whole lattice around the origin; y over the
                // points that differ from x in one coordinate, and over the
                // diagonal.
                let big = ctx.thorough;
                let span = match d {
                    1 => 3 * n as i64 + 1,
                    2 => if big { 2 * n as i64 + 1 } else { n as i64 + 1 },
                    3 => if n <= 4 || big { (n as i64 + 1).min(6) } else { 3 },
                    _ => 2,
                };
                let cs = tile_coords(n, span, d <= 2);
                let x = ctx.pick_vec(d, &cs);
                let b = TileCoding::new(Interner::default(), n, HUGE);
                let ax = tiles(&b, &x, n)?;
                expect_eq("equal inputs", tiles(&b, &x, n)?, ax.clone())?;
                expect_eq("equal inputs, clone", tiles(&b.clone(), &x, n)?, ax.clone())?;
                let kx = tile_model(&x, n);
                ctx.log(|| format!("x {:?} tiles {:?}", x, kx));
                ctx.state((n, d, &kx));
                let ys = tile_coords(n, 2 * n as i64 + 1, false);
                for i in 0..=d {
                    for c in &ys {
                        let mut y = x.clone();
                        if i < d {
                            y[i] = *c;
                        } else {
                            // diagonal move
                            for v in y.iter_mut() {
                                *v += (c * n as f64 - 0.5).round() / n as f64;
                            }
                        }
                        let ky = tile_model(&y, n);
                        let ay = tiles(&b, &y, n)?;
                        let (m, a) = (kx.intersection(&ky).count(), ax.intersection(&ay).count());
                        ctx.step();
                        if m != a {
                            return Err(format!(
                                "{:?} and {:?} share {} tiles of {} but should share {}",
                                x, y, a, n, m
                            ));
                        }
                    }
                }
                Ok(())
            }));
        }
        // Which tiling is shared: a tile is identified with the model tile
        // that occurs in exactly the same inputs of a window.
        for d in 1..=2usize {
            out.push(scenario(format!("tile identity: {} tilings, {}d", n, d), move |ctx| {
                let origin = *ctx.pick(&[0i64, -1, 1, -1000, 1000, 1_000_000, -1_000_000, 1 << 31, -(3 << 31), 1 << 33, -1_000_000_000_000]);
                let b = TileCoding::new(Interner::default(), n, HUGE);
                let w = if d == 1 { 2 * n as i64 + 2 } else { (n as i64 + 2).min(8) };
                let cs: Vec<f64> = (-w..w).map(|k| ((origin * n as i64 + k) as f64 + 0.5) / n as f64).collect();
                let pts = grid(d, &cs);
                let mut occ_model: HashMap<(usize, Vec<i64>), BTreeSet<usize>> = HashMap::new();
                let mut occ: HashMap<usize, BTreeSet<usize>> = HashMap::new();
                for (k, p) in pts.iter().enumerate() {
                    for key in tile_model(p, n) {
                        occ_model.entry(key).or_default().insert(k);
                    }
                    for id in tiles(&b, p, n)? {
                        occ.entry(id).or_default().insert(k);
                    }
                    ctx.step();
                }
                let mut a: Vec<_> = occ_model.into_values().collect();
                let mut c: Vec<_> = occ.into_values().collect();
                a.sort();
                c.sort();
                ctx.state((n, d, origin, &a));
                ctx.log(|| format!("{} tiles over {} points", c.len(), pts.len()));
                if a != c {
                    return Err(format!("the regions covered by the {} tiles in a window around {} are not the {} expected ones", c.len(), origin, a.len()));
                }
                Ok(())
            }));
        }
    }
    // Many variables or many tilings: moves of one coordinate from a few
    // points.
    out.push(scenario("sharing: many variables or tilings", |ctx| {
        let (n, d) = *ctx.pick(&[
            (1usize, 8usize), (2, 8), (3, 5), (3, 16), (5, 16), (5, 17), (4, 33), (7, 20), (8, 12), (8, 65), (16, 9), (5, 40), (6, 130),
            (17, 5), (33, 3), (64, 2), (65, 3), (100, 2), (128, 4), (255, 2), (256, 1), (256, 2), (257, 3), (300, 1), (1000, 2),
        ]);
        let start = ctx.choose(4);
        let x: Vec<f64> = (0..d)
            .map(|i| {
                let k = match start {
                    0 => 0,
                    1 => -(1 + 3 * i as i64),
                    2 => (i as i64 * 7 + 2) % (3 * n as i64),
                    _ => (n as i64) * (i as i64 % 5 - 2) - 1,
                };
                (k as f64 + 0.5) / n as f64
            })
            .collect();
        let i = ctx.choose(d + 1);
        let b = TileCoding::new(Interner::default(), n, HUGE);
        let ax = tiles(&b, &x, n)?;
        let kx = tile_model(&x, n);
        let mut moves: Vec<i64> = vec![1, -1, 2, n as i64 / 2, n as i64 - 1, n as i64, n as i64 + 1, -(n as i64), 1 - n as i64, 2 * n as i64];
        moves.sort();
        moves.dedup();
        for m in moves {
            let mut y = x.clone();
            for (j, v) in y.iter_mut().enumerate() {
                if i == d || i == j {
                    *v = (((*v * n as f64).floor() + m as f64) + 0.5) / n as f64;
                }
            }
            let (ky, ay) = (tile_model(&y, n), tiles(&b, &y, n)?);
            let (want, got) = (kx.intersection(&ky).count(), ax.intersection(&ay).count());
            ctx.step();
            if want != got {
                return Err(format!("{} tilings: {:?} and {:?} share {} tiles but should share {}", n, x, y, got, want));
            }
        }
        ctx.state((n, d, start, i));
        Ok(())
    }));
    // Inputs of any size: the coordinate that is huge stays in one tile (it
    // may be taken as the nearest representable one), the others go on
    // generalising, and nothing overflows.
    out.push(scenario("inputs of any size", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 3, 4, 7, 8, 16, 65, 300]);
        let big = *ctx.pick(&[1e3, 1e9, 4.5e15, 1e18, 4.6e18, 9.3e18, 1e19, 1e25, 1e100, 1e300, f64::MAX]);
        let sign = if ctx.choose(2) == 1 { -1.0 } else { 1.0 };
        let d = 1 + ctx.choose(3);
        let at = ctx.choose(d);
        let b = TileCoding::new(Interner::default(), n, HUGE);
        let mut x = vec![0.5 / n as f64; d];
        x[at] = sign * big;
        let ax = tiles(&b, &x, n)?;
        ctx.steps(2);
        ctx.state((n, bits(&x)));
        expect_eq("equal inputs", tiles(&b, &x, n)?, ax.clone())?;
        for i in ax.iter().take(3) {
            let e = guarded("ith", || b.ith(&x, *i))?.map_err(|e| e.to_string())?;
            expect_eq("ith at an active tile", e, 1.0)?;
        }
        let small = TileCoding::new(Bh::default(), n, 11);
        let v = denote(&guarded("project", || small.project(&x))?.map_err(|e| e.to_string())?)?;
        expect_eq("length", v.len(), 11)?;
        // the coordinate that is huge, at the origin instead, has no effect
        // on how the others share
        let kx = tile_model_but(&x, n, at);
        for j in 0..d {
            for m in [-(n as i64), -1, 1, 2, n as i64 - 1, n as i64] {
                if j == at {
                    continue;
                }
                let mut y = x.clone();
                y[j] = (m as f64 + 0.5) / n as f64;
                let (want, got) = (kx.intersection(&tile_model_but(&y, n, at)).count(), ax.intersection(&tiles(&b, &y, n)?).count());
                ctx.step();
                if want != got {
                    return Err(format!("{} tilings: {:?} and {:?} share {} tiles but should share {}", n, x, y, got, want));
                }
            }
        }
        // far from the origin they share nothing
        let mut o = x.clone();
        o[at] = 0.5 / n as f64;
        expect_eq("tiles shared with the origin", ax.intersection(&tiles(&b, &o, n)?).count(), 0)
    }));
    // Real hashers and small memories.
    out.push(scenario("collisions and memory size", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 3, 4, 8, 9, 16, 32, 300]);
        let m = *ctx.pick(&[1usize, 2, 3, 5, 7, 16, 64, 100, 1000, 65_537, 1_000_000]);
        if m > 1000 && n > 4 {
            return Ok(());
        }
        let d = 1 + ctx.choose(if m > 1000 { 1 } else { 3 });
        let cs = [-2.3, -0.4, 0.1, 0.6, 1.7];
        let x = ctx.pick_vec(d, &cs);
        let b = TileCoding::new(Bh::default(), n, m);
        let f = guarded("project", || b.project(&x))?.map_err(|e| e.to_string())?;
        let v = denote(&f)?;
        expect_eq("length", v.len(), m)?;
        let active: Vec<f64> = v.iter().copied().filter(|a| *a != 0.0).collect();
        if active.is_empty() || active.len() > n || active.iter().any(|a| *a != 1.0) {
            return Err(format!("activations {:?} for {} tilings", active, n));
        }
        if m >= 1000 && active.len() == n {
            ctx.witness("collision-free");
        }
        if active.len() < n {
            ctx.witness("collision");
        }
        same_features("again", &b.project(&x).map_err(|e| e.to_string())?, &v)?;
        ctx.steps(2);
        ctx.state((n, m, d, bits(&x)));
        Ok(())
    }));
    // A collision-free hasher and just enough memory: nothing may be lost.
    out.push(scenario("full use of the memory", |ctx| {
        let n = *ctx.pick(&[1usize, 2, 3, 4, 8]);
        let b0 = Interner { small: true, ..Interner::default() };
        let b = TileCoding::new(b0.clone(), n, HUGE);
        let cs = tile_coords(n, 2 * n as i64, false);
        let mut ids = BTreeSet::new();
        for c in &cs {
            ids.extend(tiles(&b, &[*c], n)?);
        }
        let m = ids.len();
        // ids are 0..m, so a memory of m cells holds them all apart
        let small = TileCoding::new(b0, n, m);
        let c = *ctx.pick(&cs);
        let v = denote(&small.project(&[c]).map_err(|e| e.to_string())?)?;
        let want = tiles(&b, &[c], n)?;
        let got: BTreeSet<usize> = (0..v.len()).filter(|i| v[*i] != 0.0).collect();
        ctx.steps(2);
        ctx.state((n, c.to_bits()));
        expect_eq("memory cells", v.len(), m)?;
        expect_eq("number of active cells", got.len(), want.len())
    }));
    out
}

// ---------------------------------------------------------------------- C16

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum KernelKind {
    Exp,
    M32,
    M52,
    EQ,
    Cos,
    RQ,
}
pub const KERNELS: [KernelKind; 6] = [KernelKind::Exp, KernelKind::M32, KernelKind::M52, KernelKind::EQ, KernelKind::Cos, KernelKind::RQ];

pub fn kernel_model(k: KernelKind, var: f64, ls: &[f64], power: f64, x: &[f64], y: &[f64]) -> f64 {
    let mut r2 = 0.0;
    for i in 0..x.len() {
        let l = if ls.len() == 1 { ls[0] } else { ls[i] };
        r2 += ((x[i] - y[i]) / l).powi(2);
    }
    let r = f64::sqrt(r2);
    var * match k {
        KernelKind::Exp => (-r).exp(),
        KernelKind::M32 => (1.0 + 3f64.sqrt() * r) * (-(3f64.sqrt()) * r).exp(),
        KernelKind::M52 => (1.0 + 5f64.sqrt() * r + 5.0 * r2 / 3.0) * (-(5f64.sqrt()) * r).exp(),
        KernelKind::EQ => (-r2 / 2.0).exp(),
        KernelKind::Cos => r.cos(),
        KernelKind::RQ => (1.0 + r2 / 2.0).powf(-power),
    }
}

/// (slice form, vector form, scalar form)
pub type KernelFns = (Box<dyn Fn(&[f64], &[f64]) -> f64>, Box<dyn Fn(&Vec<f64>, &Vec<f64>) -> f64>, Box<dyn Fn(f64, f64) -> f64>);

pub fn kernel_fns(k: KernelKind, var: f64, ls: &[f64], power: f64, non_ard: bool) -> KernelFns {
    macro_rules! fns {
        ($v:expr) => {{
            let (a, b, c) = ($v, $v.clone(), $v.clone());
            (
                Box::new(move |x: &[f64], y: &[f64]| Kernel::<&[f64]>::kernel(&a, x, y)),
                Box::new(move |x: &Vec<f64>, y: &Vec<f64>| Kernel::<&Vec<f64>>::kernel(&b, x, y)),
                Box::new(move |x: f64, y: f64| Kernel::<f64>::kernel(&c, x, y)),
            )
        }};
    }
    macro_rules! stationary {
        ($t:ident) => {
            if non_ard {
                fns!($t::non_ard(var, ls[0]))
            } else {
                fns!($t::new(var, ls.to_vec()))
            }
        };
    }
    match k {
        KernelKind::Exp => stationary!(Exponential),
        KernelKind::M32 => stationary!(Matern32),
        KernelKind::M52 => stationary!(Matern52),
        KernelKind::EQ => stationary!(ExpQuad),
        KernelKind::Cos => stationary!(Cosine),
        KernelKind::RQ => {
            if non_ard {
                fns!(RationalQuadratic::non_ard(power, var, ls[0]))
            } else {
                fns!(RationalQuadratic::new(var, ls.to_vec(), power))
            }
        }
    }
}

/// Smallest pivot of a Cholesky-like elimination, relative to the diagonal.
fn positive_semidefinite(g: &[Vec<f64>], scale: f64) -> bool {
    // Jacobi eigenvalue iteration.
    let n = g.len();
    let mut a: Vec<Vec<f64>> = g.to_vec();
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                off += a[p][q] * a[p][q];
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-24 * scale * scale {
            break;
        }
    }
    (0..n).all(|i| a[i][i] >= -1e-9 * scale * n as f64)
}

pub fn c16(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("scalars and one-dimensional points, several lengthscales", |ctx| {
        let k = *ctx.pick(&KERNELS);
        let n = 1 + ctx.choose(4);
        let ls = ctx.pick_vec(n, &[0.3, 1.0, 4.0]);
        let var = *ctx.pick(&[1.0, 2.5]);
        let power = if k == KernelKind::RQ { *ctx.pick(&[0.5, 2.0]) } else { 1.0 };
        let vals = [-3.0, 0.0, 0.35, 1.0];
        let (x, y) = (*ctx.pick(&vals), *ctx.pick(&vals));
        ctx.log(|| format!("{:?} ls {:?} var {} power {} x {} y {}", k, ls, var, power, x, y));
        let (f, fv, fs) = kernel_fns(k, var, &ls, power, false);
        let want = kernel_model(k, var, &ls[..1], power, &[x], &[y]);
        for (form, got) in [("slice", f(&[x], &[y])), ("vector", fv(&vec![x], &vec![y])), ("scalar", fs(x, y))] {
            ctx.step();
            if !close_tol(got, want, 1e-9, 1e-12) {
                return Err(format!("{} form {}, want {}", form, got, want));
            }
        }
        ctx.state((k, bits(&ls), var.to_bits(), power.to_bits(), x.to_bits(), y.to_bits()));
        Ok(())
    }));
    for k in KERNELS {
        for d in 1..=4usize {
            out.push(scenario(format!("{:?} {}d", k, d), move |ctx| {
                let var = *ctx.pick(&[1.0, 0.25, 3.5, 100.0]);
                let power = if k == KernelKind::RQ { *ctx.pick(&[0.5, 1.0, 2.0, 7.5, 0.1, 40.0]) } else { 1.0 };
                let ls: Vec<f64> = match ctx.choose(6) {
                    0 => vec![1.0],
                    1 => vec![0.3],
                    2 => vec![4.0],
                    3 => vec![1.0; d],
                    4 => (0..d).map(|i| [0.5, 2.0, 1.25, 0.75][i]).collect(),
                    _ => (0..d).map(|i| [3.0, 0.2, 5.0, 1.0][i]).collect(),
                };
                let vals: &[f64] = match (d, ctx.thorough) {
                    (1, _) => &[-20.0, -3.0, -1.0, -0.4, 0.0, 0.1, 0.35, 1.0, 2.7, 5.0, 60.0, 1e-9, 1e-4, 400.0, -1e6],
                    (2, false) => &[-1.0, 0.0, 0.35, 2.7],
                    (2, true) => &[-3.0, -1.0, 0.0, 0.1, 0.35, 2.7],
                    (3, false) => &[-0.4, 1.1],
                    (3, true) => &[-0.4, 0.0, 1.1],
                    _ => &[-0.4, 1.1],
                };
                let x = ctx.pick_vec(d, vals);
                let y = ctx.pick_vec(d, vals);
                ctx.log(|| format!("var {} ls {:?} power {} x {:?} y {:?}", var, ls, power, x, y));
                let non_ards: &[bool] = if ls.len() == 1 { &[false, true] } else { &[false] };
                for non_ard in non_ards {
                    let (f, fv, fs) = kernel_fns(k, var, &ls, power, *non_ard);
                    let want = kernel_model(k, var, &ls, power, &x, &y);
                    let got = guarded("kernel", || f(&x, &y))?;
                    // only the cosine loses relative accuracy, near its roots
                    let atol = if k == KernelKind::Cos { 1e-9 * var } else { 1e-290 };
                    let ok = |a: f64, b: f64| close_tol(a, b, 1e-9, atol);
                    if !ok(got, want) {
                        return Err(format!("k(x,y) = {}, want {}", got, want));
                    }
                    if !ok(f(&y, &x), got) {
                        return Err(format!("not symmetric: {} and {}", got, f(&y, &x)));
                    }
                    if !ok(fv(&x, &y), got) {
                        return Err(format!("vector form {} but slice form {}", fv(&x, &y), got));
                    }
                    if d == 1 && !ok(fs(x[0], y[0]), got) {
                        return Err(format!("scalar form {} but slice form {}", fs(x[0], y[0]), got));
                    }
                    if d == 1 && !ok(fs(y[0], x[0]), got) {
                        return Err("scalar form not symmetric".into());
                    }
                    if !ok(f(&x, &x), var) {
                        return Err(format!("k(x,x) = {} with variance {}", f(&x, &x), var));
                    }
                    if !(got.abs() <= var * (1.0 + 1e-12)) {
                        return Err(format!("k = {} exceeds the variance {}", got, var));
                    }
                    let sh: Vec<f64> = x.iter().map(|v| v + 2.0).collect();
                    let shy: Vec<f64> = y.iter().map(|v| v + 2.0).collect();
                    if !close_tol(f(&sh, &shy), got, 1e-7, 1e-9 * var) {
                        return Err(format!("not translation invariant: {} and {}", got, f(&sh, &shy)));
                    }
                    if k != KernelKind::Cos {
                        let half: Vec<f64> = x.iter().zip(&y).map(|(a, b)| (a + b) / 2.0).collect();
                        if f(&x, &half) < got * (1.0 - 1e-12) {
                            return Err(format!("increases with distance: {} then {}", f(&x, &half), got));
                        }
                    }
                    ctx.steps(8);
                }
                ctx.state((k, bits(&ls), var.to_bits(), power.to_bits(), bits(&x), bits(&y)));
                Ok(())
            }));
        }
        out.push(scenario(format!("{:?} high-dimensional", k), move |ctx| {
            let d = *ctx.pick(&[5usize, 7, 8, 9, 16, 17, 33, 65]);
            let ard = ctx.flag();
            let ls: Vec<f64> = if ard { (0..d).map(|i| [6.0, 11.0, 8.0][i % 3]).collect() } else { vec![9.0] };
            // all coordinates differ, or only one does
            let i = ctx.choose(d + 1);
            let x: Vec<f64> = (0..d).map(|j| 0.25 * j as f64 - 1.0).collect();
            let y: Vec<f64> = (0..d).map(|j| if i == d || i == j { x[j] + [1.5, -0.5, 4.0][j % 3] } else { x[j] }).collect();
            ctx.log(|| format!("d {} ls {:?} differing at {}", d, ls, i));
            let (f, fv, _) = kernel_fns(k, 2.0, &ls, 1.5, false);
            let want = kernel_model(k, 2.0, &ls, 1.5, &x, &y);
            for (what, got) in [("k(x,y)", f(&x, &y)), ("k(y,x)", f(&y, &x)), ("vector form", fv(&x, &y))] {
                if !close_tol(got, want, 1e-9, 1e-12) {
                    return Err(format!("{} = {}, want {}", what, got, want));
                }
            }
            ctx.steps(3);
            ctx.state((k, d, ard, i));
            Ok(())
        }));
        out.push(scenario(format!("{:?} distances", k), move |ctx| {
            // a fine logarithmic scale of distances
            let per_decade = if ctx.thorough { 200 } else { 40 };
            let i = ctx.choose(16 * per_decade + 1);
            let r = 10f64.powf(-12.0 + i as f64 / per_decade as f64);
            let var = *ctx.pick(&[1.0, 3.5]);
            let power = if k == KernelKind::RQ { *ctx.pick(&[0.5, 1.0, 7.5]) } else { 1.0 };
            let l = *ctx.pick(&[1.0, 0.3, 25.0]);
            let d = 1 + ctx.choose(2);
            let (x, y) = (vec![0.0; d], (0..d).map(|j| r * [1.0, -0.75][j]).collect::<Vec<f64>>());
            ctx.log(|| format!("distance {} var {} ls {} power {}", r, var, l, power));
            let (f, fv, fs) = kernel_fns(k, var, &vec![l; d], power, false);
            let want = kernel_model(k, var, &[l], power, &x, &y);
            // absolutely, at the precision of the kernel's value near 1
            let atol = if k == KernelKind::Cos { 1e-13 * var * (1.0 + r / l) } else { 1e-290 };
            let mut got = vec![("k(x,y)", f(&x, &y)), ("k(y,x)", f(&y, &x)), ("vector form", fv(&x, &y))];
            if d == 1 {
                got.push(("scalar form", fs(x[0], y[0])));
            }
            for (what, got) in got {
                if !close_tol(got, want, 1e-12 * (1.0 + r / l + (r / l) * (r / l)), atol) {
                    return Err(format!("{} = {}, want {}", what, got, want));
                }
            }
            ctx.steps(4);
            ctx.state((k, i, var.to_bits(), power.to_bits(), l.to_bits(), d));
            Ok(())
        }));
        out.push(scenario(format!("{:?} Gram", k), move |ctx| {
            let d = if k == KernelKind::Cos { 1 } else { 1 + ctx.choose(3) };
            let var = *ctx.pick(&[1.0, 2.5]);
            let ls: Vec<f64> = if ctx.flag() { vec![0.8] } else { [0.5, 2.0, 1.25][..d].to_vec() };
            let pts: Vec<Vec<f64>> = match d {
                1 => grid(1, &[-2.0, -0.5, 0.0, 0.3, 1.0, 4.0]),
                2 => grid(2, &[-1.0, 0.2, 1.5]),
                _ => grid(3, &[-0.5, 1.0]),
            };
            // all subsets of four points
            let mut set = vec![];
            let mut lo = 0;
            for k in 0..4 {
                let c = lo + ctx.choose(pts.len() - lo - (3 - k));
                set.push(pts[c].clone());
                lo = c + 1;
            }
            let (f, _, _) = kernel_fns(k, var, &ls, 1.5, false);
            let g: Vec<Vec<f64>> = set.iter().map(|a| set.iter().map(|b| f(a, b)).collect()).collect();
            ctx.steps(16);
            ctx.state((k, bits(&ls), set.iter().map(|p| bits(p)).collect::<Vec<_>>()));
            if !positive_semidefinite(&g, var) {
                return Err(format!("Gram matrix {:?} of {:?} is not positive semi-definite", g, set));
            }
            Ok(())
        }));
    }
    out.push(scenario("defaults and aliases", |ctx| {
        let d = 1 + ctx.choose(3);
        let x = ctx.pick_vec(d, &[-1.0, 0.3, 2.0]);
        let y = ctx.pick_vec(d, &[-1.0, 0.3, 2.0]);
        macro_rules! chk {
            ($t:ident, $k:expr) => {
                expect(
                    stringify!($t),
                    Kernel::<&[f64]>::kernel(&$t::default(), &x, &y),
                    kernel_model($k, 1.0, &[1.0], 1.0, &x, &y),
                )?
            };
        }
        chk!(Exponential, KernelKind::Exp);
        chk!(Matern32, KernelKind::M32);
        chk!(Matern52, KernelKind::M52);
        chk!(ExpQuad, KernelKind::EQ);
        chk!(RBF, KernelKind::EQ);
        chk!(Guassian, KernelKind::EQ);
        chk!(Cosine, KernelKind::Cos);
        ctx.steps(7);
        ctx.state((bits(&x), bits(&y)));
        Ok(())
    }));
    let _ = t;
    out
}

// ---------------------------------------------------------------------- C17

pub fn c17(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let maxp = if t { 4 } else { 3 };
    macro_rules! hetero {
        ($name:ident, $kind:expr, $mk:expr) => {
            out.push(scenario(concat!("prototypes ", stringify!($name)), move |ctx| {
                let d = 1 + ctx.choose(2);
                let n = ctx.choose(maxp + 1);
                // every list of prototypes out of six, of which the last shares its
                // centre with the first and its kernel with the second
                let protos: Vec<usize> = (0..n).map(|_| ctx.choose(6)).collect();
                let centre = |c: usize| -> Vec<f64> { let c = c % 5; (0..d).map(|j| [0.0, 1.0, -0.5, 2.0, 0.25][(c + j) % 5]).collect() };
                let params = |c: usize| -> (f64, Vec<f64>, f64) {
                    let c = if c == 5 { 1 } else { c };
                    ([1.0, 2.0, 0.5, 1.0, 3.0][c], [vec![1.0], vec![0.5; d], vec![2.0], vec![0.25; d], vec![1.5]][c].clone(), [1.0, 2.0, 0.5, 3.0, 1.0][c])
                };
                let mk = $mk;
                let b = KernelBasis::new(
                    protos
                        .iter()
                        .map(|c| {
                            let (v, l, p) = params(*c);
                            Prototype { centroid: centre(*c), kernel: mk(v, l, p) }
                        })
                        .collect::<Vec<Prototype<Vec<f64>, $name>>>(),
                );
                let x = ctx.pick_vec(d, &[0.0, 0.6, -2.0]);
                ctx.log(|| format!("prototypes {:?} x {:?}", protos, x));
                let want: Vec<f64> = protos
                    .iter()
                    .map(|c| {
                        let (v, l, p) = params(*c);
                        kernel_model($kind, v, &l, p, &x, &centre(*c))
                    })
                    .collect();
                let b = en(b);
                check_features(ctx, "KernelBasis", &b, &x, &want, 1e-9, 1e-12)?;
                ctx.state((stringify!($name), &protos, bits(&x)));
                // homogeneous: the same kernel everywhere
                let (v, l, p) = params(1);
                let want: Vec<f64> = protos.iter().map(|c| kernel_model($kind, v, &l, p, &x, &centre(*c))).collect();
                let b = en(KernelBasis::homogeneous(protos.iter().map(|c| centre(*c)), mk(v, l, p)));
                check_features(ctx, "homogeneous", &b, &x, &want, 1e-9, 1e-12)
            }));
        };
    }
    hetero!(Exponential, KernelKind::Exp, |v, l, _: f64| Exponential::new(v, l));
    hetero!(Matern32, KernelKind::M32, |v, l, _: f64| Matern32::new(v, l));
    hetero!(Matern52, KernelKind::M52, |v, l, _: f64| Matern52::new(v, l));
    hetero!(ExpQuad, KernelKind::EQ, |v, l, _: f64| ExpQuad::new(v, l));
    hetero!(Cosine, KernelKind::Cos, |v, l, _: f64| Cosine::new(v, l));
    hetero!(RationalQuadratic, KernelKind::RQ, |v, l, p| RationalQuadratic::new(v, l, p));
    // Many prototypes.
    out.push(scenario("many prototypes", |ctx| {
        let n = *ctx.pick(&[127usize, 128, 255, 256, 257, 1000, 1024, 4097, 32_768, 65_535, 65_536, 65_537, 70_000]);
        let way = ctx.choose(3);
        let x = [*ctx.pick(&[0.0, 3.1, -40.0])];
        let width = 0.25;
        let centre = |i: usize| -8.0 + width * (i as f64 + 0.5);
        let params = |i: usize| if way == 1 { (1.0 + (i % 7) as f64, 0.5 + (i % 3) as f64) } else if way == 0 { (2.0, 3.0) } else { (1.0, width) };
        let b = guarded("constructor", || match way {
            0 => KernelBasis::homogeneous((0..n).map(|i| vec![centre(i)]), Exponential::new(2.0, vec![3.0])),
            1 => KernelBasis::new(
                (0..n).map(|i| Prototype { centroid: vec![centre(i)], kernel: Exponential::new(params(i).0, vec![params(i).1]) }).collect::<Vec<_>>(),
            ),
            _ => KernelBasis::homogeneous((0..n).map(|i| vec![centre(i)]), Exponential::new(1.0, vec![width])),
        })?;
        let want: Vec<f64> = (0..n).map(|i| kernel_model(KernelKind::Exp, params(i).0, &[params(i).1], 1.0, &x, &[centre(i)])).collect();
        ctx.state((n, way, bits(&x)));
        check_features(ctx, "many", &en(b), &x, &want, 1e-9, 1e-12)?;
        if way == 2 {
            let p = || spaces::ProductSpace::new(vec![Equipartition::new(-8.0, -8.0 + width * n as f64, n)]);
            for (kind, b) in [
                (KernelKind::EQ, en(guarded("exp_quad", || KernelBasis::exp_quad(p()))?)),
                (KernelKind::M32, en(guarded("matern_32", || KernelBasis::matern_32(p()))?)),
                (KernelKind::M52, en(guarded("matern_52", || KernelBasis::matern_52(p()))?)),
            ] {
                let want: Vec<f64> = (0..n).map(|i| kernel_model(kind, 1.0, &[width], 1.0, &x, &[centre(i)])).collect();
                check_features(ctx, "many cells", &b, &x, &want, 1e-9, 1e-12)?;
            }
        }
        Ok(())
    }));
    for (which, name) in ["exp_quad", "matern_32", "matern_52"].iter().enumerate() {
        out.push(scenario(format!("partitioning {}", name), move |ctx| {
            let d = 1 + ctx.choose(if ctx.thorough { 4 } else { 3 });
            let s: Vec<usize> = (0..d).map(|_| *ctx.pick(if d == 1 { &[1usize, 2, 3, 7, 20][..] } else { &[1usize, 2, 3][..] })).collect();
            let lims = [(-1.0, 1.0), (0.0, 3.0), (-2.0, 0.5), (5.0, 6.0)];
            let shift = ctx.choose(2);
            let lim: Vec<(f64, f64)> = (0..d).map(|i| lims[(i + shift) % 4]).collect();
            let f = ctx.pick_vec(d, if d <= 2 { &[-0.2, 0.0, 0.4, 1.0] } else { &[0.1, 0.7] });
            let x: Vec<f64> = f.iter().zip(&lim).map(|(f, l)| l.0 + f * (l.1 - l.0)).collect();
            ctx.log(|| format!("cells {:?} limits {:?} x {:?}", s, lim, x));
            let p = spaces::ProductSpace::new(lim.iter().zip(&s).map(|(l, n)| Equipartition::new(l.0, l.1, *n)).collect::<Vec<_>>());
            let w: Vec<f64> = lim.iter().zip(&s).map(|(l, n)| (l.1 - l.0) / *n as f64).collect();
            // row-major list of cell centres
            let n: usize = s.iter().product();
            let mut centres = vec![];
            for k in 0..n {
                let mut r = k;
                let mut c = vec![0.0; d];
                for i in (0..d).rev() {
                    c[i] = lim[i].0 + w[i] * ((r % s[i]) as f64 + 0.5);
                    r /= s[i];
                }
                centres.push(c);
            }
            let kind = [KernelKind::EQ, KernelKind::M32, KernelKind::M52][which];
            let want: Vec<f64> = centres.iter().map(|c| kernel_model(kind, 1.0, &w, 1.0, &x, c)).collect();
            let b = guarded("constructor", || match which {
                0 => en(KernelBasis::exp_quad(p)),
                1 => en(KernelBasis::matern_32(p)),
                _ => en(KernelBasis::matern_52(p)),
            })?;
            ctx.state((which, &s, bits(&x)));
            check_features(ctx, "partitioned", &b, &x, &want, 1e-9, 1e-12)
        }));
    }
    out
}

// ---------------------------------------------------------------------- C18

fn norm(which: usize, v: &[f64]) -> f64 {
    match which {
        0 => v.iter().filter(|x| x.abs() > 1e-7).count() as f64,
        1 => v.iter().map(|x| x.abs()).sum(),
        2 => v.iter().fold(0.0, |a, x| f64::hypot(a, *x)),
        _ => v.iter().fold(0.0, |a, x| f64::max(a, x.abs())),
    }
}

fn normalise(b: Dyn, which: usize) -> Dyn {
    match which {
        0 => en(b.normalise_l0()),
        1 => en(b.normalise_l1()),
        2 => en(b.normalise_l2()),
        _ => en(b.normalise_linf()),
    }
}

fn normalise_new(b: Dyn, which: usize) -> Dyn {
    match which {
        0 => en(L0Normaliser::new(b)),
        1 => en(L1Normaliser::new(b)),
        2 => en(L2Normaliser::new(b)),
        _ => en(LinfNormaliser::new(b)),
    }
}

fn normal_model(v: &[f64], which: usize) -> Vec<f64> {
    let z = norm(which, v);
    if z == 0.0 {
        v.to_vec()
    } else {
        v.iter().map(|x| x / z).collect()
    }
}

fn check_norm(ctx: &mut Ctx, kind: Kind, v: &[f64], chain: &[usize]) -> Res {
    let vv = v.to_vec();
    let src = en(mock(v.len(), move |_| build(kind, &vv)));
    let mut b = src.clone();
    let mut want = v.to_vec();
    for (k, w) in chain.iter().enumerate() {
        b = if k == 0 { normalise(b, *w) } else { normalise_new(b, *w) };
        want = normal_model(&want, *w);
    }
    ctx.log(|| format!("{:?} {:?} norms {:?}", kind, v, chain));
    expect_eq("size", b.0.dim(), v.len())?;
    for round in 0..2 {
        let f = proj("project", &b, &[0.0])?;
        let got = denote(&f)?;
        ctx.step();
        expect_eq("storage", is_sparse(&f), kind.is_sparse())?;
        expect_vec(if round == 0 { "normalised" } else { "normalised again" }, &got, &want)?;
        for i in 0..v.len() {
            if v[i] != 0.0 && got[i].signum() != v[i].signum() {
                return Err(format!("sign of feature {} changed: {} to {}", i, v[i], got[i]));
            }
        }
        let last = *chain.last().unwrap();
        if last > 0 && norm(last, v) > 0.0 {
            expect("norm of the result", norm(last, &got), 1.0)?;
        }
    }
    if norm(chain[0], v) == 0.0 {
        ctx.witness("zero norm");
    }
    // the wrapped basis still projects what it did
    expect_vec("source", &proj_vec("source", &src, &[0.0])?, v)?;
    ctx.state((kind, bits(v), chain));
    Ok(())
}

pub fn c18(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let vals = [0.0, 1.0, -1.0, 0.5, -3.25, 1e-6, 250.0];
    for n in 0..=(if t { 5 } else { 4 }) {
        out.push(scenario(format!("single n={}", n), move |ctx| {
            let which = ctx.choose(4);
            let kind = *ctx.pick(&KINDS);
            let v = ctx.pick_vec(n, &vals);
            check_norm(ctx, kind, &v, &[which])
        }));
    }
    out.push(scenario("magnitudes", |ctx| {
        let which = ctx.choose(4);
        let kind = *ctx.pick(&KINDS);
        let n = 1 + ctx.choose(3);
        let v = ctx.pick_vec(n, &[0.0, 1e-9, -1e-5, 3e-4, 1e8, -1e60, 1e-60, -1e-120, 1e130, -1e-180, 2e-200, 1e200, -5e250, 1e-290, 1e300]);
        check_norm(ctx, kind, &v, &[which])
    }));
    for len in 2..=(if t { 4 } else { 3 }) {
        out.push(scenario(format!("nested x{}", len), move |ctx| {
            let chain: Vec<usize> = (0..len).map(|_| ctx.choose(4)).collect();
            let kind = *ctx.pick(&KINDS4);
            let n = ctx.choose(4);
            let v = ctx.pick_vec(n, &[0.0, 1.0, -0.5, 4.0]);
            check_norm(ctx, kind, &v, &chain)
        }));
    }
    out.push(scenario("long", |ctx| {
        let which = ctx.choose(4);
        let kind = *ctx.pick(&KINDS);
        let n = *ctx.pick(&[5usize, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 130, 256, 257, 512, 1000, 1025, 5000]);
        let vs = long_vectors(n);
        let v = ctx.pick(&vs).clone();
        check_norm(ctx, kind, &v, &[which])
    }));
    out.push(scenario("very long", |ctx| {
        let which = ctx.choose(4);
        let kind = *ctx.pick(&[Kind::Dense, Kind::Sparse]);
        let n = *ctx.pick(&[65_535usize, 65_536, 65_541, 131_075]);
        let v: Vec<f64> = match ctx.choose(2) {
            0 => (0..n).map(|i| 0.1 + (i % 1013) as f64).collect(),
            _ => (0..n).map(|i| if i % 3 == 1 { 0.0 } else { -1.0 / 3.0 }).collect(),
        };
        check_norm(ctx, kind, &v, &[which])
    }));
    for e in base_entries(2).into_iter().chain(base_entries(1)) {
        out.push(scenario(format!("of {}", e.name), move |ctx| {
            let which = ctx.choose(4);
            let xs = inputs(e.d, 4);
            let x = ctx.pick(&xs).clone();
            let v = proj_vec("project", &(e.make)(), &x)?;
            if which == 0 && v.iter().any(|a| a.abs() > 5e-8 && a.abs() < 2e-7) {
                return Ok(()); // too close to the activity threshold
            }
            let b = (e.make)();
            let b = if e.enumerable { normalise(b, which) } else {
                match which {
                    0 => plain(b.normalise_l0()),
                    1 => plain(b.normalise_l1()),
                    2 => plain(b.normalise_l2()),
                    _ => plain(b.normalise_linf()),
                }
            };
            let f = proj("normalised", &b, &x)?;
            ctx.step();
            ctx.state((&e.name, which, bits(&x)));
            expect_eq("storage", is_sparse(&f), e.sparse)?;
            expect_vec_tol("normalised", &denote(&f)?, &normal_model(&v, which), 1e-9, 1e-12)
        }));
    }
    out
}

// ---------------------------------------------------------------------- C19

/// A tree of stacked parts, with what it should do.
enum Tree {
    Leaf(usize),
    Node(Box<Tree>, Box<Tree>),
    Bias(Box<Tree>),
}

fn any_tree(ctx: &mut Ctx, depth: usize, leaves: usize) -> Tree {
    let k = ctx.choose(if depth == 0 { leaves } else { leaves + 2 });
    if k < leaves {
        Tree::Leaf(k)
    } else if k == leaves {
        let a = any_tree(ctx, depth - 1, leaves);
        let b = any_tree(ctx, depth - 1, leaves);
        Tree::Node(Box::new(a), Box::new(b))
    } else {
        Tree::Bias(Box::new(any_tree(ctx, depth - 1, leaves)))
    }
}

const LEAVES: usize = 5;
const TRIG: [f64; 2] = [501.0, 502.0];

fn leaf(k: usize, pos: usize) -> Mock {
    let off = pos as f64;
    match k {
        0 => mock(2, move |x| build(Kind::DenseStride, &[x[0] + off, -1.0])),
        1 => mock(3, move |x| build(Kind::Sparse, &[0.0, x[0] - off, 0.0])),
        // fail for the first or the second trigger
        2 => mock(2, move |x| build(Kind::SparseFull, &[0.0, 2.0 * x[0]])).failing(TRIG[0], pos),
        3 => mock(1, move |x| build(Kind::Dense, &[x[0] * x[0]])).failing(TRIG[1], pos),
        _ => mock(0, |_| build(Kind::Sparse, &[])),
    }
}

struct Built {
    b: Dyn,
    /// activations in order, and the errors of failing parts in order
    want: Vec<f64>,
    sparse: bool,
    errs: Vec<(std::ops::Range<usize>, Error)>,
    calls: Vec<Rc<Cell<usize>>>,
}

fn build_tree(t: &Tree, x: &[f64], pos: &mut usize) -> Built {
    match t {
        Tree::Leaf(k) => {
            *pos += 1;
            let m = leaf(*k, *pos);
            let want = match denote(&(m.f)(x)) {
                Ok(v) => v,
                Err(_) => vec![],
            };
            let errs = if x[0] == m.fail_on { vec![(0..m.n, m.error())] } else { vec![] };
            Built { sparse: is_sparse(&(m.f)(x)), want, errs, calls: vec![m.calls.clone()], b: en(m) }
        }
        Tree::Node(a, b) => {
            let (a, b) = (build_tree(a, x, pos), build_tree(b, x, pos));
            let n = a.want.len();
            let mut want = a.want;
            want.extend(b.want);
            let mut errs = a.errs;
            errs.extend(b.errs.into_iter().map(|(r, e)| (r.start + n..r.end + n, e)));
            let mut calls = a.calls;
            calls.extend(b.calls);
            let st = if *pos % 2 == 0 { en(a.b.stack(b.b)) } else { en(Stack::new(a.b, b.b)) };
            Built { b: st, want, sparse: a.sparse && b.sparse, errs, calls }
        }
        Tree::Bias(a) => {
            let a = build_tree(a, x, pos);
            let mut want = a.want;
            want.push(1.0);
            Built { b: en(a.b.with_bias()), want, sparse: false, errs: a.errs, calls: a.calls }
        }
    }
}

pub fn c19(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let depth = 2;
    out.push(scenario("stack trees", move |ctx| {
        let t = any_tree(ctx, depth, LEAVES);
        let x = *ctx.pick(&[0.5, TRIG[0], TRIG[1], -2.0]);
        let mut pos = 0;
        let w = build_tree(&t, &[x], &mut pos);
        let n = w.want.len();
        expect_eq("size", w.b.0.dim(), n)?;
        expect_eq("n_features", w.b.0.n_features(), n)?;
        let r = guarded("project", || w.b.0.project(&[x]))?;
        ctx.step();
        ctx.state((n, x.to_bits(), bits(&w.want), w.errs.len(), pos));
        for c in &w.calls {
            if c.get() > 1 {
                return Err(format!("a part was projected {} times", c.get()));
            }
        }
        match r {
            Ok(f) => {
                if let Some((_, e)) = w.errs.first() {
                    return Err(format!("projected although a part fails with {}", e));
                }
                same_features("stack", &f, &w.want)?;
                expect_eq("sparse iff all parts are", is_sparse(&f), w.sparse)?;
            }
            Err(e) => {
                ctx.witness("failing part");
                if !w.errs.iter().any(|(_, we)| *we == e) {
                    return Err(format!("failed with `{}`; errors of the parts: {:?}", e, w.errs));
                }
            }
        }
        // single features: those whose own part works may be evaluated
        for i in 0..n + 2 {
            let r = guarded("ith", || w.b.0.ith(&[x], i))?.unwrap();
            ctx.step();
            let own = w.errs.iter().any(|(r, _)| r.contains(&i));
            match r {
                Ok(v) if i < n && !own => expect(&format!("ith({})", i), v, w.want[i])?,
                Ok(v) => return Err(format!("ith({}) = {} should fail", i, v)),
                Err(e) if i < n => {
                    if !w.errs.iter().any(|(_, we)| *we == e) {
                        return Err(format!("ith({}) failed with `{}`; errors of the parts: {:?}", i, e, w.errs));
                    }
                }
                Err(_) => {}
            }
        }
        // the same again from a clone
        let c = w.b.clone();
        if w.errs.is_empty() {
            same_features("clone", &proj("clone", &c, &[x])?, &w.want)?;
        } else if guarded("clone", || c.0.project(&[x]))?.is_ok() {
            return Err("clone projects although a part fails".into());
        }
        Ok(())
    }));
    out.push(scenario("stacks of arbitrary parts", move |ctx| {
        let (ka, kb) = (*ctx.pick(&KINDS), *ctx.pick(&KINDS));
        let vals = [0.0, -0.0, 1.0, 1e-6, -5e-8, 3e-9, 1e-200, 1e12, -1e200];
        let (na, nb) = (ctx.choose(3), ctx.choose(if t { 3 } else { 2 }));
        let (va, vb) = (ctx.pick_vec(na, &vals), ctx.pick_vec(nb, &vals));
        let m = |k: Kind, v: &[f64]| {
            let v = v.to_vec();
            mock(v.len(), move |_| build(k, &v))
        };
        let x = [0.0];
        let mut want = va.clone();
        want.extend(&vb);
        ctx.log(|| format!("{:?} {:?} ++ {:?} {:?}", ka, va, kb, vb));
        let exact = |what: &str, f: &Features, want: &[f64]| -> Res {
            let got = denote(f)?;
            if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a == b) {
                Ok(())
            } else {
                Err(format!("{}: got {:?}, want {:?}", what, got, want))
            }
        };
        let s = m(ka, &va).stack(m(kb, &vb));
        let f = guarded("stack", || s.project(&x[..]))?.map_err(|e| e.to_string())?;
        exact("stack", &f, &want)?;
        expect_eq("sparse iff both are", is_sparse(&f), ka.is_sparse() && kb.is_sparse())?;
        for i in 0..want.len() {
            expect_eq("single feature", s.ith(&x[..], i).map_err(|e| e.to_string())?, want[i])?;
        }
        want.push(1.0);
        let s = s.with_bias();
        let f = guarded("with_bias", || s.project(&x[..]))?.map_err(|e| e.to_string())?;
        exact("with_bias", &f, &want)?;
        { let k: usize = spaces::Space::dim(&s).into(); expect_eq("size", k, want.len())?; }
        let mut w2 = va.clone();
        w2.push(1.0);
        let s = m(ka, &va).with_bias();
        exact("part with bias", &guarded("with_bias", || s.project(&x[..]))?.map_err(|e| e.to_string())?, &w2)?;
        for i in 0..w2.len() {
            expect_eq("single feature", s.ith(&x[..], i).map_err(|e| e.to_string())?, w2[i])?;
        }
        let mut w3 = vec![1.0];
        w3.extend(&vb);
        let s = Stack::new(Bias::unit(), m(kb, &vb));
        exact("bias first", &guarded("stack", || s.project(&x[..]))?.map_err(|e| e.to_string())?, &w3)?;
        ctx.steps(4);
        ctx.state((ka, kb, bits(&va), bits(&vb)));
        Ok(())
    }));
    out.push(scenario("long stacks", |ctx| {
        let na = *ctx.pick(&[0usize, 1, 15, 16, 31, 32, 33, 64, 65, 100, 127, 128, 129, 256, 512, 1000, 1024, 2000]);
        let nb = *ctx.pick(&[0usize, 1, 7, 16, 33, 64, 100, 128, 257, 1000]);
        let (ka, kb) = (*ctx.pick(&KINDS4), *ctx.pick(&KINDS4));
        let va: Vec<f64> = (0..na).map(|i| if i % 3 == 1 { 0.0 } else { i as f64 - 5.5 }).collect();
        let vb: Vec<f64> = (0..nb).map(|i| if i % 4 == 2 { 0.0 } else { 0.25 * i as f64 + 1.0 }).collect();
        let (wa, wb) = (va.clone(), vb.clone());
        let s = mock(na, move |_| build(ka, &wa)).stack(mock(nb, move |_| build(kb, &wb))).with_bias();
        let mut want = va.clone();
        want.extend(&vb);
        want.push(1.0);
        let b = en(s);
        expect_eq("size", b.0.dim(), want.len())?;
        same_features("stack with bias", &proj("project", &b, &[0.0])?, &want)?;
        for i in [0, na / 2, na.saturating_sub(1), na, na + nb / 2, na + nb] {
            expect("single feature", b.0.ith(&[0.0], i).unwrap().map_err(|e| e.to_string())?, want[i])?;
        }
        ctx.steps(2);
        ctx.state((na, nb, ka, kb));
        Ok(())
    }));
    out.push(scenario("long constants", |ctx| {
        let n = *ctx.pick(&[16usize, 17, 33, 64, 65, 100, 128, 257, 1000, 70_000]);
        let v: Vec<f64> = (0..n).map(|i| if i % 5 == 2 { 0.0 } else { i as f64 * 0.5 - 3.0 }).collect();
        let ix: Vec<usize> = (0..n).filter(|i| i % 3 == 1 || i + 1 == n).collect();
        same_features("dense", &Fixed::dense(v.clone()).project(()).map_err(|e| e.to_string())?, &v)?;
        let mut w = vec![0.0; n];
        for i in &ix {
            w[*i] = 1.0;
        }
        same_features("sparse", &Fixed::sparse(n, ix).project(()).map_err(|e| e.to_string())?, &w)?;
        ctx.steps(2);
        ctx.state(n);
        Ok(())
    }));
    out.push(scenario("normalised failing parts", |ctx| {
        let which = ctx.choose(4);
        let x = *ctx.pick(&[0.5, FAIL]);
        let m = mock(2, |x| build(Kind::Dense, &[x[0], 1.0])).failing(FAIL, 3);
        let e = m.error();
        let b = normalise(en(m), which);
        ctx.step();
        ctx.state((which, x.to_bits()));
        match guarded("project", || b.0.project(&[x]))? {
            Ok(_) if x == FAIL => return Err("projected although the wrapped basis fails".into()),
            Ok(_) => {}
            Err(got) => {
                expect_eq("should fail", x == FAIL, true)?;
                expect_eq("error", got, e.clone())?;
            }
        }
        for i in 0..2 {
            match guarded("ith", || b.0.ith(&[x], i))?.unwrap() {
                Ok(_) if x == FAIL => return Err("ith evaluated although the wrapped basis fails".into()),
                Ok(_) => {}
                Err(got) => {
                    expect_eq("ith should fail", x == FAIL, true)?;
                    expect_eq("ith error", got, e.clone())?;
                }
            }
        }
        Ok(())
    }));
    out.push(scenario("constants", move |ctx| {
        let n = ctx.choose(if t { 5 } else { 4 });
        let v = ctx.pick_vec(n, &[0.0, 1.0, -2.5, 1e-9, 7.0]);
        let b = Fixed::dense(v.clone());
        let b2 = Fixed(v.clone());
        macro_rules! same {
            ($b:expr, $want:expr, $sparse:expr, $n:expr) => {{
                let nf: usize = spaces::Space::dim(&$b).into();
                expect_eq("size", nf, $n)?;
                for f in [
                    $b.project(()),
                    $b.project(&[0.0, 1.0][..]),
                    $b.project(&[f64::NAN][..]),
                    $b.project(vec![1.0; 7]),
                    $b.project("anything"),
                    $b.project(-3.5f64),
                    $b.project(&[f64::INFINITY; 3]),
                ] {
                    let f = f.map_err(|e| e.to_string())?;
                    same_features("constant", &f, &$want)?;
                    expect_eq("storage", is_sparse(&f), $sparse)?;
                    ctx.step();
                }
                for i in 0..$n {
                    expect("constant ith", $b.ith((), i).map_err(|e| e.to_string())?, $want[i])?;
                    expect("constant ith", $b.ith("x", i).map_err(|e| e.to_string())?, $want[i])?;
                }
            }};
        }
        same!(b, v, false, n);
        same!(b2, v, false, n);
        for c in &v {
            same!(Bias(*c), [*c], false, 1);
        }
        same!(Bias::unit(), [1.0], false, 1);
        ctx.state(("dense", bits(&v)));
        // sparse constants: every subset, with repetitions
        let dim = ctx.choose(4) + 1;
        let k = ctx.choose(3);
        let ix: Vec<usize> = (0..k).map(|_| ctx.choose(dim)).collect();
        let mut want = vec![0.0; dim];
        for i in &ix {
            want[*i] = 1.0;
        }
        same!(Fixed::sparse(dim, ix.clone()), want, true, dim);
        ctx.state(("sparse", dim, &ix));
        Ok(())
    }));
    out.push(scenario("closures", |ctx| {
        let kind = *ctx.pick(&KINDS);
        let n = ctx.choose(4);
        let v = ctx.pick_vec(n, &[0.0, 1.5, -2.0]);
        let calls = Rc::new(Cell::new(0usize));
        let seen = Rc::new(Cell::new(0.0));
        let (c2, s2, v2) = (calls.clone(), seen.clone(), v.clone());
        let b = Closure::new(n, move |x: &[f64]| -> Result<Features> {
            c2.set(c2.get() + 1);
            s2.set(x[0]);
            if x[0] == FAIL {
                return Err(Error::index_error(77, 1));
            }
            let scaled: Vec<f64> = v2.iter().map(|v| v * x[0]).collect();
            Ok(build(kind, &scaled))
        });
        let nf: usize = spaces::Space::dim(&b).into();
        expect_eq("size", nf, n)?;
        let mut count = 0;
        for _ in 0..3 {
            let x = *ctx.pick(&[2.0, -1.0, FAIL]);
            let r = b.project(&[x][..]);
            count += 1;
            ctx.step();
            expect_eq("calls", calls.get(), count)?;
            expect_eq("argument", seen.get(), x)?;
            match r {
                Ok(f) => {
                    expect_eq("should not fail", x == FAIL, false)?;
                    let scaled: Vec<f64> = v.iter().map(|v| v * x).collect();
                    same_features("closure", &f, &scaled)?;
                    expect_eq("storage", is_sparse(&f), kind.is_sparse())?;
                }
                Err(e) => {
                    expect_eq("should fail", x == FAIL, true)?;
                    expect_eq("error", e, Error::index_error(77, 1))?;
                }
            }
            ctx.state((kind, bits(&v), x.to_bits(), count));
        }
        Ok(())
    }));
    // Real bases stacked with each other.
    let parts = |d: usize| -> Vec<Entry> {
        base_entries(d).into_iter().filter(|e| e.n <= 70).collect()
    };
    for d in 1..=2 {
        let n = parts(d).len();
        for i in 0..n {
            out.push(scenario(format!("stack of {}", parts(d)[i].name), move |ctx| {
                let p = parts(d);
                let j = ctx.choose(p.len());
                let xs = inputs(d, 3);
                let x = ctx.pick(&xs).clone();
                let (a, b) = (&p[i], &p[j]);
                let (va, vb) = (proj_vec("first", &(a.make)(), &x)?, proj_vec("second", &(b.make)(), &x)?);
                let s = plain((a.make)().stack((b.make)()));
                let mut want = va.clone();
                want.extend(&vb);
                ctx.log(|| format!("{} ++ {} at {:?}", a.name, b.name, x));
                expect_eq("size", s.0.dim(), a.n + b.n)?;
                let f = proj("stack", &s, &x)?;
                same_features("stack", &f, &want)?;
                expect_eq("sparse iff both", is_sparse(&f), a.sparse && b.sparse)?;
                let wb = plain((a.make)().with_bias());
                let mut want = va;
                want.push(1.0);
                same_features("with_bias", &proj("with_bias", &wb, &x)?, &want)?;
                ctx.steps(2);
                ctx.state((i, j, bits(&x)));
                Ok(())
            }));
        }
    }
    out
}
