//! C01-C04, C06-C08: the feature-vector algebra against plain arrays.
use super::nested;
use crate::engine::*;
use crate::util::*;
use lfa::{Features, SparseActivations};
use ndarray::{Array1, Array2, ShapeBuilder};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

const V8: [f64; 8] = [0.0, 1.0, -1.0, 0.5, 1e-6, -3.25, 3e-9, 4e8];
/// Also very small and very large magnitudes, and the negative zero.
const V12: [f64; 12] = [0.0, 1.0, -1.0, 0.5, 1e-6, -3.25, 3e-9, 4e8, 1e-200, -2e150, 1e-13, -0.0];
const LONG: [usize; 19] = [5, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 128, 130, 256, 257, 1000, 1025, 4099];

fn alphabet(n: usize) -> &'static [f64] {
    if n <= 3 {
        &V12
    } else {
        &V8
    }
}

// ---------------------------------------------------------------------- C01

fn check_reads(ctx: &mut Ctx, f: &Features, v: &[f64]) -> Res {
    let n = v.len();
    ctx.state((is_sparse(f), bits(v)));
    expect_eq("n_features", f.n_features(), n)?;
    expect_eq("is_sparse", f.is_sparse(), is_sparse(f))?;
    expect_eq("is_dense", f.is_dense(), !is_sparse(f))?;
    for i in 0..n {
        expect_exact(&format!("index [{}]", i), f[i], v[i])?;
        expect_exact(&format!("get({})", i), f.get(i).copied().unwrap_or(0.0), v[i])?;
        expect_exact(
            &format!("uget({})", i),
            unsafe { f.uget(i) }.copied().unwrap_or(0.0),
            v[i],
        )?;
        if !is_sparse(f) {
            expect_eq("get defined on dense", f.get(i).is_some(), true)?;
        }
    }
    // (whether reading past the end is refused or answered with nothing is not claimed)
    if let Ok(Some(x)) = guarded("get", || f.get(n)) {
        return Err(format!("get past the end returned {}", x));
    }
    expect_eq("n_active", f.n_active(), v.iter().filter(|x| x.abs() > 1e-7).count())?;
    expect_sum("sum", f.sum(), v.iter().copied())?;
    expect_sum("fold(+)", f.fold(0.25, |a, x| a + x), v.iter().copied().chain(Some(0.25)))?;
    expect_sum("fold(squares)", f.fold(0.0, |a, x| a + x * x), v.iter().map(|x| x * x))?;
    expect(
        "fold(max magnitude)",
        f.fold(0.0, |a, x| a.max(x.abs())),
        v.iter().fold(0.0, |a, x| f64::max(a, x.abs())),
    )?;
    ctx.steps(7 + 3 * n);
    Ok(())
}

fn check_products(ctx: &mut Ctx, f: &Features, v: &[f64], layout: Layout) -> Res {
    let n = v.len();
    let nonzero: Vec<f64> = (0..n).map(|i| [2.0, -0.5, 3.0, 1.25, -7.0][i % 5] + (i / 5) as f64).collect();
    // from zero weights, so that small contributions are not lost in rounding
    for alpha in [1.0, -2.5, 3e-4, 1e-20] {
        let mut w = Weights::new(layout, &vec![0.0; n]);
        f.scaled_addto(alpha, &mut w.view_mut());
        let got = w.get();
        for i in 0..n {
            if !close_tol(got[i], alpha * v[i], 1e-9, 0.0) {
                return Err(format!("scaled_addto({}) to zero weights gave {:?}", alpha, got));
            }
        }
        ctx.step();
    }
    let mut w = Weights::new(layout, &vec![0.0; n]);
    f.addto(&mut w.view_mut());
    for (got, want) in w.get().into_iter().zip(v) {
        if !close_tol(got, *want, 1e-9, 0.0) {
            return Err(format!("addto zero weights gave {:?}", w.get()));
        }
    }
    ctx.step();
    // weights whose number of axes is known at run time only
    let mut w = ndarray::ArrayD::<f64>::zeros(vec![n]);
    f.scaled_addto(-2.5, &mut w);
    f.addto(&mut w);
    for (got, want) in w.iter().zip(v) {
        if !close_tol(*got, -1.5 * want, 1e-9, 0.0) {
            return Err(format!("scaled_addto(-2.5) and addto to zero weights (dynamic) gave {:?}", w));
        }
    }
    ctx.steps(2);
    let w0 = nonzero;
    let terms = v.iter().zip(&w0).map(|(a, b)| a * b);
    let mut w = Weights::new(layout, &w0);
    expect_sum("dot(view)", f.dot(&w.view()), terms.clone())?;
    expect_sum("Dot trait", ndarray::linalg::Dot::dot(f, &w.view()), terms.clone())?;
    let owned = Array1::from(w0.clone());
    expect_sum("dot(owned)", f.dot(&owned), terms)?;
    f.addto(&mut w.view_mut());
    let want: Vec<f64> = w0.iter().zip(v).map(|(a, b)| a + b).collect();
    expect_vec("addto", &w.get(), &want)?;
    w.check_surroundings()?;
    for alpha in [0.0, 1.0, -2.5] {
        let mut w = Weights::new(layout, &w0);
        f.scaled_addto(alpha, &mut w.view_mut());
        let want: Vec<f64> = w0.iter().zip(v).map(|(a, b)| a + alpha * b).collect();
        expect_vec(&format!("scaled_addto({})", alpha), &w.get(), &want)?;
        w.check_surroundings()?;
    }
    ctx.steps(7);
    for k in [0usize, 1, 2, 3, 4, 8, 9, 16, 17, 33, 65, 130] {
        if k > 3 && n > 5 && n != 33 && n != 100 {
            continue;
        }
        for order in 0..3 {
            let fill = |(i, j): (usize, usize)| ((i * 3 + j * 5) % 7) as f64 - 2.5;
            let m = match order {
                0 => Array2::from_shape_fn((n, k), fill),
                1 => Array2::from_shape_fn((n, k).f(), fill),
                _ => {
                    let big = Array2::from_shape_fn((2 * n, k + 2), |(i, j)| {
                        if i % 2 == 0 && j >= 1 && j <= k {
                            fill((i / 2, j - 1))
                        } else {
                            9e9
                        }
                    });
                    big.slice_move(ndarray::s![..;2, 1..k + 1])
                }
            };
            for (what, got) in [("matmul", f.matmul(&m)), ("matmul(view)", f.matmul(&m.view()))] {
                expect_eq("columns of matmul", got.len(), k)?;
                for j in 0..k {
                    expect_sum(what, got[j], (0..n).map(|i| v[i] * fill((i, j))))?;
                }
            }
            ctx.steps(2);
        }
    }
    Ok(())
}

pub fn c01(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for n in 0..=(if t { 5 } else { 4 }) {
        out.push(scenario(format!("reads n={}", n), move |ctx| {
            let kind = *ctx.pick(&KINDS);
            let v = ctx.pick_vec(n, alphabet(n));
            ctx.log(|| format!("{:?} {:?}", kind, v));
            let f = build(kind, &v);
            check_reads(ctx, &f, &v)?;
            if kind == Kind::SparseFull && v.iter().any(|x| *x == 0.0) {
                ctx.witness("explicit zeros read");
            }
            same_exact("unchanged by reading", &f, &v)
        }));
    }
    for n in 0..=(if t { 4 } else { 3 }) {
        out.push(scenario(format!("products n={}", n), move |ctx| {
            let kind = *ctx.pick(&KINDS);
            let layout = *ctx.pick(&LAYOUTS);
            let v = ctx.pick_vec(n, alphabet(n));
            ctx.log(|| format!("{:?} {:?} weights {:?}", kind, v, layout));
            let f = build(kind, &v);
            check_products(ctx, &f, &v, layout)
        }));
    }
    for n in LONG.iter().copied().chain(if t { vec![512, 2048, 16384] } else { vec![] }) {
        out.push(scenario(format!("long n={}", n), move |ctx| {
            let kind = *ctx.pick(&KINDS);
            let vs = long_vectors(n);
            let v = ctx.pick(&vs).clone();
            let layout = *ctx.pick(&LAYOUTS);
            let f = build(kind, &v);
            check_reads(ctx, &f, &v)?;
            check_products(ctx, &f, &v, layout)
        }));
    }
    // More activations than a short integer can count.
    for n in [65_535usize, 65_536, 65_539, 131_075] {
        out.push(scenario(format!("very long n={}", n), move |ctx| {
            let kind = *ctx.pick(&KINDS4);
            let v: Vec<f64> = match ctx.choose(2) {
                0 => (0..n).map(|i| 1.0 + (i % 7) as f64).collect(),
                _ => (0..n).map(|i| if i % 5 == 3 { 0.0 } else { -0.5 }).collect(),
            };
            let f = build(kind, &v);
            check_reads(ctx, &f, &v)?;
            check_products(ctx, &f, &v, Layout::Column)
        }));
    }
    out.push(nested::reads());
    out.push(scenario("insertion orders", |ctx| {
        // All permutations of up to 4 distinct entries, inserted one by one.
        let n = 1 + ctx.choose(4);
        let mut left: Vec<usize> = (0..n).collect();
        let vals = [1.0, -2.0, 0.5, 4.0];
        let gap = ctx.choose(2);
        let mut entries = vec![];
        while !left.is_empty() {
            let i = ctx.choose(left.len());
            let k = left.remove(i);
            entries.push((k * (1 + gap), vals[k]));
        }
        let dim = n * (1 + gap) + gap;
        let mut v = vec![0.0; dim];
        for (i, x) in &entries {
            v[*i] = *x;
        }
        ctx.log(|| format!("entries {:?}", entries));
        let f = Features::sparse(dim, entries.clone());
        check_reads(ctx, &f, &v)?;
        check_products(ctx, &f, &v, Layout::Column)
    }));
    out
}

// ---------------------------------------------------------------------- C02

type F1 = fn(f64) -> f64;
pub const UNARY: [(&str, F1); 22] = [
    ("x", |x| x),
    ("-x", |x| -x),
    ("2x", |x| 2.0 * x),
    ("x*x", |x| x * x),
    ("|x|", |x| x.abs()),
    ("0", |_| 0.0),
    ("1", |_| 1.0),
    ("x+1", |x| x + 1.0),
    ("1-x", |x| 1.0 - x),
    ("x-1", |x| x - 1.0),
    ("exp", |x| x.exp()),
    ("cos", |x| x.cos()),
    ("step", |x| if x > 0.0 { 1.0 } else { 0.0 }),
    ("x==0", |x| if x == 0.0 { -2.0 } else { 3.0 }),
    ("x+1e-2", |x| x + 1e-2),
    ("x-1e-3", |x| x - 1e-3),
    ("x+2e-5", |x| x + 2e-5),
    ("x+1e-6", |x| x + 1e-6),
    ("1/x", |x| 1.0 / x),
    ("x/x", |x| x / x),
    ("the sign of x, zeros included", |x| if x.is_sign_negative() { -1.0 } else { 1.0 }),
    ("1 at the plain zero", |x| if x.to_bits() == 0 { 1.0 } else { 0.0 }),
];

/// Expected result on coordinate `x`; `inactive` coordinates may lose a
/// function value at zero below 1e-5.
fn expect_coords(what: &str, got: &Features, want: &[f64], slack: &[bool]) -> Res {
    let g = denote(got).map_err(|e| format!("{}: {}", what, e))?;
    if g.len() != want.len() {
        return Err(format!("{}: length {} instead of {}", what, g.len(), want.len()));
    }
    for i in 0..g.len() {
        let ok = close_tol(g[i], want[i], 1e-12, 0.0) || (slack[i] && want[i].abs() < 1e-5 && g[i] == 0.0);
        if !ok {
            return Err(format!("{}: coordinate {} of {:?}, want {:?}", what, i, g, want));
        }
    }
    Ok(())
}

fn check_map(ctx: &mut Ctx, kind: Kind, v: &[f64], name: &str, g: F1) -> Res {
    let f = build(kind, v);
    let want: Vec<f64> = v.iter().map(|x| g(*x)).collect();
    let slack: Vec<bool> = v.iter().map(|x| kind.is_sparse() && *x == 0.0).collect();
    let m1 = guarded("map", || f.map(g))?;
    expect_coords(&format!("map({})", name), &m1, &want, &slack)?;
    same_exact("input of map", &f, v)?;
    expect_eq("input of map keeps its storage", is_sparse(&f), kind.is_sparse())?;
    let m2 = guarded("map_into", || f.clone().map_into(g))?;
    expect_coords(&format!("map_into({})", name), &m2, &want, &slack)?;
    let mut m3 = f.clone();
    guarded("map_inplace", || m3.map_inplace(g))?;
    expect_coords(&format!("map_inplace({})", name), &m3, &want, &slack)?;
    let (d1, d2, d3) = (denote(&m1)?, denote(&m2)?, denote(&m3)?);
    exact_vec("map vs map_into", &d1, &d2)?;
    exact_vec("map vs map_inplace", &d1, &d3)?;
    same_exact("original of clones", &f, v)?;
    ctx.steps(3);
    ctx.state((kind, bits(v), bits(&d1), is_sparse(&m1)));
    if kind.is_sparse() && !is_sparse(&m1) {
        ctx.witness("densified");
    }
    if is_sparse(&m1) {
        ctx.witness("stayed sparse");
    }
    Ok(())
}

pub fn c02(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for (name, g) in UNARY {
        for n in 0..=(if t { 4 } else { 3 }) {
            out.push(scenario(format!("map {} n={}", name, n), move |ctx| {
                let kind = *ctx.pick(&KINDS);
                let v = ctx.pick_vec(n, if n <= 3 { &V12[..11] } else { &V8 });
                ctx.log(|| format!("{} over {:?} {:?}", name, kind, v));
                check_map(ctx, kind, &v, name, g)
            }));
        }
        out.push(scenario(format!("map {} long", name), move |ctx| {
            let kind = *ctx.pick(&KINDS);
            let n = *ctx.pick(&LONG);
            let vs = long_vectors(n);
            let v = ctx.pick(&vs).clone();
            check_map(ctx, kind, &v, name, g)
        }));
    }
    out.extend(nested::maps());
    out.push(scenario("map_dense/map_sparse/map_either", |ctx| {
        let kind = *ctx.pick(&KINDS);
        let n = ctx.choose(4);
        let v = ctx.pick_vec(n, &[0.0, 1.0, -2.0]);
        let f = build(kind, &v);
        let calls = Cell::new((0, 0));
        let read_d = |a: Array1<f64>| {
            calls.set((calls.get().0 + 1, calls.get().1));
            denote(&Features::Dense(a)).unwrap()
        };
        let r = f.clone().map_dense(read_d);
        expect_eq("map_dense", r, if kind.is_sparse() { None } else { Some(v.clone()) })?;
        expect_eq("map_dense calls", calls.get(), (!kind.is_sparse() as i32, 0))?;
        calls.set((0, 0));
        let read_s = |sa: SparseActivations| {
            calls.set((calls.get().0, calls.get().1 + 1));
            denote(&Features::Sparse(sa)).unwrap()
        };
        let r = f.clone().map_sparse(read_s);
        expect_eq("map_sparse", r, if kind.is_sparse() { Some(v.clone()) } else { None })?;
        expect_eq("map_sparse calls", calls.get(), (0, kind.is_sparse() as i32))?;
        calls.set((0, 0));
        let r = f.clone().map_either(read_d, read_s);
        expect_eq("map_either", r, v.clone())?;
        expect_eq(
            "map_either calls",
            calls.get(),
            (!kind.is_sparse() as i32, kind.is_sparse() as i32),
        )?;
        ctx.steps(3);
        ctx.state((kind, bits(&v)));
        Ok(())
    }));
    out
}

// ---------------------------------------------------------------------- C03

type F2 = fn(f64, f64) -> f64;
pub const BINARY: [(&str, F2); 18] = [
    ("x+y", |x, y| x + y),
    ("x-y", |x, y| x - y),
    ("x*y", |x, y| x * y),
    ("x", |x, _| x),
    ("y", |_, y| y),
    ("max", |x, y| f64::max(x, y)),
    ("min", |x, y| f64::min(x, y)),
    ("x+2y", |x, y| x + 2.0 * y),
    ("x*(y+1)", |x, y| x * (y + 1.0)),
    ("|x-y|", |x, y| (x - y).abs()),
    ("1", |_, _| 1.0),
    ("x*y+1", |x, y| x * y + 1.0),
    ("x-y-1e-3", |x, y| x - y - 1e-3),
    ("x==y", |x, y| if x == y { 5.0 } else { x }),
    ("x/y", |x, y| x / y),
    ("the sign of y, zeros included", |x, y| if y.is_sign_negative() { -1.0 - x } else { 1.0 + x }),
    ("1/x - y", |x, y| 1.0 / x - y),
    ("0 unless both", |x, y| if x != 0.0 && y != 0.0 { 10.0 * x + y } else { 0.0 }),
];

fn check_merge(ctx: &mut Ctx, ka: Kind, a: &[f64], kb: Kind, b: &[f64], name: &str, g: F2) -> Res {
    let (fa, fb) = (build(ka, a), build(kb, b));
    let n = a.len().max(b.len());
    let at = |v: &[f64], i: usize| v.get(i).copied().unwrap_or(0.0);
    let want: Vec<f64> = (0..n).map(|i| g(at(a, i), at(b, i))).collect();
    let slack: Vec<bool> = (0..n)
        .map(|i| ka.is_sparse() && kb.is_sparse() && at(a, i) == 0.0 && at(b, i) == 0.0)
        .collect();
    let m1 = guarded("merge", || fa.merge(&fb, g))?;
    expect_coords(&format!("merge({})", name), &m1, &want, &slack)?;
    same_exact("left operand of merge", &fa, a)?;
    same_exact("right operand of merge", &fb, b)?;
    let m2 = guarded("merge_into", || fa.clone().merge_into(&fb, g))?;
    expect_coords(&format!("merge_into({})", name), &m2, &want, &slack)?;
    let mut m3 = fa.clone();
    guarded("merge_inplace", || m3.merge_inplace(&fb, g))?;
    expect_coords(&format!("merge_inplace({})", name), &m3, &want, &slack)?;
    same_exact("right operand of merge_into", &fb, b)?;
    same_exact("original of clones", &fa, a)?;
    let d1 = denote(&m1)?;
    exact_vec("merge vs merge_into", &d1, &denote(&m2)?)?;
    exact_vec("merge vs merge_inplace", &d1, &denote(&m3)?)?;
    ctx.steps(3);
    ctx.state((ka, kb, bits(a), bits(b), bits(&d1)));
    if a.len() != b.len() {
        ctx.witness("different dimensionalities");
    }
    Ok(())
}

pub fn c03(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for (name, g) in BINARY {
        out.push(scenario(format!("merge {}", name), move |ctx| {
            let ka = *ctx.pick(&KINDS);
            let kb = *ctx.pick(&KINDS);
            let max = if ctx.thorough { 4 } else { 3 };
            let na = ctx.choose(max + 1);
            let nb = if ka.is_sparse() || kb.is_sparse() {
                ctx.choose(max + 1)
            } else {
                na
            };
            let alpha: &[f64] = match (na + nb, ctx.thorough) {
                (0..=4, _) | (5, true) => &[0.0, 1.0, -2.0, 0.5, 3e-9, 1e-6, 4e8],
                (5..=6, _) => &[0.0, 1.0, -2.0, 0.5],
                _ => &[0.0, 1.0, -2.0],
            };
            let a = ctx.pick_vec(na, alpha);
            let b = ctx.pick_vec(nb, alpha);
            ctx.log(|| format!("{} over {:?} {:?} and {:?} {:?}", name, ka, a, kb, b));
            check_merge(ctx, ka, &a, kb, &b, name, g)
        }));
        out.push(scenario(format!("merge {} long", name), move |ctx| {
            let ka = *ctx.pick(&KINDS4);
            let kb = *ctx.pick(&KINDS4);
            let n = *ctx.pick(if ctx.thorough { &LONG[..] } else { &[5, 9, 17, 33, 64, 65, 100, 257] });
            let vs = long_vectors(n);
            let a = ctx.pick(&vs[..7.min(vs.len())]).clone();
            let mut b = ctx.pick(&vs[..]).clone();
            if ka.is_sparse() || kb.is_sparse() {
                // the shorter operand reads as padded with zeros
                match ctx.choose(3) {
                    1 => b.truncate(n / 2 + 1),
                    2 => b.extend([0.0, 1.0, 0.0]),
                    _ => {}
                }
            }
            check_merge(ctx, ka, &a, kb, &b, name, g)
        }));
    }
    out.extend(nested::merges());
    let _ = t;
    out
}

// ---------------------------------------------------------------------- C04

fn concat(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().chain(b).copied().collect()
}

pub fn c04(_t: bool) -> Vec<Scenario> {
    vec![
        scenario("pairs", |ctx| {
            let ka = *ctx.pick(&KINDS);
            let kb = *ctx.pick(&KINDS);
            let na = ctx.choose(4);
            let nb = ctx.choose(4);
            let alpha: &[f64] = if na + nb <= 3 { &[0.0, 1.0, -2.5, 3e-9, 1e-6, 4e8, 1e-200, -2e150] } else if na + nb <= 4 { &[0.0, 1.0, -2.5, 3e-9, 1e-6] } else { &[0.0, 1.0, -2.5] };
            let a = ctx.pick_vec(na, alpha);
            let b = ctx.pick_vec(nb, alpha);
            ctx.log(|| format!("{:?} {:?} ++ {:?} {:?}", ka, a, kb, b));
            let f = guarded("stack", || build(ka, &a).stack(build(kb, &b)))?;
            ctx.step();
            ctx.state((ka, kb, bits(&a), bits(&b)));
            same_exact("stack", &f, &concat(&a, &b))?;
            expect_eq("sparse iff both sparse", is_sparse(&f), ka.is_sparse() && kb.is_sparse())
        }),
        scenario("triples", |ctx| {
            let ks = [*ctx.pick(&KINDS4), *ctx.pick(&KINDS4), *ctx.pick(&KINDS4)];
            let max = if ctx.thorough { 3 } else { 2 };
            let mut vs = vec![];
            for _ in 0..3 {
                let n = ctx.choose(max + 1);
                vs.push(ctx.pick_vec(n, &[0.0, 1.0, -2.5]));
            }
            ctx.log(|| format!("{:?} {:?}", ks, vs));
            let mk = |i: usize| build(ks[i], &vs[i]);
            let want = concat(&concat(&vs[0], &vs[1]), &vs[2]);
            let l = guarded("stack", || mk(0).stack(mk(1)).stack(mk(2)))?;
            let r = guarded("stack", || mk(0).stack(mk(1).stack(mk(2))))?;
            ctx.steps(4);
            ctx.state((ks, bits(&want)));
            same_exact("(a++b)++c", &l, &want)?;
            same_exact("a++(b++c)", &r, &want)?;
            let all = ks.iter().all(|k| k.is_sparse());
            expect_eq("storage of (a++b)++c", is_sparse(&l), all)?;
            expect_eq("storage of a++(b++c)", is_sparse(&r), all)
        }),
        scenario("long", |ctx| {
            let ka = *ctx.pick(&KINDS);
            let kb = *ctx.pick(&KINDS);
            let na = *ctx.pick(&LONG);
            let nb = *ctx.pick(&[1usize, 8, 17, 64, 100]);
            let va = long_vectors(na);
            let vb = long_vectors(nb);
            let a = ctx.pick(&va[1..]).clone();
            let b = ctx.pick(&vb[2..7.min(vb.len())]).clone();
            let f = guarded("stack", || build(ka, &a).stack(build(kb, &b)))?;
            ctx.step();
            ctx.state((ka, kb, bits(&a), bits(&b)));
            same_exact("stack", &f, &concat(&a, &b))?;
            expect_eq("sparse iff both sparse", is_sparse(&f), ka.is_sparse() && kb.is_sparse())
        }),
    ]
}

// ---------------------------------------------------------------------- C06

pub fn c06(t: bool) -> Vec<Scenario> {
    let maxn = if t { 5 } else { 4 };
    vec![
        nested::builds(),
        scenario("dense values", move |ctx| {
            let n = ctx.choose(maxn + 1);
            let v = ctx.pick_vec(n, &[0.0, 1.0, -0.5, 1e-9, 4e8, 1e-200, -2e150]);
            ctx.log(|| format!("{:?}", v));
            let check = |what: &str, f: Features| -> Res {
                if is_sparse(&f) {
                    return Err(format!("{} is sparse", what));
                }
                same_exact(what, &f, &v)
            };
            check("Features::dense", Features::dense(v.clone()))?;
            check("from Vec<f64>", Features::from(v.clone()))?;
            check("from_iter", v.iter().copied().collect())?;
            for k in [Kind::Dense, Kind::DenseRev, Kind::DenseStride, Kind::DenseOffset] {
                check("from Array1", Features::from(array(k, &v)))?;
                check("Features::dense(array)", Features::dense(array(k, &v)))?;
            }
            ctx.steps(11);
            ctx.state(bits(&v));
            Ok(())
        }),
        scenario("to plain arrays", move |ctx| {
            let kind = *ctx.pick(&KINDS);
            let n = ctx.choose(maxn + 1);
            let v = ctx.pick_vec(n, &[0.0, 1.0, -0.5, 1e-9, 4e8, 1e-200, -2e150]);
            ctx.log(|| format!("{:?} {:?}", kind, v));
            let f = build(kind, &v);
            let d = guarded("to_dense", || f.to_dense())?;
            exact_vec("to_dense", &d.iter().copied().collect::<Vec<_>>(), &v)?;
            same_exact("to_dense leaves its input", &f, &v)?;
            let d = guarded("into_dense", || f.clone().into_dense())?;
            exact_vec("into_dense", &d.iter().copied().collect::<Vec<_>>(), &v)?;
            let d: Array1<f64> = guarded("Array1::from", || f.clone().into())?;
            exact_vec("Array1::from", &d.iter().copied().collect::<Vec<_>>(), &v)?;
            let d: Vec<f64> = guarded("Vec::from", || f.clone().into())?;
            exact_vec("Vec::from", &d, &v)?;
            // round trips
            let back = Features::from(f.to_dense());
            same_exact("dense round trip", &back, &v)?;
            let r: &Features = f.as_ref();
            same_exact("as_ref", r, &v)?;
            if let Features::Sparse(sa) = &f {
                let back = guarded("from SparseActivations", || Features::from(sa.clone()))?;
                same_exact("sparse round trip", &back, &v)?;
                expect_eq("sparse round trip storage", is_sparse(&back), true)?;
                expect_eq("record iter", sa.iter().count(), sa.activations.len())?;
            }
            ctx.steps(6);
            ctx.state((kind, bits(&v)));
            Ok(())
        }),
        scenario("sparse entries", move |ctx| {
            // Any list of entries (indices may repeat), any declared dimension
            // large enough for them.
            let n = ctx.choose(4);
            let mut es: Vec<(usize, f64)> = vec![];
            for k in 0..n {
                let i = ctx.choose(4);
                let x = *ctx.pick(&[1.0, 0.0, -2.0]) * (k + 1) as f64;
                es.push((i, x));
            }
            let need = es.iter().map(|e| e.0 + 1).max().unwrap_or(0);
            let dim = need + ctx.choose(3);
            ctx.log(|| format!("dim {} entries {:?}", dim, es));
            let mut v = vec![0.0; dim];
            for (i, x) in &es {
                v[*i] = *x;
            }
            let f = Features::sparse(dim, es.clone());
            expect_eq("sparse() is sparse", is_sparse(&f), true)?;
            same_exact("Features::sparse", &f, &v)?;
            let sa = SparseActivations {
                dim,
                activations: es.iter().copied().collect(),
            };
            let f = guarded("from SparseActivations", || Features::from(sa))?;
            expect_eq("from(record) is sparse", is_sparse(&f), true)?;
            same_exact("from SparseActivations", &f, &v)?;
            ctx.steps(2);
            ctx.state(bits(&v));
            if dim > need {
                ctx.witness("trailing inactive features");
            }
            Ok(())
        }),
        scenario("long index lists", |ctx| {
            let n = *ctx.pick(&[5usize, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129, 257, 1000, 1025]);
            let step = *ctx.pick(&[1usize, 3, 7, 64, 1000]);
            let ix: Vec<usize> = match ctx.choose(6) {
                0 => (0..n).map(|i| i * step).collect(),
                1 => (0..n).rev().map(|i| i * step).collect(),
                // every index twice, in and out of order
                2 => (0..n).map(|i| (i / 2) * step).collect(),
                3 => (0..n).chain(0..n).map(|i| i * step).collect(),
                // the largest first, in the middle, shuffled
                4 => (0..n).map(|i| (i * 7 + n / 2) % n * step + 2).collect(),
                _ => std::iter::once(n * step).chain((0..n).map(|i| (i * i) % n * step)).collect(),
            };
            let need = ix.iter().max().unwrap() + 1;
            let want = |dim: usize| {
                let mut v = vec![0.0; dim];
                for i in &ix {
                    v[*i] = 1.0;
                }
                v
            };
            same_exact("from Vec<usize>", &guarded("from Vec<usize>", || Features::from(ix.clone()))?, &want(need))?;
            let dim = need + *ctx.pick(&[0usize, 1, 63]);
            same_exact("unitary", &guarded("unitary", || Features::unitary(dim, ix.clone()))?, &want(dim))?;
            // and with activations of their own, the last of each index counting
            let es: Vec<(usize, f64)> = ix.iter().enumerate().map(|(k, i)| (*i, 0.5 + k as f64)).collect();
            let mut v = vec![0.0; dim];
            for (i, x) in &es {
                v[*i] = *x;
            }
            same_exact("Features::sparse", &guarded("sparse", || Features::sparse(dim, es.clone()))?, &v)?;
            same_exact("Features::sparse of an iterator", &guarded("sparse", || Features::sparse(dim, es.iter().copied().filter(|_| true)))?, &v)?;
            ctx.steps(4);
            ctx.state((&ix, dim));
            Ok(())
        }),
        scenario("index lists", move |ctx| {
            let n = ctx.choose(maxn + 1);
            let ix: Vec<usize> = (0..n).map(|_| ctx.choose(4)).collect();
            let need = ix.iter().map(|i| i + 1).max().unwrap_or(0);
            ctx.log(|| format!("{:?}", ix));
            let want = |dim: usize| {
                let mut v = vec![0.0; dim];
                for i in &ix {
                    v[*i] = 1.0;
                }
                v
            };
            let f = guarded("from Vec<usize>", || Features::from(ix.clone()))?;
            expect_eq("from Vec<usize> is sparse", is_sparse(&f), true)?;
            same_exact("from Vec<usize>", &f, &want(need))?;
            let dim = need + ctx.choose(3);
            let f = Features::unitary(dim, ix.clone());
            expect_eq("unitary is sparse", is_sparse(&f), true)?;
            same_exact("unitary", &f, &want(dim))?;
            ctx.steps(2);
            ctx.state((&ix, dim));
            if n == 0 {
                ctx.witness("empty index list");
            }
            Ok(())
        }),
        scenario("long", |ctx| {
            let kind = *ctx.pick(&KINDS);
            let n = *ctx.pick(&LONG);
            let vs = long_vectors(n);
            let v = ctx.pick(&vs).clone();
            let f = build(kind, &v);
            exact_vec("to_dense", &f.to_dense().iter().copied().collect::<Vec<_>>(), &v)?;
            exact_vec("into_dense", &f.clone().into_dense().iter().copied().collect::<Vec<_>>(), &v)?;
            let d: Vec<f64> = f.clone().into();
            exact_vec("Vec::from", &d, &v)?;
            same_exact("dense", &Features::dense(v.clone()), &v)?;
            same_exact("sparse", &Features::sparse(n, v.iter().copied().enumerate()), &v)?;
            if let Features::Sparse(sa) = f {
                same_exact("from record", &Features::from(sa), &v)?;
            }
            ctx.steps(6);
            ctx.state((kind, bits(&v)));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------- C07

pub fn c07(_t: bool) -> Vec<Scenario> {
    fn check(ctx: &mut Ctx, ka: Kind, a: &[f64], kb: Kind, b: &[f64]) -> Res {
        let (fa, fb) = (build(ka, a), build(kb, b));
        let terms = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(x, y)| x * y).collect::<Vec<f64>>();
        let expect = |what: &str, got: f64, t: Vec<f64>| expect_sum(what, got, t.into_iter());
        let want = terms(a, b);
        let ip = |x: &Features, y: &Features| guarded("inner product", || ndarray::linalg::Dot::dot(x, y));
        expect("a.b", ip(&fa, &fb)?, want.clone())?;
        expect("b.a", ip(&fb, &fa)?, want.clone())?;
        expect("a.a", ip(&fa, &fa)?, terms(a, a))?;
        expect("b.b", ip(&fb, &fb)?, terms(b, b))?;
        let s = build(ka, &a.iter().map(|x| -2.5 * x).collect::<Vec<_>>());
        expect("(-2.5 a).b", ip(&s, &fb)?, want.iter().map(|x| -2.5 * x).collect())?;
        let z: Vec<f64> = a.iter().zip(b).map(|(x, y)| x + y).collect();
        let sum = build(ka, &z);
        expect("(a+b).b", ip(&sum, &fb)?, terms(&z, b))?;
        same_exact("left operand", &fa, a)?;
        same_exact("right operand", &fb, b)?;
        ctx.steps(6);
        ctx.state((ka, kb, bits(a), bits(b)));
        Ok(())
    }
    vec![
        scenario("pairs", |ctx| {
            let ka = *ctx.pick(&KINDS);
            let kb = *ctx.pick(&KINDS);
            let n = ctx.choose(if ctx.thorough { 5 } else { 4 });
            let alpha: &[f64] = if n <= 2 { &[0.0, 1.0, -2.0, 0.5, 3.0, 3e-9, 1e-6, 4e8] } else { &[0.0, 1.0, -2.0, 0.5, 3.0] };
            let a = ctx.pick_vec(n, alpha);
            let b = ctx.pick_vec(n, alpha);
            ctx.log(|| format!("{:?} {:?} . {:?} {:?}", ka, a, kb, b));
            check(ctx, ka, &a, kb, &b)
        }),
        scenario("long", |ctx| {
            let ka = *ctx.pick(&KINDS);
            let kb = *ctx.pick(&KINDS);
            let n = *ctx.pick(&LONG);
            let vs = long_vectors(n);
            let a = ctx.pick(&vs[1..5]).clone();
            let b = ctx.pick(&vs).clone();
            check(ctx, ka, &a, kb, &b)
        }),
    ]
}

// ---------------------------------------------------------------------- C08

/// Use a value in every way a caller might after an interrupted operation.
fn exercise(what: &str, f: &mut Features) -> Res {
    let n = guarded("n_features", || f.n_features())?;
    if n > 1 << 12 {
        return Err(format!("{}: length {} after the interruption", what, n));
    }
    let d = denote(f).map_err(|e| format!("{}: {}", what, e))?;
    expect_eq("length", d.len(), n)?;
    expect_eq("variant", f.is_sparse(), !f.is_dense())?;
    let c = guarded("clone", || f.clone())?;
    exact_vec("clone", &denote(&c)?, &d)?;
    exact_vec("to_dense", &guarded("to_dense", || f.to_dense())?.to_vec(), &d)?;
    expect("sum", guarded("sum", || f.sum())?, d.iter().sum())?;
    guarded("remove", || f.remove(0))?;
    let mut want = d.clone();
    if !want.is_empty() {
        want[0] = 0.0;
    }
    same_features("after remove", f, &want)?;
    guarded("map_inplace", || f.map_inplace(|x| x + 1.0))?;
    let want: Vec<f64> = want.iter().map(|x| x + 1.0).collect();
    same_features("after a later map_inplace", f, &want)?;
    let st = guarded("stack", || f.clone().stack(build(Kind::Sparse, &[1.0, 0.0])))?;
    same_exact("stack", &st, &concat(&want, &[1.0, 0.0]))?;
    // reassign: the old value is dropped
    *f = build(Kind::Sparse, &[0.0, 2.0]);
    same_features("reassigned", f, &[0.0, 2.0])?;
    drop(c);
    Ok(())
}

/// Operations on values made after the interruption, by the same thread: they
/// must not see anything that it left behind.
fn unrelated(ctx: &mut Ctx) -> Res {
    let vectors: [&[f64]; 3] = [&[], &[0.0, 5.0, 0.0], &[1.0, -2.0, 4.0, 0.0, 0.5]];
    for kind in KINDS {
        for v in vectors {
            for g in [(|x: f64| 3.0 * x) as F1, |x: f64| x - 1.0] {
                let want: Vec<f64> = v.iter().map(|x| g(*x)).collect();
                same_features("map of a value made later", &guarded("map", || build(kind, v).map(g))?, &want)?;
                same_features("map_into of a value made later", &guarded("map_into", || build(kind, v).map_into(g))?, &want)?;
                let mut f = build(kind, v);
                guarded("map_inplace", || f.map_inplace(g))?;
                same_features("map_inplace of a value made later", &f, &want)?;
                ctx.steps(3);
            }
            for other in KINDS {
                let u = [0.0, 7.0, 0.0, 0.0, 2.0];
                let u = &u[..v.len()];
                for g in [(|x: f64, y: f64| x + y) as F2, |x: f64, y: f64| x - y + 1.0] {
                    let want: Vec<f64> = v.iter().zip(u).map(|(x, y)| g(*x, *y)).collect();
                    same_features("merge of values made later", &guarded("merge", || build(kind, v).merge(&build(other, u), g))?, &want)?;
                    same_features("merge_into of values made later", &guarded("merge_into", || build(kind, v).merge_into(&build(other, u), g))?, &want)?;
                    let mut f = build(kind, v);
                    guarded("merge_inplace", || f.merge_inplace(&build(other, u), g))?;
                    same_features("merge_inplace of values made later", &f, &want)?;
                    ctx.steps(3);
                }
                let st = guarded("stack", || build(kind, v).stack(build(other, u)))?;
                same_exact("stack of values made later", &st, &concat(v, u))?;
                ctx.step();
            }
            let f = build(kind, v);
            expect("sum of a value made later", guarded("sum", || f.sum())?, v.iter().sum())?;
            let w = Array1::from_elem(v.len(), 2.0);
            expect("dot of a value made later", guarded("dot", || f.dot(&w))?, v.iter().sum::<f64>() * 2.0)?;
            let mut w = Array1::from_elem(v.len(), 2.0);
            guarded("scaled_addto", || f.scaled_addto(0.5, &mut w))?;
            expect_vec("scaled_addto of a value made later", &w.to_vec(), &v.iter().map(|x| 2.0 + 0.5 * x).collect::<Vec<_>>())?;
            ctx.steps(3);
        }
    }
    Ok(())
}

struct Bomb;

/// Vectors long enough for size-dependent paths, the calls at which to panic,
/// and what may follow.
const LENGTHS: [usize; 9] = [5, 8, 9, 17, 33, 65, 100, 257, 1025];

fn interruptions(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 33 { (0..n + 2).collect() } else { vec![0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, n / 4, n / 2, n - 2, n - 1, n, n + 1] };
    v.sort();
    v.dedup();
    v
}

fn shapes(n: usize) -> Vec<Vec<f64>> {
    vec![
        (0..n).map(|i| 1.0 + (i % 5) as f64).collect(),
        (0..n).map(|i| if i % 3 == 0 { 0.0 } else { -2.0 }).collect(),
        (0..n).map(|i| if i == n / 2 || i + 1 == n { 3.0 } else { 0.0 }).collect(),
    ]
}

fn interrupted_map(ctx: &mut Ctx, form: usize, kind: Kind, v: &[f64], k: usize, g: F1) -> Res {
    let mut f = build(kind, v);
    let calls = Cell::new(0usize);
    let h = |x: f64| {
        let c = calls.get();
        calls.set(c + 1);
        if c == k {
            std::panic::panic_any(Bomb);
        }
        g(x)
    };
    let r = catch_unwind(AssertUnwindSafe(|| match form {
        0 => drop(f.map(h)),
        1 => drop(f.clone().map_into(h)),
        _ => f.map_inplace(h),
    }));
    ctx.step();
    if r.is_err() {
        ctx.witness("interrupted");
        if form < 2 {
            same_exact("operand after the panic", &f, v)?;
        }
    } else if form == 2 {
        let want: Vec<f64> = v.iter().map(|x| g(*x)).collect();
        same_features("uninterrupted", &f, &want)?;
    }
    ctx.state((form, kind, bits(v), k, r.is_err()));
    if r.is_err() && (k < 4 || v.len() > 4) {
        unrelated(ctx)?;
    }
    exercise("value after the panic", &mut f)
}

fn interrupted_merge(ctx: &mut Ctx, form: usize, (ka, a): (Kind, &[f64]), (kb, b): (Kind, &[f64]), k: usize, g: F2) -> Res {
    let mut fa = build(ka, a);
    let mut fb = build(kb, b);
    let calls = Cell::new(0usize);
    let h = |x: f64, y: f64| {
        let c = calls.get();
        calls.set(c + 1);
        if c == k {
            std::panic::panic_any(Bomb);
        }
        g(x, y)
    };
    let r = catch_unwind(AssertUnwindSafe(|| match form {
        0 => drop(fa.merge(&fb, h)),
        1 => drop(fa.clone().merge_into(&fb, h)),
        _ => fa.merge_inplace(&fb, h),
    }));
    ctx.step();
    if r.is_err() {
        ctx.witness("interrupted");
    } else if form == 2 {
        let n = a.len().max(b.len());
        let at = |u: &[f64], i: usize| u.get(i).copied().unwrap_or(0.0);
        let want: Vec<f64> = (0..n).map(|i| g(at(a, i), at(b, i))).collect();
        same_features("uninterrupted", &fa, &want)?;
    }
    same_exact("right operand after the panic", &fb, b)?;
    if form < 2 {
        same_exact("left operand after the panic", &fa, a)?;
    }
    ctx.state((form, ka, kb, bits(a), bits(b), k, r.is_err()));
    if r.is_err() && (k % 3 == 1 || a.len() > 3) {
        unrelated(ctx)?;
    }
    exercise("left value after the panic", &mut fa)?;
    exercise("right value after the panic", &mut fb)
}

pub fn c08(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // zero-preserving or not: both storage outcomes of a sparse map
    let unary: [(&str, F1); 3] = [("2x", |x| 2.0 * x), ("x+1", |x| x + 1.0), ("x", |x| x)];
    for (form, fname) in ["map", "map_into", "map_inplace"].iter().enumerate() {
        for (name, g) in unary {
            for long in [false, true] {
                out.push(scenario(format!("{} {}{}", fname, name, if long { ", long" } else { "" }), move |ctx| {
                    let kind = *ctx.pick(&KINDS);
                    // The function is called at most once per coordinate plus once
                    // for the value at zero.
                    let (v, k) = if long {
                        let n = *ctx.pick(&LENGTHS);
                        let v = ctx.pick(&shapes(n)).clone();
                        let k = *ctx.pick(&interruptions(n));
                        (v, k)
                    } else {
                        let n = ctx.choose(5);
                        let v = ctx.pick_vec(n, &[1.0, 0.0, -2.0]);
                        (v, ctx.choose(n + 2))
                    };
                    ctx.log(|| format!("{} {:?} {:?}, panic at call {}", fname, kind, v, k));
                    interrupted_map(ctx, form, kind, &v, k, g)
                }));
            }
        }
    }
    let binary: [(&str, F2); 3] = [
        ("x+y", |x, y| x + y),
        ("x*y+1", |x, y| x * y + 1.0),
        ("x*y", |x, y| x * y),
    ];
    for (form, fname) in ["merge", "merge_into", "merge_inplace"].iter().enumerate() {
        for (name, g) in binary {
            for long in [false, true] {
                out.push(scenario(format!("{} {}{}", fname, name, if long { ", long" } else { "" }), move |ctx| {
                    let ka = *ctx.pick(&KINDS);
                    let kb = *ctx.pick(&KINDS);
                    let (a, b, k) = if long {
                        let n = *ctx.pick(if ctx.thorough { &LENGTHS[..] } else { &[8, 17, 65, 100, 257] });
                        let a = ctx.pick(&shapes(n)).clone();
                        let mut b: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 0.0 } else { i as f64 }).collect();
                        if ka.is_sparse() || kb.is_sparse() {
                            match ctx.choose(3) {
                                1 => b.truncate(n / 2),
                                2 => b.extend(vec![1.0; 3]),
                                _ => {}
                            }
                        }
                        let ks = if n <= 8 { interruptions(3 * n) } else { interruptions(n).into_iter().chain([2 * n - 1, 2 * n, 3 * n]).collect() };
                        (a, b, *ctx.pick(&ks))
                    } else {
                        let na = ctx.choose(if ctx.thorough { 4 } else { 3 });
                        let nb = if ka.is_sparse() || kb.is_sparse() { ctx.choose(4) } else { na };
                        let a = ctx.pick_vec(na, &[1.0, 0.0, -2.0]);
                        let b = ctx.pick_vec(nb, &[0.0, 3.0]);
                        let k = ctx.choose(na.max(nb) + na + nb + 2);
                        (a, b, k)
                    };
                    ctx.log(|| format!("{} {:?} {:?} with {:?} {:?}, panic at call {}", fname, ka, a, kb, b, k));
                    interrupted_merge(ctx, form, (ka, &a), (kb, &b), k, g)
                }));
            }
        }
    }
    let _ = t;
    out
}
