//! Sparse vectors of more features than could ever be stored densely: indices
//! and dimensionalities must survive every operation in full width.
use crate::engine::*;
use crate::util::*;
use lfa::{Features, SparseActivations};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Big {
    dim: usize,
    at: BTreeMap<usize, f64>,
}

const DIMS: [usize; 9] = [3, 257, 65_537, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 5, 1 << 40, (1 << 61) + 1];

fn pick(ctx: &mut Ctx) -> Big {
    let dim = *ctx.pick(&DIMS);
    let which = ctx.choose(3);
    let places: &[usize] = match which {
        0 => &[],
        1 => &[0, 2, 256, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 2, 1 << 33],
        _ => &[1],
    };
    let mut at: BTreeMap<usize, f64> = places.iter().filter(|i| **i < dim).enumerate().map(|(k, i)| (*i, 1.5 - k as f64)).collect();
    if which == 2 {
        at.insert(dim - 1, 0.25);
    }
    Big { dim, at }
}

fn make(b: &Big) -> Features {
    Features::sparse(b.dim, b.at.iter().map(|(i, x)| (*i, *x)))
}

/// Every listed coordinate, its neighbours and what it would be confused with.
fn same(ctx: &mut Ctx, what: &str, f: &Features, want: &Big) -> Res {
    ctx.step();
    expect_eq(&format!("{}: size", what), f.n_features(), want.dim)?;
    if !f.is_sparse() {
        return Err(format!("{} is stored densely", what));
    }
    let mut places: Vec<usize> = want.at.keys().flat_map(|i| [*i, i.wrapping_sub(1), i + 1, i & 0xffff_ffff, i & 0xffff, i & 0x7fff_ffff]).collect();
    places.extend([0, 1, want.dim.wrapping_sub(1)]);
    for i in places.into_iter().filter(|i| *i < want.dim) {
        let x = want.at.get(&i).copied().unwrap_or(0.0);
        expect_exact(&format!("{}: [{}] of {}", what, i, want.dim), f[i], x)?;
        expect_exact(&format!("{}: get({}) of {}", what, i, want.dim), f.get(i).copied().unwrap_or(0.0), x)?;
    }
    if let Features::Sparse(s) = f {
        if let Some(i) = s.activations.keys().find(|i| **i >= want.dim) {
            return Err(format!("{}: index {} beyond {}", what, i, want.dim));
        }
    }
    expect_eq(&format!("{}: n_active", what), f.n_active(), want.at.values().filter(|x| x.abs() > 1e-7).count())?;
    expect_sum(&format!("{}: sum", what), f.sum(), want.at.values().copied())?;
    ctx.state((what, want.dim, want.at.keys().copied().collect::<Vec<_>>()));
    Ok(())
}

pub fn huge(id: &'static str) -> Scenario {
    scenario("sparse vectors of up to 2^61 features", move |ctx| {
        let a = pick(ctx);
        let f = guarded("sparse", || make(&a))?;
        match id {
            "C01" => {
                same(ctx, "reading", &f, &a)?;
                expect_sum("fold", f.fold(0.5, |acc, x| acc + x), a.at.values().copied().chain(Some(0.5)))
            }
            "C02" => {
                let want = Big { dim: a.dim, at: a.at.iter().map(|(i, x)| (*i, -2.0 * x)).collect() };
                let g = |x: f64| -2.0 * x;
                same(ctx, "map", &guarded("map", || f.map(g))?, &want)?;
                same(ctx, "map_into", &guarded("map_into", || f.clone().map_into(g))?, &want)?;
                let mut h = f.clone();
                guarded("map_inplace", || h.map_inplace(g))?;
                same(ctx, "map_inplace", &h, &want)?;
                same(ctx, "the original", &f, &a)
            }
            "C03" => {
                let b = pick(ctx);
                let h = make(&b);
                let g = |x: f64, y: f64| 2.0 * x - y;
                let mut at = BTreeMap::new();
                for i in a.at.keys().chain(b.at.keys()) {
                    let read = |v: &Big| v.at.get(i).copied().unwrap_or(0.0);
                    at.insert(*i, g(read(&a), read(&b)));
                }
                let want = Big { dim: a.dim.max(b.dim), at };
                same(ctx, "merge", &guarded("merge", || f.merge(&h, g))?, &want)?;
                same(ctx, "merge_into", &guarded("merge_into", || f.clone().merge_into(&h, g))?, &want)?;
                let mut k = f.clone();
                guarded("merge_inplace", || k.merge_inplace(&h, g))?;
                same(ctx, "merge_inplace", &k, &want)?;
                same(ctx, "the first operand", &f, &a)?;
                same(ctx, "the second operand", &h, &b)
            }
            "C04" => {
                let b = pick(ctx);
                let at = a.at.iter().map(|(i, x)| (*i, *x)).chain(b.at.iter().map(|(i, x)| (i + a.dim, *x))).collect();
                let want = Big { dim: a.dim + b.dim, at };
                same(ctx, "stack", &guarded("stack", || f.stack(make(&b)))?, &want)
            }
            "C06" => {
                let ones = Big { dim: a.dim, at: a.at.keys().map(|i| (*i, 1.0)).collect() };
                let ix: Vec<usize> = a.at.keys().copied().collect();
                same(ctx, "Features::sparse", &f, &a)?;
                same(ctx, "unitary", &guarded("unitary", || Features::unitary(a.dim, ix.clone()))?, &ones)?;
                let sa = SparseActivations { dim: a.dim, activations: a.at.iter().map(|(i, x)| (*i, *x)).collect() };
                same(ctx, "from SparseActivations", &guarded("from SparseActivations", || Features::from(sa))?, &a)?;
                let need = ix.last().map_or(0, |i| i + 1);
                same(ctx, "from Vec<usize>", &guarded("from Vec<usize>", || Features::from(ix))?, &Big { dim: need, at: ones.at })?;
                let back = f.map_sparse(Features::from).ok_or("map_sparse of a sparse vector gave nothing")?;
                same(ctx, "map_sparse round trip", &back, &a)
            }
            _ => {
                let b = Big { dim: a.dim, ..pick(ctx) };
                let b = Big { at: b.at.into_iter().filter(|e| e.0 < a.dim).collect(), ..b };
                let h = make(&b);
                let want: Vec<f64> = a.at.iter().map(|(i, x)| x * b.at.get(i).copied().unwrap_or(0.0)).collect();
                let ip = |x: &Features, y: &Features| guarded("inner product", || ndarray::linalg::Dot::dot(x, y));
                expect_sum("a.b", ip(&f, &h)?, want.iter().copied())?;
                expect_sum("b.a", ip(&h, &f)?, want.iter().copied())?;
                expect_sum("a.a", ip(&f, &f)?, a.at.values().map(|x| x * x))?;
                same(ctx, "left operand", &f, &a)?;
                same(ctx, "right operand", &h, &b)
            }
        }
    })
}
