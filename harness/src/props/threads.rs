//! C30: reads of a shared model from controlled threads, and the auto-trait
//! facts they rest on.
use crate::basis_util::*;
use crate::engine::*;
use crate::isolate::isolated_answer;
use crate::util::*;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Error, Features, SparseActivations, LFA};
use ndarray::{Array1, Array2};
use std::marker::PhantomData;
use std::result::Result as R;
use std::hash::BuildHasher;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------- Send and Sync

struct Probe<T>(PhantomData<T>);
trait Fallback {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> Fallback for Probe<T> {}
struct SendProbe<T>(PhantomData<T>);
struct SyncProbe<T>(PhantomData<T>);
impl<T: Send> SendProbe<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> SyncProbe<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T> Fallback for SendProbe<T> {}
impl<T> Fallback for SyncProbe<T> {}

fn auto_traits() -> Vec<(&'static str, bool, bool)> {
    let mut v = vec![];
    macro_rules! probe {
        ($($t:ty),* $(,)?) => { $(
            v.push((stringify!($t), SendProbe::<$t>(PhantomData).send(), SyncProbe::<$t>(PhantomData).sync()));
        )* };
    }
    type Tiles = TileCoding<Bh>;
    type Big = Stack<L1Normaliser<UniformGrid>, Stack<L2Normaliser<Tiles>, L0Normaliser<LinfNormaliser<Polynomial>>>>;
    probe!(
        Features,
        SparseActivations,
        Error,
        lfa::ErrorKind,
        Polynomial,
        Chebyshev,
        Fourier,
        UniformGrid,
        Tiles,
        TileCoding<std::collections::hash_map::RandomState>,
        Bias,
        Fixed<Features>,
        Fixed<Array1<f64>>,
        Closure<fn(&[f64]) -> lfa::Result<Features>>,
        Prototype<Vec<f64>, ExpQuad>,
        KernelBasis<Vec<f64>, ExpQuad>,
        KernelBasis<Vec<f64>, Matern32>,
        KernelBasis<Vec<f64>, Matern52>,
        KernelBasis<Vec<f64>, RationalQuadratic>,
        Exponential,
        Matern32,
        Matern52,
        ExpQuad,
        Cosine,
        RationalQuadratic,
        Stack<Polynomial, Bias>,
        Stack<Tiles, UniformGrid>,
        L0Normaliser<Polynomial>,
        L1Normaliser<Polynomial>,
        L2Normaliser<Polynomial>,
        LinfNormaliser<Polynomial>,
        Big,
        SGD,
        ISGD,
        SGDMomentum,
        NAG,
        Adagrad,
        Adam,
        AdaMax,
        LFA<Polynomial, Array1<f64>, SGD>,
        LFA<Chebyshev, Array1<f64>, Adam>,
        LFA<Tiles, Array2<f64>, NAG>,
        LFA<Big, Array2<f64>, AdaMax>,
        LFA<KernelBasis<Vec<f64>, ExpQuad>, Array1<f64>, Adagrad>,
        lfa::OutputIter<'static>,
    );
    // The probe itself.
    v.push(("harness: Rc<u8> must not", !SendProbe::<std::rc::Rc<u8>>(PhantomData).send(), !SyncProbe::<std::cell::Cell<u8>>(PhantomData).sync()));
    let _ = Probe::<u8>(PhantomData).send() || Probe::<u8>(PhantomData).sync();
    v
}

// ------------------------------------------------------- controlled threads

extern "C" {
    fn mc_reset(threads: i32);
    fn mc_thread_start(t: i32);
    fn mc_thread_done();
    fn mc_between();
    fn mc_inside(yes: i32);
    fn mc_run(t: i32, exclusive: i32) -> i32;
    fn mc_state(t: i32) -> i32;
    fn mc_at_boundary(t: i32) -> i32;
    fn mc_points() -> u64;
    fn mc_point();
}

/// Memory of each controlled thread's own (see runtime.c).
struct Arenas;

extern "C" {
    fn mc_alloc(n: usize, align: usize) -> *mut u8;
    fn mc_free(p: *mut u8);
}

unsafe impl std::alloc::GlobalAlloc for Arenas {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        mc_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: std::alloc::Layout) {
        mc_free(p)
    }
}

#[global_allocator]
static ARENAS: Arenas = Arenas;

/// One read of a shared model.
type Read = Box<dyn Fn() -> R<Vec<f64>, String>>;

/// Lets a model be used from several threads whatever its auto traits are;
/// the scheduler allows one thread at a time.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Run each script (indices of reads) on a thread of its own, the explorer
/// choosing who runs at every scheduling point: freely between calls, and with
/// at most `bound` preemptions within them.
fn run_scripts(ctx: &mut Ctx, scripts: &[Vec<usize>], reads: &Arc<Shared<Vec<Read>>>, bound: usize) -> R<Vec<Vec<R<Vec<f64>, String>>>, String> {
    let n = scripts.len();
    let results: Arc<Mutex<Vec<Vec<R<Vec<f64>, String>>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
    unsafe { mc_reset(n as i32) };
    for (t, script) in scripts.iter().enumerate() {
        let (script, reads, results) = (script.clone(), reads.clone(), results.clone());
        std::thread::spawn(move || unsafe {
            mc_thread_start(t as i32);
            for (k, r) in script.iter().enumerate() {
                if k > 0 {
                    mc_between();
                }
                mc_inside(1);
                let got = guarded("the read", || (reads.get()[*r])());
                mc_inside(0);
                results.lock().unwrap()[t].push(got.and_then(|r| r));
            }
            mc_thread_done();
        });
    }
    let (mut last, mut preempted, mut in_a_row) = (None, 0, 0);
    loop {
        let state = |t: usize| unsafe { mc_state(t as i32) };
        let mut enabled: Vec<usize> = (0..n).filter(|t| state(*t) == 0).collect();
        if enabled.is_empty() {
            if (0..n).all(|t| state(t) == 2) {
                break;
            }
            // (nothing is joined; this process ends with the execution)
            return Err("deadlock: threads that only read wait for each other".into());
        }
        let mut within = false;
        if let Some(l) = last {
            if let Some(i) = enabled.iter().position(|t| *t == l) {
                enabled.remove(i);
                enabled.insert(0, l);
                within = unsafe { mc_at_boundary(l as i32) } == 0;
            }
        }
        let next = if within && in_a_row > 300 && enabled.len() > 1 {
            // waiting for the others by polling: not a preemption
            enabled[1]
        } else if within && preempted >= bound {
            enabled[0]
        } else {
            enabled[ctx.choose(enabled.len())]
        };
        if within && in_a_row <= 300 && Some(next) != last {
            preempted += 1;
        }
        in_a_row = if Some(next) == last { in_a_row + 1 } else { 0 };
        last = Some(next);
        let exclusive = preempted >= bound && in_a_row <= 300;
        if unsafe { mc_points() } > 100_000 {
            return Err("no end in sight after 100000 scheduling points".into());
        }
        if unsafe { mc_run(next as i32, exclusive as i32) } != 0 {
            return Err("a read neither returned nor reached a scheduling point".into());
        }
        ctx.step();
    }
    let r = std::mem::take(&mut *results.lock().unwrap());
    Ok(r)
}

/// An input whose elements are handed out at scheduling points.
#[derive(Clone)]
struct Slow<'a>(std::slice::Iter<'a, f64>);

impl<'a> Iterator for Slow<'a> {
    type Item = &'a f64;
    fn next(&mut self) -> Option<&'a f64> {
        unsafe { mc_point() };
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl ExactSizeIterator for Slow<'_> {}

fn slow(x: &[f64]) -> Slow<'_> {
    Slow(x.iter())
}

/// A hasher that is a scheduling point.
#[derive(Clone, Default)]
struct SlowBh(Bh);
struct SlowHasher(<Bh as std::hash::BuildHasher>::Hasher);
impl std::hash::BuildHasher for SlowBh {
    type Hasher = SlowHasher;
    fn build_hasher(&self) -> SlowHasher {
        SlowHasher(self.0.build_hasher())
    }
}
impl std::hash::Hasher for SlowHasher {
    fn finish(&self) -> u64 {
        unsafe { mc_point() };
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
}

/// A user-defined basis that is a scheduling point before and after its work.
fn slow_closure(scale: f64) -> Closure<impl Fn(&[f64]) -> lfa::Result<Features> + Clone> {
    Closure::new(3, move |x: &[f64]| -> lfa::Result<Features> {
        unsafe { mc_point() };
        let f = Features::dense(vec![scale * x[0], x[0] + x[1], -scale]);
        unsafe { mc_point() };
        Ok(f)
    })
}

fn feats(f: lfa::Result<Features>) -> R<Vec<f64>, String> {
    denote(&f.map_err(|e| e.to_string())?)
}

/// The reads of a basis at three inputs.
fn basis_reads<B>(b: &'static B, d: usize) -> Vec<Read>
where
    B: for<'a> EnumerableBasis<&'a [f64], Value = Features> + spaces::Space<Value = Features>,
{
    let all = inputs(d, if d == 1 { 6 } else { 3 });
    let xs = [all[1].clone(), all[all.len() - 1].clone()];
    let mut v: Vec<Read> = vec![];
    for x in xs.clone() {
        v.push(Box::new(move || feats(b.project(&x))));
    }
    let x = xs[0].clone();
    v.push(Box::new(move || {
        let n: usize = b.dim().into();
        b.ith(&x, n / 2).map(|y| vec![n as f64, y]).map_err(|e| e.to_string())
    }));
    v
}

fn scalar_reads<B, O>(fa: &'static LFA<B, Array1<f64>, O>, d: usize) -> Vec<Read>
where
    B: for<'a> Basis<&'a [f64], Value = Features>,
{
    let all = inputs(d, if d == 1 { 6 } else { 3 });
    [all[1].clone(), all[all.len() / 2].clone(), all[all.len() - 1].clone()]
        .into_iter()
        .map(|x| -> Read { Box::new(move || fa.evaluate(&x[..]).map(|y| vec![y]).map_err(|e| e.to_string())) })
        .collect()
}

fn vector_reads<B, O>(fa: &'static LFA<B, Array2<f64>, O>, d: usize) -> Vec<Read>
where
    B: for<'a> Basis<&'a [f64], Value = Features>,
{
    let all = inputs(d, if d == 1 { 6 } else { 3 });
    let xs = [all[1].clone(), all[all.len() - 1].clone()];
    let mut v: Vec<Read> = vec![];
    for x in xs.clone() {
        v.push(Box::new(move || fa.evaluate(&x[..]).map(|y| y.to_vec()).map_err(|e| e.to_string())));
    }
    let x = xs[1].clone();
    v.push(Box::new(move || {
        let it = fa.try_iter(&x[..]).map_err(|e| e.to_string())?;
        Ok(std::iter::once(it.len() as f64).chain(it).collect())
    }));
    let x = xs[0].clone();
    v.push(Box::new(move || fa.evaluate_index(&x[..], 1).map(|y| vec![y]).map_err(|e| e.to_string())));
    v
}

fn feature_reads(f: &'static Features) -> Vec<Read> {
    let n = f.n_features();
    vec![
        Box::new(move || {
            let w: Array1<f64> = (0..n).map(|i| i as f64 + 0.5).collect();
            Ok(vec![f.dot(&w), f.sum(), f.n_active() as f64])
        }),
        Box::new(move || denote(&f.map(|x| 2.0 * x))),
        Box::new(move || Ok((0..n).map(|i| f[i]).chain(f.to_dense()).collect())),
        Box::new(move || denote(&f.merge(f, |x, y| x + y))),
    ]
}

fn weights(n: usize, k: usize) -> Array2<f64> {
    Array2::from_shape_fn((n, k), |(i, j)| 0.5 * i as f64 - 0.25 * j as f64 + 1.0)
}

/// A model, the reads it offers, and their answers on a fresh copy of it.
type Family = Vec<(&'static str, Box<dyn Fn() -> Vec<Read> + Send + Sync>)>;

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

macro_rules! basis_models {
    ($out:ident; $($name:literal, $d:expr, $b:expr;)*) => { $(
        $out.push(($name, Box::new(|| basis_reads(leak($b), $d)) as Box<dyn Fn() -> Vec<Read> + Send + Sync>));
        $out.push((concat!("scalar LFA over ", $name), Box::new(|| {
            let b = $b;
            let n: usize = spaces::Space::dim(&b).into();
            scalar_reads(leak(LFA::new(b, weights(n, 1).column(0).to_owned(), SGD(0.1))), $d)
        }) as Box<dyn Fn() -> Vec<Read> + Send + Sync>));
        $out.push((concat!("vector LFA over ", $name), Box::new(|| {
            let b = $b;
            let n: usize = spaces::Space::dim(&b).into();
            vector_reads(leak(LFA::new(b, weights(n, 3), Adam::new(n, 0.1, 0.9, 0.99))), $d)
        }) as Box<dyn Fn() -> Vec<Read> + Send + Sync>));
    )* };
}

/// Reads of one kernel: through a basis some of whose prototypes are equally
/// far from the input, and directly.
fn kernel_reads<K>(k: K) -> Vec<Read>
where
    K: Clone + for<'a> Kernel<&'a [f64]> + Kernel<f64> + 'static,
{
    let b = leak(KernelBasis::homogeneous(vec![vec![0.0, 0.0], vec![1.0, 1.0], vec![1.0, 0.0], vec![-0.5, 3.0]], k.clone()));
    let k = leak(k);
    let (x, y) = ([0.5, 0.5], [2.0, -1.0]);
    let mut v = basis_reads(b, 2);
    v[0] = Box::new(move || feats(b.project(&x[..])));
    v[1] = Box::new(move || feats(b.project(&y[..])));
    v.push(Box::new(move || Ok([0.5, 0.5, 2.0, 0.5].iter().map(|r| k.kernel(*r, 0.0)).collect())));
    v
}

/// Threads that each train a model of their own.
fn training<B, O>(make: impl Fn() -> LFA<B, Array1<f64>, O> + 'static, xs: Vec<Vec<f64>>) -> Read
where
    B: for<'a> Basis<&'a [f64], Value = Features>,
    O: Optimiser,
{
    Box::new(move || {
        let mut fa = make();
        for x in &xs {
            fa.update(&x[..], 1.5).map_err(|e| e.to_string())?;
            fa.update_with(&x[..], |_, y| 2.0 - y).map_err(|e| e.to_string())?;
        }
        fa.optimiser.reset();
        fa.update(&xs[0][..], -1.0).map_err(|e| e.to_string())?;
        Ok(fa.weights.to_vec())
    })
}

fn vector_training<B, O>(make: impl Fn() -> LFA<B, Array2<f64>, O> + 'static, xs: Vec<Vec<f64>>) -> Read
where
    B: for<'a> Basis<&'a [f64], Value = Features>,
    O: Optimiser,
{
    Box::new(move || {
        let mut fa = make();
        for x in &xs {
            fa.update(&x[..], vec![1.5, -0.5]).map_err(|e| e.to_string())?;
            fa.update_with(&x[..], |_, y| 2.0 - y).map_err(|e| e.to_string())?;
            fa.update_index(&x[..], 1, 0.5).map_err(|e| e.to_string())?;
        }
        Ok(fa.weights.iter().copied().collect())
    })
}

/// Feature vectors built and changed by each thread on its own.
fn feature_training(v: Vec<f64>) -> Vec<Read> {
    let (a, b) = (v.clone(), v);
    vec![
        Box::new(move || {
            let mut f = build(Kind::Sparse, &a);
            f.map_inplace(|x| 2.0 * x);
            f.merge_inplace(&Features::unitary(a.len(), vec![0]), |x, y| x + y);
            f = f.stack(Features::unitary(2, vec![1]));
            f.remove(0);
            let mut r = denote(&f)?;
            let w = Array2::from_shape_fn((r.len(), 2), |(i, j)| i as f64 - j as f64);
            r.extend(f.matmul(&w));
            Ok(r)
        }),
        Box::new(move || {
            let mut f = build(Kind::Dense, &b);
            f.map_inplace(|x| x + 1.0);
            f.merge_inplace(&Features::dense(vec![1.0; b.len()]), |x, y| x * y - y);
            f = f.stack(Features::unitary(2, vec![1]));
            let mut w: Array1<f64> = Array1::zeros(f.n_features());
            f.addto(&mut w);
            f.scaled_addto(0.5, &mut w);
            Ok(w.to_vec())
        }),
    ]
}

macro_rules! kernel_models {
    ($out:ident; $($name:literal, $k:expr;)*) => { $(
        $out.push(($name, Box::new(|| kernel_reads($k)) as Box<dyn Fn() -> Vec<Read> + Send + Sync>));
    )* };
}

macro_rules! training_models {
    ($out:ident; $lr:expr; $($name:literal, $o:expr;)*) => { $(
        $out.push(($name, Box::new(|| {
            let xs = vec![vec![0.5, 2.0], vec![-0.75, 0.25]];
            let dense = || Polynomial::new(2, 1).with_zeroth();
            let sparse = || UniformGrid::new(equi(&[2, 2]));
            vec![
                training(move || LFA::scalar(dense(), $o(4, $lr)), xs.clone()),
                training(move || LFA::scalar(sparse(), $o(4, $lr)), xs.clone()),
                vector_training(move || LFA::vector(dense(), $o(4, $lr), 2), xs.clone()),
                vector_training(move || LFA::vector(sparse(), $o(4, 2.0 * $lr), 2), xs),
            ]
        }) as Box<dyn Fn() -> Vec<Read> + Send + Sync>));
    )* };
}

fn models() -> Family {
    let mut v: Family = vec![];
    basis_models! { v;
        "Polynomial", 2, Polynomial::new(2, 2).with_zeroth();
        "Chebyshev", 2, Chebyshev::new(3, limits(2));
        "Fourier", 1, Fourier::new(4, limits(1));
        "UniformGrid", 2, UniformGrid::new(equi(&[3, 2]));
        "TileCoding", 2, TileCoding::new(Bh::default(), 4, 64);
        "KernelBasis", 2, KernelBasis::exp_quad(equi(&[3, 2]));
        "L2(Stack(grid, tiles))", 2, UniformGrid::new(equi(&[3, 2])).stack(TileCoding::new(Bh::default(), 3, 16)).normalise_l2();
        "L1(Linf(L0(Fourier))).with_bias", 2, Fourier::new(1, limits(2)).normalise_l0().normalise_linf().normalise_l1().with_bias();
        "Stack(Bias, Fixed)", 1, Bias(2.0).stack(Fixed::dense(vec![1.0, -3.0]));
    }
    kernel_models! { v;
        "Exponential", Exponential::new(1.5, vec![1.0, 2.0]);
        "Matern32", Matern32::new(1.5, vec![1.0, 2.0]);
        "Matern52", Matern52::new(1.5, vec![1.0, 2.0]);
        "ExpQuad", ExpQuad::new(1.5, vec![1.0, 2.0]);
        "Cosine", Cosine::new(1.5, vec![1.0, 2.0]);
        "RationalQuadratic", RationalQuadratic::new(1.5, vec![1.0, 2.0], 0.5);
    }
    training_models! { v; 0.1;
        "training with SGD", |_: usize, lr: f64| SGD(lr);
        "training with ISGD", |_: usize, lr: f64| ISGD(lr);
        "training with SGDMomentum", |n: usize, lr: f64| SGDMomentum::new(n, 0.9, lr);
        "training with NAG", |n: usize, lr: f64| NAG::new(n, 0.9, lr);
        "training with Adagrad", |n: usize, lr: f64| Adagrad::new(n, lr);
        "training with Adam", |n: usize, lr: f64| Adam::new(n, lr, 0.9, 0.99);
        "training with AdaMax", |n: usize, lr: f64| AdaMax::new(n, lr, 0.9, 0.99);
    }
    v.push(("features of each thread's own", Box::new(|| feature_training(vec![1.0, 0.0, -2.0]))));
    v.push(("dense features", Box::new(|| feature_reads(leak(build(Kind::Dense, &[1.0, 0.0, -2.0]))))));
    v.push(("sparse features", Box::new(|| feature_reads(leak(build(Kind::Sparse, &[1.0, 0.0, -2.0]))))));
    v
}

/// Models whose callbacks are scheduling points.
fn slow_models() -> Family {
    let mut v: Family = vec![];
    macro_rules! by_item {
        ($($name:literal, $d:expr, $a:expr, $b:expr;)*) => { $(
            v.push((concat!($name, " over a slow input"), Box::new(|| {
                let all = inputs($d, if $d == 1 { 6 } else { 3 });
                let (x, y) = (leak(all[1].clone()), leak(all[all.len() - 1].clone()));
                let (a, b) = (leak($a), leak($b));
                let n: usize = spaces::Space::dim(a).into();
                vec![
                    Box::new(move || feats(a.project(slow(x)))) as Read,
                    Box::new(move || feats(a.project(slow(y)))),
                    Box::new(move || a.ith(slow(x), n - 1).map(|y| vec![y]).map_err(|e| e.to_string())),
                    Box::new(move || feats(b.project(slow(x)))),
                ]
            }) as Box<dyn Fn() -> Vec<Read> + Send + Sync>));
        )* };
    }
    by_item! {
        "Polynomial", 1, Polynomial::new(1, 3), Polynomial::new(1, 2).with_zeroth();
        "Polynomial 2d", 2, Polynomial::new(2, 1), Polynomial::new(2, 1).with_zeroth();
        "Chebyshev", 1, Chebyshev::new(3, limits(1)), Chebyshev::new(3, vec![(-2.0, 2.0)]);
        "Chebyshev 2d", 2, Chebyshev::new(1, limits(2)), Chebyshev::new(1, vec![(-2.0, 2.0), (0.0, 5.0)]);
        "Fourier", 1, Fourier::new(3, limits(1)), Fourier::new(3, vec![(-2.0, 2.0)]);
        "Fourier 2d", 2, Fourier::new(1, limits(2)), Fourier::new(1, vec![(-2.0, 2.0), (0.0, 5.0)]);
        "UniformGrid", 2, UniformGrid::new(equi(&[3, 2])), UniformGrid::new(equi(&[2, 3]));
        "TileCoding", 2, TileCoding::new(Bh::default(), 4, 64), TileCoding::new(Bh::default(), 3, 64);
        "TileCoding with a slow hasher", 1, TileCoding::new(SlowBh::default(), 3, 64), TileCoding::new(SlowBh::default(), 2, 64);
    }
    v.push(("slow closures, stacked and normalised", Box::new(|| {
        let (x, y) = ([0.5, 2.0], [-1.0, 0.25]);
        let a = leak(slow_closure(2.0).stack(slow_closure(-1.0)));
        let b = leak(L2Normaliser::new(slow_closure(2.0)));
        let c = leak(L1Normaliser::new(slow_closure(0.5)).stack(Bias::unit()));
        let fa = leak(LFA::new(slow_closure(2.0), weights(3, 2), SGD(0.1)));
        vec![
            Box::new(move || feats(a.project(&x[..]))) as Read,
            Box::new(move || feats(b.project(&y[..]))),
            Box::new(move || feats(c.project(&x[..]))),
            Box::new(move || fa.evaluate(&x[..]).map(|y| y.to_vec()).map_err(|e| e.to_string())),
        ]
    })));
    v.push(("features under slow functions", Box::new(|| {
        let d = leak(build(Kind::Dense, &[1.0, 0.0, -2.0]));
        let s = leak(build(Kind::Sparse, &[1.0, 0.0, -2.0]));
        let f = |x: f64| {
            unsafe { mc_point() };
            2.0 * x
        };
        let g = |x: f64, y: f64| {
            unsafe { mc_point() };
            x + y
        };
        vec![
            Box::new(move || denote(&d.map(f))) as Read,
            Box::new(move || denote(&s.map(f))),
            Box::new(move || denote(&d.merge(s, g))),
            Box::new(move || denote(&s.merge(s, g))),
        ]
    })));
    v
}

/// Other models, of the same type and of others, read in between.
fn others() -> Family {
    let mut v: Family = vec![];
    basis_models! { v;
        "another Polynomial", 2, Polynomial::new(2, 1);
        "another Chebyshev", 2, Chebyshev::new(2, vec![(-2.0, 2.0), (0.0, 5.0)]);
        "another Fourier", 1, Fourier::new(2, vec![(0.0, 10.0)]);
        "another UniformGrid", 2, UniformGrid::new(equi(&[2, 4]));
        "another TileCoding", 2, TileCoding::new(Bh::default(), 3, 32);
        "another KernelBasis", 2, KernelBasis::matern_32(equi(&[2, 2]));
        "another L2(Stack)", 2, UniformGrid::new(equi(&[2, 2])).stack(TileCoding::new(Bh::default(), 2, 8)).normalise_l2();
        "another normalised Fourier", 2, Fourier::new(2, limits(2)).normalise_l0().normalise_linf().normalise_l1().with_bias();
        "another Stack", 1, Bias(-1.0).stack(Fixed::dense(vec![4.0]));
    }
    kernel_models! { v;
        "another Exponential", Exponential::new(1.0, vec![0.5]);
        "another Matern32", Matern32::new(1.0, vec![0.5]);
        "another Matern52", Matern52::new(1.0, vec![0.5]);
        "another ExpQuad", ExpQuad::new(1.0, vec![0.5]);
        "another Cosine", Cosine::new(1.0, vec![0.5]);
        "another RationalQuadratic", RationalQuadratic::new(1.0, vec![0.5], 2.0);
    }
    training_models! { v; 0.25;
        "training with another SGD", |_: usize, lr: f64| SGD(lr);
        "training with another ISGD", |_: usize, lr: f64| ISGD(lr);
        "training with another SGDMomentum", |n: usize, lr: f64| SGDMomentum::new(n, 0.5, lr);
        "training with another NAG", |n: usize, lr: f64| NAG::new(n, 0.5, lr);
        "training with another Adagrad", |n: usize, lr: f64| Adagrad::new(n, lr);
        "training with another Adam", |n: usize, lr: f64| Adam::new(n, lr, 0.5, 0.9);
        "training with another AdaMax", |n: usize, lr: f64| AdaMax::new(n, lr, 0.5, 0.9);
    }
    v.push(("other features of each thread's own", Box::new(|| feature_training(vec![0.0, 4.0, 5.0, 6.0]))));
    v.push(("other dense features", Box::new(|| feature_reads(leak(build(Kind::Dense, &[5.0, 6.0, 7.0, 8.0]))))));
    v.push(("other sparse features", Box::new(|| feature_reads(leak(build(Kind::Sparse, &[0.0, 4.0]))))));
    v
}

fn make(i: usize, slow: bool) -> R<(Vec<Read>, usize), String> {
    guarded("building the model", || {
        if slow {
            let r = (slow_models()[i].1)();
            let n = r.len();
            return (r, n);
        }
        let mut reads = (models()[i].1)();
        let own = reads.len();
        reads.extend((others()[i].1)().into_iter().take(3));
        (reads, own)
    })
}

/// What one thread gets that does nothing else in the life of its process.
fn answers(i: usize, slow: bool) -> R<Vec<Vec<f64>>, String> {
    let n = isolated_answer(|| make(i, slow).map(|(r, _)| vec![r.len() as f64]))?[0] as usize;
    (0..n).map(|k| isolated_answer(|| make(i, slow)?.0[k]())).collect()
}

pub fn c30(t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("Send and Sync", |ctx| {
        let all = auto_traits();
        let (name, send, sync) = all[ctx.choose(all.len())];
        ctx.step();
        ctx.state(name);
        if !send {
            return Err(format!("{} cannot be sent to another thread", name));
        }
        if !sync {
            return Err(format!("{} cannot be shared between threads", name));
        }
        Ok(())
    }));
    // Bounded preemptions first, fewest first; then longer scripts of whole calls.
    // (lengths of the scripts, preemptions, models with scheduling points of their own)
    let mut rounds: Vec<(Vec<usize>, usize, bool)> = vec![
        (vec![1, 1], 1, false),
        (vec![1, 1], 1, true),
        (vec![1, 1], 2, false),
        (vec![1, 1], 2, true),
        (vec![2, 1], 1, false),
        (vec![2, 1], 1, true),
        (vec![2, 2], 1, false),
    ];
    if t {
        rounds.extend([
            (vec![1, 1], 3, false),
            (vec![1, 1], 3, true),
            (vec![2, 1], 2, true),
            (vec![1, 1, 1], 1, false),
            (vec![1, 1, 1], 2, true),
            (vec![3, 2], 1, false),
            (vec![2, 1, 1], 0, false),
        ]);
    }
    let all: Vec<(usize, bool, &'static str)> = models()
        .iter()
        .enumerate()
        .map(|(i, m)| (i, false, m.0))
        .chain(slow_models().iter().enumerate().map(|(i, m)| (i, true, m.0)))
        .collect();
    let want: Vec<Arc<R<Vec<Vec<f64>>, String>>> = all.iter().map(|(i, s, _)| Arc::new(answers(*i, *s))).collect();
    for (lens, bound, slow) in rounds {
        for (m, (i, is_slow, name)) in all.iter().copied().enumerate() {
            if is_slow != slow {
                continue;
            }
            let (want, lens) = (want[m].clone(), lens.clone());
            let title = format!("calls per thread {:?}, at most {} preemptions within calls: {}", lens, bound, name);
            out.push(
                scenario(title, move |ctx| {
                    let want = (*want).as_ref().map_err(|e| e.clone())?;
                    let (reads, own) = make(i, slow)?;
                    // long scripts: fewer kinds of reads
                    let kinds: Vec<usize> = if lens.iter().sum::<usize>() >= 4 {
                        [0, 1, own].iter().copied().filter(|k| *k < reads.len()).collect()
                    } else {
                        (0..reads.len()).collect()
                    };
                    let scripts: Vec<Vec<usize>> =
                        lens.iter().map(|n| (0..*n).map(|_| *ctx.pick(&kinds)).collect()).collect();
                    ctx.log(|| format!("reads by thread: {:?}; those from {} on are of another model", scripts, own));
                    let reads = Arc::new(Shared(reads));
                    let got = run_scripts(ctx, &scripts, &reads, bound)?;
                    for (t, g) in got.iter().enumerate() {
                        expect_eq("reads that returned", g.len(), scripts[t].len())?;
                        for (k, g) in g.iter().enumerate() {
                            let r = scripts[t][k];
                            let g = g.as_ref().map_err(|e| format!("{}: thread {}, read {} of {:?}: {}", name, t, k, scripts, e))?;
                            expect_vec(&format!("{}: thread {}, read {} of {:?}, against a single thread", name, t, k, scripts), g, &want[r])?;
                            ctx.state_here((r, bits(g)));
                        }
                    }
                    let p = unsafe { mc_points() };
                    if slow && p > 0 {
                        ctx.witness("executions with scheduling points in callbacks");
                    }
                    if !slow {
                        // the evidence that calls of this library are atomic
                        ctx.witness(if p == 0 {
                            "executions without a synchronisation or static access inside a library call"
                        } else {
                            "executions with synchronisation or static accesses inside library calls"
                        });
                    }
                    Ok(())
                })
                .isolated(),
            );
        }
    }
    out
}
