//! Every optimiser behind one object-safe interface, with its published
//! recurrence as an independent per-coordinate model.
use lfa::optim::*;
use lfa::{Error, Features, Result};
use ndarray::ArrayViewMut1;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

pub trait DynOpt {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features) -> Result<()>;
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, s: f64) -> Result<()>;
    fn reset(&mut self);
    fn dup(&self) -> Opt;
    /// `clone_from`; false if the other one is of another type.
    fn assign(&mut self, o: &dyn DynOpt) -> bool;
    fn same(&self, o: &dyn DynOpt) -> bool;
    fn any(&self) -> &dyn Any;
    fn show(&self) -> String;
}

struct Wrap<O>(O);

impl<O: Optimiser<Features> + Clone + PartialEq + std::fmt::Debug + 'static> DynOpt for Wrap<O> {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features) -> Result<()> {
        self.0.step(w, f)
    }
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, s: f64) -> Result<()> {
        self.0.step_scaled(w, f, s)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn dup(&self) -> Opt {
        Opt(Box::new(Wrap(self.0.clone())))
    }
    fn assign(&mut self, o: &dyn DynOpt) -> bool {
        o.any().downcast_ref::<O>().map(|o| self.0.clone_from(o)).is_some()
    }
    fn same(&self, o: &dyn DynOpt) -> bool {
        o.any().downcast_ref::<O>().map_or(false, |o| self.0 == *o && *o == self.0)
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
}

pub struct Opt(pub Box<dyn DynOpt>);

impl Clone for Opt {
    fn clone(&self) -> Opt {
        self.0.dup()
    }
    fn clone_from(&mut self, o: &Opt) {
        if !self.0.assign(&*o.0) {
            *self = o.0.dup()
        }
    }
}

impl Opt {
    pub fn of<O: Optimiser<Features> + Clone + PartialEq + std::fmt::Debug + 'static>(o: O) -> Opt {
        Opt(Box::new(Wrap(o)))
    }
    pub fn same(&self, o: &Opt) -> bool {
        self.0.same(&*o.0)
    }
}

impl Optimiser<Features> for Opt {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features) -> Result<()> {
        self.0.step(w, f)
    }
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, s: f64) -> Result<()> {
        self.0.step_scaled(w, f, s)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spec {
    Sgd(f64),
    Isgd(f64),
    Mom(f64, f64),
    Nag(f64, f64),
    Adagrad(f64),
    Adam(f64, f64, f64),
    AdaMax(f64, f64, f64),
}
use Spec::*;

impl Spec {
    pub fn name(&self) -> &'static str {
        match self {
            Sgd(_) => "SGD",
            Isgd(_) => "ISGD",
            Mom(..) => "SGDMomentum",
            Nag(..) => "NAG",
            Adagrad(_) => "Adagrad",
            Adam(..) => "Adam",
            AdaMax(..) => "AdaMax",
        }
    }

    pub fn build(&self, n: usize) -> Opt {
        fn w<O: Optimiser<Features> + Clone + PartialEq + std::fmt::Debug + 'static>(o: O) -> Opt {
            Opt(Box::new(Wrap(o)))
        }
        match *self {
            Sgd(a) => w(SGD(a)),
            Isgd(a) => w(ISGD(a)),
            Mom(m, lr) => w(SGDMomentum::new(n, m, lr)),
            Nag(m, lr) => w(NAG::new(n, m, lr)),
            Spec::Adagrad(lr) => w(lfa::optim::Adagrad::new(n, lr)),
            Spec::Adam(lr, a, b) => w(lfa::optim::Adam::new(n, lr, a, b)),
            Spec::AdaMax(lr, a, b) => w(lfa::optim::AdaMax::new(n, lr, a, b)),
        }
    }

    pub fn stateful(&self) -> bool {
        !matches!(self, Sgd(_) | Isgd(_))
    }

    /// Sparse steps leave absent coordinates alone except for decay.
    pub fn lazy(&self) -> bool {
        matches!(self, Spec::Adam(..) | Spec::AdaMax(..))
    }

    pub fn model(&self, n: usize) -> Model {
        Model { spec: *self, a: vec![0.0; n], b: vec![0.0; n], k: 0 }
    }
}

/// One hyper-parameter set of each optimiser.
pub fn specs() -> Vec<Spec> {
    vec![
        Sgd(0.1),
        Isgd(0.5),
        Mom(0.9, 0.1),
        Nag(0.9, 0.1),
        Spec::Adagrad(0.5),
        Spec::Adam(0.1, 0.9, 0.999),
        Spec::AdaMax(0.1, 0.9, 0.999),
    ]
}

pub fn all_specs(t: bool) -> Vec<Spec> {
    let mut v = specs();
    v.extend(vec![
        Sgd(1.0),
        Sgd(0.0),
        Isgd(4.0),
        Isgd(100.0),
        Mom(0.0, 0.5),
        Mom(0.5, 1.0),
        Nag(0.0, 0.5),
        Nag(0.5, 1.0),
        Spec::Adagrad(0.01),
        Spec::Adam(0.01, 0.5, 0.75),
        Spec::Adam(0.1, 0.0, 0.9),
        Spec::AdaMax(0.01, 0.5, 0.75),
        Spec::AdaMax(0.1, 0.0, 0.9),
    ]);
    if t {
        v.extend(vec![
            Mom(1.0, 0.01),
            Mom(0.99, 0.001),
            Nag(0.99, 0.001),
            Nag(1.0, 0.01),
            Spec::Adagrad(2.0),
            Spec::Adam(1.0, 0.9, 0.0),
            Spec::Adam(0.001, 0.99, 0.9999),
            Spec::AdaMax(1.0, 0.9, 0.0),
            Spec::AdaMax(0.001, 0.99, 0.9999),
        ]);
    }
    v
}

#[derive(Clone, Debug)]
pub struct Model {
    pub spec: Spec,
    pub a: Vec<f64>,
    pub b: Vec<f64>,
    pub k: i32,
}

const EPS: f64 = 1e-7;

impl Model {
    /// One step; `listed[i]` says whether the feature vector carries an
    /// entry for coordinate `i` (always true for dense vectors).
    pub fn step(&mut self, w: &mut [f64], phi: &[f64], listed: &[bool], s: f64) {
        let n = phi.len();
        self.k += 1;
        let norm: f64 = phi.iter().map(|x| x * x).sum();
        for i in 0..n {
            let g = s * phi[i];
            match self.spec {
                Sgd(lr) => w[i] += lr * g,
                Isgd(lr) => w[i] += lr * g / (1.0 + lr * norm),
                Mom(m, lr) => {
                    self.a[i] = m * self.a[i] + g;
                    w[i] += lr * self.a[i];
                }
                Nag(m, lr) => {
                    self.a[i] = m * self.a[i] + g;
                    w[i] += lr * (m * self.a[i] + g);
                }
                Spec::Adagrad(lr) => {
                    self.a[i] += g * g;
                    w[i] += lr * g / (self.a[i].sqrt() + EPS);
                }
                Spec::Adam(lr, b1, b2) => {
                    if !listed[i] {
                        self.a[i] *= b1;
                        self.b[i] *= b2;
                    } else {
                        self.a[i] = b1 * self.a[i] + (1.0 - b1) * g;
                        self.b[i] = b2 * self.b[i] + (1.0 - b2) * g * g;
                        let m = self.a[i] / (1.0 - b1.powi(self.k));
                        let v = self.b[i] / (1.0 - b2.powi(self.k));
                        w[i] += lr * m / (v.sqrt() + EPS);
                    }
                }
                Spec::AdaMax(lr, b1, b2) => {
                    if !listed[i] {
                        self.a[i] *= b1;
                        self.b[i] *= b2;
                    } else {
                        self.a[i] = b1 * self.a[i] + (1.0 - b1) * g;
                        self.b[i] = (b2 * self.b[i]).max(g.abs());
                        let m = self.a[i] / (1.0 - b1.powi(self.k));
                        w[i] += lr * m / (self.b[i] + EPS);
                    }
                }
            }
        }
    }
}

/// Which coordinates a feature vector carries.
pub fn listed(f: &Features) -> Vec<bool> {
    match f {
        Features::Dense(a) => vec![true; a.len()],
        Features::Sparse(sa) => (0..sa.dim).map(|i| sa.activations.contains_key(&i)).collect(),
    }
}

/// An optimiser that records what it is asked to do, adds `scale * features`
/// to the weights, and fails on chosen calls.
#[derive(Clone, Debug, Default)]
pub struct Recorder {
    pub calls: Rc<RefCell<Vec<(bool, Vec<f64>, f64, Vec<f64>)>>>,
    pub fail_at: Vec<usize>,
    pub resets: Rc<RefCell<usize>>,
}

impl PartialEq for Recorder {
    fn eq(&self, o: &Recorder) -> bool {
        Rc::ptr_eq(&self.calls, &o.calls)
    }
}

impl Recorder {
    pub fn failing(at: Vec<usize>) -> Self {
        Recorder { fail_at: at, ..Default::default() }
    }
    pub fn error(call: usize) -> Error {
        Error::index_error(7000 + call, 0)
    }
}

impl Optimiser<Features> for Recorder {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, s: f64) -> Result<()> {
        let d = crate::util::denote(f).expect("recorder got a malformed feature vector");
        let mut c = self.calls.borrow_mut();
        let k = c.len();
        c.push((crate::util::is_sparse(f), d.clone(), s, w.iter().copied().collect()));
        if self.fail_at.contains(&k) {
            return Err(Recorder::error(k));
        }
        for (w, x) in w.iter_mut().zip(&d) {
            *w += s * x;
        }
        Ok(())
    }
    fn reset(&mut self) {
        *self.resets.borrow_mut() += 1;
    }
}
