//! Every model of the crate behind one interface, with user-supplied parts
//! (kernels, mean functions, initializers, distributions, search structures,
//! criteria, optimisers, layers) that fail when the plan says so.
use crate::util::*;
use dst::prng::Prng;
use dst::sched::call_point;
use std::cell::{Cell, RefCell};
use dst::{Act, Ctx};
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::glm::{self, GenLinearModel};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{self as nb, NaiveBayes};
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion as NetCriterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn::{Sigmoid, Tanh};
use rusty_machine::learning::toolkit::kernel::{self, Kernel};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice, Vector};

// ---------------------------------------------------------------- user parts

thread_local! {
    /// What a user-supplied part does in the library while it is called, and
    /// in which call it does.
    static WITHIN: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    static WHEN: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// Have the user-supplied part called after `at` calls by this thread do `f`.
pub fn within(at: u64, f: Box<dyn FnOnce()>) {
    WHEN.with(|w| w.set(at));
    WITHIN.with(|w| *w.borrow_mut() = Some(f));
}
/// Calls left until it does.
pub fn within_left() -> u64 {
    WHEN.with(|w| w.get())
}
/// What it did not get to do.
pub fn within_off() {
    WHEN.with(|w| w.set(u64::MAX));
    WITHIN.with(|w| w.borrow_mut().take());
}
/// A call of a user-supplied part.
pub fn user_point() -> Option<Act> {
    let left = WHEN.with(|w| w.get());
    if left != u64::MAX {
        if left == 0 {
            WHEN.with(|w| w.set(u64::MAX));
            let f = WITHIN.with(|w| w.borrow_mut().take());
            if let Some(f) = f {
                dst::nested(f);
            }
        } else {
            WHEN.with(|w| w.set(left - 1));
        }
    }
    call_point()
}

/// A failing call: panic is raised by the simulator, the rest is returned.
fn odd(x: f64) -> f64 {
    match user_point() {
        Some(Act::Nan) => f64::NAN,
        Some(Act::Inf) => f64::INFINITY,
        _ => x,
    }
}
fn err_or<T>(f: impl FnOnce() -> LearningResult<T>) -> LearningResult<T> {
    match user_point() {
        Some(Act::Err) => Err(Error::new(ErrorKind::InvalidState, "user-supplied part failed")),
        _ => f(),
    }
}

#[derive(Debug, Clone, Copy)]
pub struct FKer<K>(pub K);
impl<K: Kernel> Kernel for FKer<K> {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        odd(self.0.kernel(a, b))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct FMean(pub f64);
impl MeanFunc for FMean {
    fn func(&self, x: Matrix<f64>) -> Vector<f64> {
        let s = odd(self.0);
        Vector::new((0..x.rows()).map(|i| s * x.data()[i * x.cols()]).collect::<Vec<_>>())
    }
}

/// Starts from every second row, shifted a bit.
#[derive(Debug, Clone, Copy)]
pub struct FInit(pub f64);
impl Initializer for FInit {
    fn init_centroids(&self, k: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        match user_point() {
            Some(Act::Err) => Err(Error::new(ErrorKind::InvalidState, "initializer failed")),
            // wrong shapes
            Some(Act::Nan) => Ok(Matrix::zeros(k + 1, x.cols())),
            Some(Act::Inf) => Ok(Matrix::zeros(k, x.cols() + 1)),
            _ => Ok(Matrix::from_fn(k, x.cols(), |j, i| x.data()[(i * 2 % x.rows()) * x.cols() + j] + self.0 * i as f64)),
        }
    }
}

/// A nearest-mean class distribution.
#[derive(Debug)]
pub struct FDist {
    means: Vec<Option<Vec<f64>>>,
}
impl nb::Distribution for FDist {
    fn from_model_params(class_count: usize, _: usize) -> FDist {
        user_point();
        FDist { means: vec![None; class_count] }
    }
    fn update_params(&mut self, data: &Matrix<f64>, class: usize) -> LearningResult<()> {
        err_or(|| {
            let n = data.rows() as f64;
            self.means[class] = Some((0..data.cols()).map(|j| (0..data.rows()).map(|i| data.data()[i * data.cols() + j]).sum::<f64>() / n).collect());
            Ok(())
        })
    }
    fn joint_log_lik(&self, data: &Matrix<f64>, prior: &[f64]) -> LearningResult<Matrix<f64>> {
        err_or(|| {
            let mut out = Vec::new();
            for i in 0..data.rows() {
                for (c, p) in prior.iter().enumerate() {
                    let d = match &self.means.get(c) {
                        Some(Some(m)) => (0..data.cols()).map(|j| (data.data()[i * data.cols() + j] - m.get(j).cloned().unwrap_or(0.0)).powi(2)).sum(),
                        _ => 1e9,
                    };
                    out.push(p.ln() - d);
                }
            }
            Ok(Matrix::new(data.rows(), prior.len(), out))
        })
    }
}

#[derive(Debug, Default)]
pub struct FSearch {
    inner: BruteForce,
}
impl KNearestSearch for FSearch {
    fn build(&mut self, data: Matrix<f64>) {
        user_point();
        self.inner.build(data)
    }
    fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
        err_or(|| self.inner.search(point, k))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct FCrit<C>(pub C);
impl<C: glm::Criterion> glm::Criterion for FCrit<C> {
    type Link = C::Link;
    fn model_variance(&self, mu: f64) -> f64 {
        self.0.model_variance(mu)
    }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
        user_point();
        self.0.initialize_mu(y)
    }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
        let mut v = self.0.compute_working_weight(mu);
        if let Some(x) = v.get_mut(0) {
            *x = odd(*x);
        }
        v
    }
    fn compute_y_bar(&self, y: &[f64], mu: &[f64]) -> Vec<f64> {
        let mut v = self.0.compute_y_bar(y, mu);
        if let Some(x) = v.get_mut(0) {
            *x = odd(*x);
        }
        v
    }
}

/// Any optimiser, failing before or after its work.
#[derive(Debug, Clone, Copy)]
pub struct FAlg<A>(pub A);
impl<M: Optimizable, A: OptimAlgorithm<M>> OptimAlgorithm<M> for FAlg<A> {
    fn optimize(&self, model: &M, start: &[f64], x: &M::Inputs, y: &M::Targets) -> Vec<f64> {
        user_point();
        let w = self.0.optimize(model, start, x, y);
        user_point();
        w
    }
}

#[derive(Debug, Clone, Copy)]
pub struct FCost<C>(pub C);
impl<C: NetCriterion> NetCriterion for FCost<C> {
    type Cost = C::Cost;
    fn cost(&self, o: &Matrix<f64>, t: &Matrix<f64>) -> f64 {
        odd(self.0.cost(o, t))
    }
    fn cost_grad(&self, o: &Matrix<f64>, t: &Matrix<f64>) -> Matrix<f64> {
        user_point();
        self.0.cost_grad(o, t)
    }
    fn regularization(&self) -> Regularization<f64> {
        self.0.regularization()
    }
}

#[derive(Debug, Clone, Copy)]
pub struct FLayer(pub Linear);
impl NetLayer for FLayer {
    fn forward(&self, input: &Matrix<f64>, params: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        err_or(|| self.0.forward(input, params))
    }
    fn back_input(&self, g: &Matrix<f64>, i: &Matrix<f64>, o: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        user_point();
        self.0.back_input(g, i, o, p)
    }
    fn back_params(&self, g: &Matrix<f64>, i: &Matrix<f64>, o: &Matrix<f64>, p: MatrixSlice<f64>) -> Matrix<f64> {
        user_point();
        self.0.back_params(g, i, o, p)
    }
    fn default_params(&self) -> Vec<f64> {
        self.0.default_params()
    }
    fn param_shape(&self) -> (usize, usize) {
        self.0.param_shape()
    }
}

// ---------------------------------------------------------------------- data

#[derive(Clone, Debug)]
pub struct Data {
    pub x: Matrix<f64>,
    pub y: Vector<f64>,
    /// one-hot classes
    pub ym: Matrix<f64>,
    pub yc: Vector<usize>,
    pub style: &'static str,
    pub good: bool,
}

pub const COUNTS: &[&str] = &["counts"];

/// Training data of `d` columns fit for `kind`; bad data when asked for.
pub fn gen_data(c: &mut Ctx, kind: Kind, bad: bool) -> Data {
    let n = match c.below(4) {
        0 => c.urange(6, 9),
        1 | 2 => c.urange(8, 16),
        _ => c.urange(12, 40),
    };
    let n = if c.chance(1, 40) { c.urange(60, 150) } else { n };
    // (the singular value decomposition of rulinalg hardly ends on many equal columns)
    let d = match kind {
        Kind::Net => c.urange(1, 3),
        Kind::Pca => c.urange(1, 4),
        _ => width(c, 4),
    };
    // many columns need many rows
    let n = if d > 4 { n.max(4 * d) } else { n };
    let classes = c.urange(2, 3);
    let mut b = c.bulk();
    make_data(n, d, classes, if bad { 1 + c.below(BAD.len() as u64 - 1) as usize } else { 0 }, &mut b, kind)
}

pub const BAD: [&str; 11] = ["good", "nan", "infinite", "one row", "equal columns", "constant column", "target count", "equal rows", "classless row", "lonely class", "huge"];

pub fn make_data(n: usize, d: usize, classes: usize, bad: usize, b: &mut Prng, kind: Kind) -> Data {
    let style = BAD[bad];
    let n = if style == "one row" { 1 } else { n };
    let counts = matches!(kind, Kind::NbMulti | Kind::NbBern);
    let wide = kind == Kind::Pca && b.below(4) == 0;
    let (n, d) = if wide { (d.max(2), n.min(8)) } else { (n, d) };
    let mut x: Vec<f64> = Vec::new();
    for i in 0..n {
        let cl = i % classes;
        for j in 0..d {
            x.push(if kind == Kind::NbBern {
                (b.below(10) < [3, 7, 5][(cl + j) % 3]) as u64 as f64
            } else if counts {
                b.below(4 + 3 * ((cl + j) % 3) as u64) as f64
            } else {
                b.normal() + 2.5 * cl as f64 * if j % 2 == 0 { 1.0 } else { -1.0 }
            });
        }
    }
    let mut m = n;
    match style {
        "nan" => x[b.below((n * d) as u64) as usize] = f64::NAN,
        "infinite" => x[b.below((n * d) as u64) as usize] = f64::INFINITY,
        "equal columns" => for i in 0..n { for j in 1..d { x[i * d + j] = x[i * d] } },
        "constant column" => for i in 0..n { x[i * d + d - 1] = 2.0 },
        "equal rows" => for i in 1..n { for j in 0..d { x[i * d + j] = x[j] } },
        "target count" => m = if b.below(2) == 0 { n + 1 } else { n - 1 },
        "huge" => for v in x.iter_mut() { *v *= 1e200 },
        _ => {}
    }
    let mut yc: Vec<usize> = (0..m).map(|i| i % classes).collect();
    if style == "lonely class" {
        for (i, y) in yc.iter_mut().enumerate() {
            *y = (i == 0) as usize;
        }
    }
    let mut ym = vec![0.0; m * classes];
    for (i, k) in yc.iter().enumerate() {
        ym[i * classes + k] = 1.0;
    }
    if style == "classless row" {
        let i = b.below(m as u64) as usize;
        for j in 0..classes {
            ym[i * classes + j] = 0.0;
        }
    }
    let y: Vec<f64> = match kind {
        Kind::Svm => yc.iter().map(|k| if *k == 0 { -1.0 } else { 1.0 }).collect(),
        Kind::Logistic | Kind::GlmBern => yc.iter().map(|k| if b.below(6) == 0 { 0.5 } else { (*k > 0) as u64 as f64 }).collect(),
        Kind::GlmPoisson => yc.iter().map(|k| (1 + k + b.below(4) as usize) as f64).collect(),
        _ => yc.iter().map(|k| *k as f64 + b.normal()).collect(),
    };
    Data { x: Matrix::new(n, d, x), y: Vector::new(y), ym: Matrix::new(m, classes, ym), yc: Vector::new(yc), style, good: bad == 0 }
}

/// Good data that resembles good data seen before: of one shape, and with
/// some of its numbers.
pub fn resembling(c: &mut Ctx, old: &Data, kind: Kind) -> Data {
    let (n, d, classes) = (old.x.rows(), old.x.cols(), old.ym.cols());
    let mut b = c.bulk();
    let new = make_data(n, d, classes, 0, &mut b, kind);
    if new.x.rows() != n || new.x.cols() != d {
        return old.clone();
    }
    let mut r = old.clone();
    let targets = |r: &mut Data, i: usize| {
        r.y[i] = new.y[i];
        for j in 0..classes {
            r.ym[[i, j]] = new.ym[[i, j]];
        }
        r.yc[i] = new.yc[i];
    };
    r.style = match b.below(6) {
        0 => {
            r.x = new.x.clone();
            "the same targets"
        }
        1 => {
            (0..n).for_each(|i| targets(&mut r, i));
            "the same inputs"
        }
        2 => {
            let i = b.below(n as u64) as usize;
            for j in 0..d {
                r.x[[i, j]] = new.x[[i, j]];
            }
            targets(&mut r, i);
            "all but one row the same"
        }
        3 => {
            // the first rows, or the last
            let k = 1 + b.below(n.max(2) as u64 - 1) as usize;
            let first = b.below(2) == 0;
            for i in 0..n {
                if (i < k) == first {
                    for j in 0..d {
                        r.x[[i, j]] = new.x[[i, j]];
                    }
                    targets(&mut r, i);
                }
            }
            "some rows the same"
        }
        4 => {
            let (i, j) = (b.below(n as u64) as usize, b.below(d as u64) as usize);
            r.x[[i, j]] = new.x[[i, j]];
            "all but one number the same"
        }
        _ => {
            // two rows of one class for each other
            for i in 0..n {
                let k = (i + classes) % n;
                if k % classes == i % classes && b.below(3) == 0 {
                    for j in 0..d {
                        let t = r.x[[i, j]];
                        r.x[[i, j]] = r.x[[k, j]];
                        r.x[[k, j]] = t;
                    }
                }
            }
            "the same rows in another order"
        }
    };
    r
}

// -------------------------------------------------------------------- models

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    KmForgy,
    KmPart,
    KmPlus,
    KmUser,
    Gmm,
    GmmWeights,
    NbGauss,
    NbBern,
    NbMulti,
    NbUser,
    Pca,
    Gp,
    Svm,
    Lin,
    LinOpt,
    Logistic,
    GlmNormal,
    GlmBern,
    GlmPoisson,
    KnnKd,
    KnnBall,
    KnnBrute,
    KnnUser,
    Dbscan,
    Net,
}
use Kind::*;
pub const KINDS: [Kind; 25] = [
    KmForgy, KmPart, KmPlus, KmUser, Gmm, GmmWeights, NbGauss, NbBern, NbMulti, NbUser, Pca, Gp, Svm, Lin, LinOpt, Logistic, GlmNormal,
    GlmBern, GlmPoisson, KnnKd, KnnBall, KnnBrute, KnnUser, Dbscan, Net,
];

/// How a model is constructed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec {
    pub kind: Kind,
    pub a: u64,
    pub b: u64,
    /// input and output width, for networks only
    pub d: usize,
    pub t: usize,
}

pub fn gen_spec(c: &mut Ctx, kind: Kind) -> Spec {
    Spec { kind, a: c.below(12), b: c.below(12), d: 0, t: 0 }
}

pub trait Machine {
    fn train(&mut self, d: &Data) -> LearningResult<()>;
    /// Number of answers, and the answers.
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)>;
    /// What the model reports about what it learned.
    fn learned(&self) -> Vec<f64> {
        Vec::new()
    }
    /// Other questions it answers.
    fn more(&self, _: &Matrix<f64>) -> LearningResult<Vec<f64>> {
        Ok(Vec::new())
    }
    /// Turn a knob of the configuration.
    fn tune(&mut self, _: u64) {}
}

fn vec_out(r: LearningResult<Vector<f64>>) -> LearningResult<(usize, Vec<f64>)> {
    r.map(|v| (v.size(), v.into_vec()))
}
fn mat_out(r: LearningResult<Matrix<f64>>) -> LearningResult<(usize, Vec<f64>)> {
    r.map(|m| (m.rows(), m.into_vec()))
}
fn class_out(r: LearningResult<Vector<usize>>) -> LearningResult<(usize, Vec<f64>)> {
    r.map(|v| (v.size(), v.into_vec().into_iter().map(|k| k as f64).collect()))
}

struct Km<I: Initializer>(KMeansClassifier<I>);
impl<I: Initializer> Machine for Km<I> {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        class_out(self.0.predict(x))
    }
    fn learned(&self) -> Vec<f64> {
        self.0.centroids().as_ref().map(|m| m.data().clone()).unwrap_or_default()
    }
    fn tune(&mut self, k: u64) {
        self.0.set_iters(1 + k as usize * 3)
    }
}

struct GmmM(GaussianMixtureModel);
impl Machine for GmmM {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        mat_out(self.0.predict(x))
    }
    fn learned(&self) -> Vec<f64> {
        let mut v = self.0.mixture_weights().data().clone();
        if let Some(m) = self.0.means() {
            v.extend(m.data());
        }
        for m in self.0.covariances().into_iter().flatten() {
            v.extend(m.data());
        }
        v
    }
    fn tune(&mut self, k: u64) {
        if k < 6 {
            self.0.set_max_iters(1 + k as usize * 2)
        } else {
            self.0.cov_option = [CovOption::Full, CovOption::Regularized(0.5), CovOption::Diagonal][k as usize % 3]
        }
    }
}

trait Tell: nb::Distribution {
    fn tell(&self) -> Vec<f64>;
}
impl Tell for nb::Gaussian {
    fn tell(&self) -> Vec<f64> {
        [self.theta().data().clone(), self.sigma().data().clone()].concat()
    }
}
impl Tell for nb::Bernoulli {
    fn tell(&self) -> Vec<f64> {
        self.log_probs().data().clone()
    }
}
impl Tell for nb::Multinomial {
    fn tell(&self) -> Vec<f64> {
        self.log_probs().data().clone()
    }
}
impl Tell for FDist {
    fn tell(&self) -> Vec<f64> {
        self.means.iter().flatten().flatten().cloned().collect()
    }
}

struct NbM<T: Tell>(NaiveBayes<T>);
impl<T: Tell> Machine for NbM<T> {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x, &d.ym)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        mat_out(self.0.predict(x))
    }
    fn learned(&self) -> Vec<f64> {
        let mut v = self.0.class_prior().cloned().unwrap_or_default();
        v.extend(self.0.cluster_count().map(|c| *c as f64));
        v.extend(self.0.distr().map(|d| d.tell()).unwrap_or_default());
        v
    }
    fn more(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> {
        self.0.get_log_probs(x).map(|m| m.into_vec())
    }
}

struct PcaM(PCA);
impl Machine for PcaM {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        mat_out(self.0.predict(x))
    }
    fn learned(&self) -> Vec<f64> {
        self.0.components().map(|m| m.data().clone()).unwrap_or_default()
    }
}

struct GpM<K: Kernel, U: MeanFunc>(GaussianProcess<K, U>);
impl<K: Kernel, U: MeanFunc> Machine for GpM<K, U> {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x, &d.y)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        vec_out(self.0.predict(x))
    }
    fn more(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> {
        self.0.get_posterior(x).map(|(m, v)| [m.into_vec(), v.into_vec()].concat())
    }
    fn tune(&mut self, k: u64) {
        self.0.noise = 0.1 + k as f64 * 0.2
    }
}

struct SvmM<K: Kernel>(SVM<K>);
impl<K: Kernel> Machine for SvmM<K> {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x, &d.y)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        vec_out(self.0.predict(x))
    }
    fn tune(&mut self, k: u64) {
        self.0.optim_iters = 1 + 4 * k as usize
    }
}

struct LinM(LinRegressor, bool);
impl Machine for LinM {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        if self.1 {
            self.0.train_with_optimization(&d.x, &d.y);
            Ok(())
        } else {
            self.0.train(&d.x, &d.y)
        }
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        vec_out(self.0.predict(x))
    }
    fn learned(&self) -> Vec<f64> {
        self.0.parameters().map(|p| p.data().clone()).unwrap_or_default()
    }
}

macro_rules! sup_vec {
    ($name:ident, $bound:ident $(<$arg:ty>)?, $model:ident, |$s:ident| $learned:expr) => {
        struct $name<A: $bound$(<$arg>)?>($model<A>);
        impl<A: $bound$(<$arg>)?> Machine for $name<A> {
            fn train(&mut self, d: &Data) -> LearningResult<()> {
                self.0.train(&d.x, &d.y)
            }
            fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
                vec_out(self.0.predict(x))
            }
            fn learned(&self) -> Vec<f64> {
                let $s = &self.0;
                $learned
            }
        }
    };
}
use glm::Criterion as GlmCriterion;
use rusty_machine::learning::logistic_reg::BaseLogisticRegressor;
sup_vec!(GlmM, GlmCriterion, GenLinearModel, |_m| Vec::new());
sup_vec!(LogM, OptimAlgorithm<BaseLogisticRegressor>, LogisticRegressor, |m| m.parameters().map(|p| p.data().clone()).unwrap_or_default());

struct KnnM<S: KNearestSearch>(KNNClassifier<S>);
impl<S: KNearestSearch> Machine for KnnM<S> {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x, &d.yc)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        class_out(self.0.predict(x))
    }
}

struct DbM(DBSCAN);
impl Machine for DbM {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        self.0.predict(x).map(|v| (v.size(), v.into_vec().into_iter().map(|k| k.map(|k| k as f64).unwrap_or(-1.0)).collect()))
    }
    fn learned(&self) -> Vec<f64> {
        self.0.clusters().map(|v| v.data().iter().map(|k| k.map(|k| k as f64).unwrap_or(-1.0)).collect()).unwrap_or_default()
    }
    fn tune(&mut self, k: u64) {
        self.0.set_predictive(k % 3 > 0)
    }
}

struct NetM<C: NetCriterion, A: OptimAlgorithm<BaseNeuralNet<C>>>(NeuralNet<C, A>, usize);
impl<C: NetCriterion, A: OptimAlgorithm<BaseNeuralNet<C>>> Machine for NetM<C, A> {
    fn train(&mut self, d: &Data) -> LearningResult<()> {
        self.0.train(&d.x, &d.ym)
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<(usize, Vec<f64>)> {
        mat_out(self.0.predict(x))
    }
    fn learned(&self) -> Vec<f64> {
        let mut v = Vec::new();
        for i in 0..self.1 {
            let s = self.0.get_net_weights(i);
            for r in 0..s.rows() {
                for j in 0..s.cols() {
                    v.push(s[[r, j]]);
                }
            }
        }
        v
    }
}

fn net<C, A>(s: &Spec, crit: C, alg: A) -> Box<dyn Machine>
where
    C: NetCriterion + Copy + 'static,
    A: OptimAlgorithm<BaseNeuralNet<FCost<C>>> + 'static,
{
    let h = 1 + s.b as usize % 3;
    let mut n = NeuralNet::new(FCost(crit), FAlg(alg));
    let layers = if s.b % 4 == 0 {
        n.add(Box::new(FLayer(Linear::new(s.d, s.t)))).add(Box::new(Sigmoid));
        2
    } else {
        n.add(Box::new(FLayer(Linear::new(s.d, h)))).add(Box::new(Tanh)).add(Box::new(Linear::without_bias(h, s.t))).add(Box::new(Sigmoid));
        4
    };
    Box::new(NetM(n, layers))
}

/// Construct a model: afresh every time, the same from the same spec.
pub fn build(s: &Spec) -> Box<dyn Machine> {
    // one, two or three clusters, components or neighbours
    let k = if s.a % 5 == 4 { 1 } else { 2 + s.a as usize % 2 };
    let iters = [1, 2, 3, 30][s.b as usize % 4];
    let v = 0.1 * (s.b / 3) as f64;
    match s.kind {
        KmForgy => Box::new(Km(KMeansClassifier::new_specified(k, iters, Forgy))),
        KmPart => Box::new(Km(KMeansClassifier::new_specified(k, iters, RandomPartition))),
        KmPlus => {
            if s.b % 3 == 0 {
                Box::new(Km(KMeansClassifier::new(k)))
            } else {
                Box::new(Km(KMeansClassifier::new_specified(k, iters, KPlusPlus)))
            }
        }
        KmUser => Box::new(Km(KMeansClassifier::new_specified(k, iters, FInit(s.a as f64 * 0.2)))),
        Gmm | GmmWeights => {
            let mut g = if s.kind == Gmm {
                GaussianMixtureModel::new(k)
            } else {
                GaussianMixtureModel::with_weights(k, Vector::new((0..k).map(|i| 1.0 + (i as f64) * (1.0 + s.a as f64)).collect::<Vec<_>>())).expect("weights")
            };
            g.set_max_iters([1, 2, 5, 12][s.b as usize % 4]);
            g.cov_option = [CovOption::Regularized(0.5), CovOption::Full, CovOption::Diagonal][s.a as usize / 2 % 3];
            Box::new(GmmM(g))
        }
        NbGauss => Box::new(NbM(NaiveBayes::<nb::Gaussian>::new())),
        NbBern => Box::new(NbM(NaiveBayes::<nb::Bernoulli>::new())),
        NbMulti => Box::new(NbM(NaiveBayes::<nb::Multinomial>::new())),
        NbUser => Box::new(NbM(NaiveBayes::<FDist>::new())),
        Pca => Box::new(PcaM(match s.a % 5 {
            0 => PCA::default(),
            1 => PCA::new(1, true),
            2 => PCA::new(2, true),
            3 => PCA::new(1, false),
            _ => PCA::new(2, false),
        })),
        Gp => match s.a % 6 {
            3 => Box::new(GpM(GaussianProcess::new(FKer(kernel::KernelArith(kernel::RationalQuadratic::new(1.2, 0.9 + v)) * kernel::KernelArith(kernel::SquaredExp::new(1.5, 1.0 + v))), FMean(0.1), 0.6))),
            4 => Box::new(GpM(GaussianProcess::new(kernel::RationalQuadratic::new(1.0 + v, 1.0), ConstMean::default(), 0.8))),
            5 => Box::new(GpM(GaussianProcess::new(FKer(kernel::KernelArith(kernel::Linear::new(0.5 + v)) + kernel::KernelArith(kernel::Exponential::new(0.8 + v, 1.0))), FMean(0.4), 0.9))),
            0 => Box::new(GpM(GaussianProcess::new(FKer(kernel::SquaredExp::new(0.7 + v, 1.1)), FMean(0.3), 0.5))),
            1 => Box::new(GpM(GaussianProcess::new(kernel::Exponential::new(0.8 + v, 1.0), FMean(-0.2), 0.7))),
            _ => Box::new(GpM(GaussianProcess::new(FKer(kernel::SquaredExp::default()), ConstMean::default(), 1.0))),
        },
        Svm => match s.a % 6 {
            3 => Box::new(SvmM(SVM::new(kernel::Polynomial::new(0.5 + v, 1.0, 2.0), 0.3))),
            4 => Box::new(SvmM(SVM::new(FKer(kernel::KernelArith(kernel::HyperTan::new(0.3 + v, 0.1)) + kernel::KernelArith(kernel::Multiquadric::new(0.7 + v))), 0.5))),
            5 => Box::new(SvmM(SVM::new(kernel::RationalQuadratic::new(1.5, 0.8 + v), 0.3))),
            0 => Box::new(SvmM(SVM::<kernel::SquaredExp>::default())),
            1 => Box::new(SvmM(SVM::new(FKer(kernel::Linear::new(0.5 + v)), 0.4))),
            _ => {
                let mut m = SVM::new(FKer(kernel::SquaredExp::new(0.9 + v, 1.0)), 0.2);
                m.optim_iters = 20;
                Box::new(SvmM(m))
            }
        },
        Lin => Box::new(LinM(LinRegressor::default(), false)),
        LinOpt => Box::new(LinM(LinRegressor::default(), true)),
        Logistic => match s.a % 4 {
            0 => Box::new(LogM(LogisticRegressor::<GradientDesc>::default())),
            1 => Box::new(LogM(LogisticRegressor::new(FAlg(ConjugateGD { iters: 10, ..ConjugateGD::default() })))),
            2 => Box::new(LogM(LogisticRegressor::new(ConjugateGD { iters: 5, ..ConjugateGD::default() }))),
            _ => Box::new(LogM(LogisticRegressor::new(FAlg(GradientDesc::new(0.1 + v, 20))))),
        },
        GlmNormal => Box::new(GlmM(GenLinearModel::new(FCrit(glm::Normal)))),
        GlmBern => Box::new(GlmM(GenLinearModel::new(FCrit(glm::Bernoulli)))),
        GlmPoisson => Box::new(GlmM(GenLinearModel::new(FCrit(glm::Poisson)))),
        KnnKd => {
            if s.a % 3 == 0 {
                Box::new(KnnM(KNNClassifier::new_specified(k, KDTree::new(3 + s.b as usize))))
            } else {
                Box::new(KnnM(KNNClassifier::<KDTree>::new(k + 1)))
            }
        }
        KnnBall => Box::new(KnnM(KNNClassifier::new_specified(k, BallTree::new(3 + s.b as usize)))),
        KnnBrute => Box::new(KnnM(KNNClassifier::new_specified(k + 1, BruteForce::new()))),
        KnnUser => Box::new(KnnM(KNNClassifier::new_specified(k, FSearch::default()))),
        Dbscan => {
            let mut m = if s.a % 4 == 0 { DBSCAN::default() } else { DBSCAN::new(0.4 + 0.25 * s.a as f64, 2 + s.b as usize % 3) };
            m.set_predictive(s.b % 3 > 0);
            Box::new(DbM(m))
        }
        Net => match s.a % 5 {
            0 => net(s, BCECriterion::default(), StochasticGD::new(0.1 + v, 0.3, 2)),
            1 => net(s, MSECriterion::default(), AdaGrad::new(0.5, 1.0 + v, 2)),
            2 => net(s, MSECriterion::new(Regularization::L2(0.1 + v)), RMSProp::new(0.05 + v, 0.9 - v, 1e-5, 2)),
            3 => net(s, BCECriterion::new(Regularization::L1(0.1 + v)), GradientDesc::new(0.2 + v, 5)),
            _ => net(s, MSECriterion::default(), ConjugateGD { iters: 3, ..ConjugateGD::default() }),
        },
    }
}

/// The failures the user-supplied parts of a kind of model can act out.
pub fn acts(k: Kind) -> &'static [Act] {
    match k {
        KmUser => &[Act::Panic, Act::Err, Act::Nan, Act::Inf],
        NbUser => &[Act::Panic, Act::Err],
        Gp | Svm | GlmNormal | GlmBern | GlmPoisson => &[Act::Panic, Act::Panic, Act::Nan, Act::Inf],
        Net => &[Act::Panic, Act::Panic, Act::Err, Act::Nan],
        _ => &[Act::Panic],
    }
}

/// What came of asking a model.
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Ok(usize, Vec<u64>),
    Err(String, String),
    Panic(String),
}
impl Answer {
    pub fn brief(&self) -> String {
        match self {
            Answer::Ok(n, v) => format!("{} answers {}", n, brief(&v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>())),
            Answer::Err(k, m) => format!("error {} ({})", k, m),
            Answer::Panic(m) => format!("panic ({})", m),
        }
    }
    pub fn hash(&self) -> u64 {
        dst::prng::hash_str(&format!("{:?}", self))
    }
}

pub fn ask(m: &dyn Machine, x: &Matrix<f64>) -> Answer {
    answer(|| m.predict(x).map(|(n, v)| (n, bits(&v))))
}
pub fn ask_more(m: &dyn Machine, x: &Matrix<f64>) -> Answer {
    answer(|| m.more(x).map(|v| (0, bits(&v))))
}
fn answer(f: impl FnOnce() -> LearningResult<(usize, Vec<u64>)>) -> Answer {
    let plan = dst::Plan::new(dst::Stream::plain(77));
    match dst::step(&plan, f).res {
        Ok(Ok((n, v))) => Answer::Ok(n, v),
        Ok(Err(e)) => {
            let (k, m) = err_key(&e);
            Answer::Err(k, m)
        }
        Err(e) => Answer::Panic(caught(&e)),
    }
}
