//! C32: every call comes back, whatever the data, the failures and the draws.
use crate::lifecycle::{build_tuned, Outcome};
use crate::util::*;
use crate::zoo::{self, acts, Data};
use dst::prng::{hash_str, mix2, Prng};
use dst::{ensure, fail, step, Act, Ctx, Fault, Kind, Op, Plan, SimRng, Stream, Verdict};
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::data::transforms::minmax::MinMaxFitter;
use rusty_machine::data::transforms::standardize::StandardizerFitter;
use rusty_machine::data::transforms::{Invertible, Normalizer, Shuffler, TransformFitter, Transformer};
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{Gaussian, NaiveBayes};
use rusty_machine::learning::nnet::{BCECriterion, NeuralNet};
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn::Sigmoid;
use rusty_machine::learning::toolkit::kernel::Linear;
use rusty_machine::learning::toolkit::rand_utils;
use rusty_machine::learning::{SupModel, UnSupModel};
use rusty_machine::linalg::norm::Euclidean;
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};

/// More than ten times what any call of these sizes takes.
const STEPS: u64 = 100_000_000;

const STYLES: [&str; 18] = [
    "normal", "whole numbers", "equal rows", "two points", "neighbouring floats", "one value per column", "line", "nan", "all nan", "infinite",
    "both infinities", "huge", "tiny", "denormal", "zeros", "signed zeros", "one outlier", "geometric",
];

fn value(style: &str, b: &mut Prng, i: usize, j: usize, n: usize) -> f64 {
    let ulps = |x: f64, k: u64| f64::from_bits(x.to_bits() + k);
    match style {
        "whole numbers" => b.below(4) as f64,
        "equal rows" => 1.5 + j as f64,
        "two points" => if i % 2 == 0 { 0.3 } else { 0.7 * (j + 1) as f64 },
        "neighbouring floats" => ulps(1.0 + j as f64, b.below(3)),
        "one value per column" => if j == 0 { b.normal() } else { j as f64 },
        "line" => i as f64 * 0.1,
        "nan" => if b.below(n as u64 + 3) == 0 { f64::NAN } else { b.normal() },
        "all nan" => f64::NAN,
        "infinite" => if b.below(6) == 0 { f64::INFINITY } else { b.normal() },
        "both infinities" => [f64::INFINITY, f64::NEG_INFINITY, 1.0][b.below(3) as usize],
        "huge" => 1e308 * b.normal().clamp(-1.5, 1.5),
        "tiny" => 1e-300 * b.normal(),
        "denormal" => f64::from_bits(b.below(5)),
        "zeros" => 0.0,
        "signed zeros" => if b.below(2) == 0 { 0.0 } else { -0.0 },
        "one outlier" => if i == 0 { 1e250 } else { b.normal() },
        "geometric" => 10f64.powi(i as i32 * 7 % 300),
        _ => b.normal(),
    }
}
fn matrix(style: &str, b: &mut Prng, n: usize, d: usize) -> Matrix<f64> {
    let mut v = Vec::with_capacity(n * d);
    for i in 0..n {
        for j in 0..d {
            v.push(value(style, b, i, j, n));
        }
    }
    Matrix::new(n, d, v)
}

fn ended<T, E>(c: &mut Ctx, plan: &Plan, op: &Op<Result<T, E>>, what: &str) -> bool {
    note_fired(c, plan, op.fired);
    let (name, code) = match &op.res {
        Ok(Ok(_)) => ("probe.ended_well", 0),
        Ok(Err(_)) => ("probe.ended_in_error", 1),
        Err(_) => ("probe.ended_in_panic", 2),
    };
    c.hit(name);
    c.hit(match op.steps {
        0..=999 => "probe.steps_below_1e3",
        1000..=99_999 => "probe.steps_below_1e5",
        100_000..=999_999 => "probe.steps_below_1e6",
        1_000_000..=9_999_999 => "probe.steps_below_1e7",
        10_000_000..=29_999_999 => "probe.steps_below_3e7",
        _ => "probe.steps_above_3e7",
    });
    c.see(mix2(hash_str(what), mix2(code, op.steps)));
    c.note(|| format!("{}: {} after {} steps", what, ["ok", "error", "panic"][code as usize], op.steps));
    code == 0
}

/// Failures of a run: often many calls in a row, or all of them.
fn faults(c: &mut Ctx, plan: &mut Plan, acts: &[Act]) {
    if !c.chance(2, 5) {
        return;
    }
    let kind = *c.pick(&[Kind::Call, Kind::Call, Kind::Draw, Kind::La]);
    let act = match kind {
        Kind::Draw => Act::Panic,
        Kind::La => Act::Err,
        Kind::Call => *c.pick(acts),
    };
    let from = if c.chance(1, 2) { c.below(4) } else { c.below(200) };
    let len = match (kind, c.below(3)) {
        (Kind::Draw, _) | (_, 0) => 1,
        (_, 1) => c.range(2, 12),
        _ => 60,
    };
    for at in from..from + len {
        plan.faults.push(Fault { kind, at, act });
    }
}

fn plan(c: &mut Ctx) -> Plan {
    let mut p = Plan::new(if c.chance(1, 2) { Stream::gen(c) } else { Stream::gen_plain(c) });
    p.limit = STEPS;
    p
}

fn size(c: &mut Ctx) -> usize {
    match c.below(6) {
        0 => c.urange(0, 2),
        1..=3 => c.urange(2, 12),
        4 => c.urange(8, 30),
        _ => c.urange(20, 60),
    }
}

pub fn progress(c: &mut Ctx) -> Verdict {
    c.nontrivial = true;
    if c.chance(1, 500) {
        return deep(c);
    }
    match c.below(10) {
        0..=3 => models(c),
        4 | 5 => trees(c),
        6 => clusters(c),
        7 => starts(c),
        _ => rest(c),
    }
}

/// Any model of the zoo on any data.
fn models(c: &mut Ctx) -> Verdict {
    let kind = *c.pick(&zoo::KINDS);
    let mut spec = zoo::gen_spec(c, kind);
    let (n, d, classes) = (size(c), c.urange(1, 4), c.urange(1, 3));
    if kind == zoo::Kind::Net {
        spec.d = d;
        spec.t = classes;
    }
    let style = *c.pick(&STYLES);
    let ystyle = *c.pick(&STYLES);
    let mut b = c.bulk();
    let m = if c.chance(1, 12) { n + 1 } else { n };
    let mut ym = vec![0.0; m * classes];
    let yc: Vec<usize> = (0..m).map(|_| b.below(classes as u64) as usize).collect();
    for (i, k) in yc.iter().enumerate() {
        ym[i * classes + k] = 1.0;
    }
    let data = Data {
        x: matrix(style, &mut b, n, d),
        y: Vector::new(matrix(ystyle, &mut b, m, 1).into_vec()),
        ym: Matrix::new(m, classes, ym),
        yc: Vector::new(yc),
        style,
        good: false,
    };
    let mut p = plan(c);
    faults(c, &mut p, acts(kind));
    c.case(mix2(kind as u64, mix2(spec.a * 16 + spec.b, mix2(hash_str(style), (n * 8 + d) as u64))));
    c.note(|| format!("{:?} on {}x{} {}, targets {}, {:?}, {} failures", spec, n, d, style, ystyle, p.stream, p.faults.len()));
    c.sample = Some(format!("{:?} on {}x{} {}", spec, n, d, style));
    let mut mac = build_tuned(&spec, &[]);
    memory(c);
    let times = c.urange(1, 2);
    let mut ok = false;
    for _ in 0..times {
        let op = step(&p, || mac.train(&data));
        ok = ended(c, &p, &op, "train");
    }
    let (q, style) = (c.urange(0, 4), *c.pick(&STYLES));
    let x = matrix(style, &mut b, q, d);
    let mut p = plan(c);
    faults(c, &mut p, acts(kind));
    let op = step(&p, || mac.predict(&x));
    let answered = ended(c, &p, &op, "predict");
    memory_off();
    let _ = (ok, answered, Outcome::Ok);
    Ok(())
}

/// The trees with any leaf size, and brute force beside them.
fn trees(c: &mut Ctx) -> Verdict {
    let (n, d) = (size(c), c.urange(1, 4));
    let style = *c.pick(&STYLES);
    let mut b = c.bulk();
    let x = matrix(style, &mut b, n, d);
    let y = Vector::new((0..n).map(|_| b.below(3) as usize).collect::<Vec<_>>());
    let (leaf, k) = (if c.chance(1, 3) { c.urange(0, 1) } else { c.urange(1, 8) }, c.urange(0, n + 2));
    let which = c.below(3);
    let q = c.urange(0, 6);
    let pstyle = if c.chance(1, 2) { style } else { *c.pick(&STYLES) };
    let probe = matrix(pstyle, &mut b, q, d);
    let p = plan(c);
    let name = ["kd-tree", "ball tree", "brute force"][which as usize];
    c.case(mix2(which, mix2(hash_str(style), mix2(leaf as u64 * 64 + k as u64, (n * 8 + d) as u64))));
    c.note(|| format!("{} with leaf size {}, k={}, {}x{} {}, probed with {} rows {}", name, leaf, k, n, d, style, q, pstyle));
    c.sample = Some(format!("{} with leaf size {}, k={}, {}x{} {}", name, leaf, k, n, d, style));
    fn go<S: SupModel<Matrix<f64>, Vector<usize>>>(c: &mut Ctx, p: &Plan, mut m: S, x: &Matrix<f64>, y: &Vector<usize>, probe: &Matrix<f64>, k: usize, n: usize, what: &str) -> Verdict {
        let op = step(p, || m.train(x, y));
        if ended(c, p, &op, "train") {
            let op = step(p, || m.predict(probe));
            if ended(c, p, &op, "predict") {
                let r = op.res.unwrap().unwrap();
                ensure!(r.size() == probe.rows() && r.data().iter().all(|v| *v < 3), "answer-count", "{} (k={} of {} rows) gave {:?} for {} rows", what, k, n, r.data(), probe.rows());
            }
        }
        Ok(())
    }
    match which {
        0 => go(c, &p, KNNClassifier::new_specified(k, KDTree::new(leaf)), &x, &y, &probe, k, n, name),
        1 => go(c, &p, KNNClassifier::new_specified(k, BallTree::new(leaf)), &x, &y, &probe, k, n, name),
        _ => go(c, &p, KNNClassifier::new_specified(k, BruteForce::new()), &x, &y, &probe, k, n, name),
    }
}

/// Clustering with any number of clusters and iterations.
fn clusters(c: &mut Ctx) -> Verdict {
    let (n, d) = (size(c).min(30), c.urange(1, 3));
    let style = *c.pick(&STYLES);
    let mut b = c.bulk();
    let x = matrix(style, &mut b, n, d);
    let k = c.urange(0, n + 2).min(8);
    let iters = *c.pick(&[0, 1, 7, 100, 400]);
    let p = plan(c);
    let which = c.below(5);
    let (eps, points) = (*c.pick(&[1e-300, 1e-9, 0.1, 1.0, 1e9, f64::INFINITY]), c.urange(0, 5));
    let name = ["k-means from Forgy", "k-means from a partition", "k-means++", "Gaussian mixture", "DBSCAN"][which as usize];
    c.case(mix2(which, mix2(hash_str(style), mix2(iters * 16 + k as u64, (n * 8 + d) as u64))));
    c.note(|| format!("{}, k={}, {} iterations, eps={}, {} points, {}x{} {}, {:?}", name, k, iters, eps, points, n, d, style, p.stream));
    c.sample = Some(format!("{}, k={}, {} iterations, {}x{} {}", name, k, iters, n, d, style));
    let cov = c.below(3);
    let i = iters as usize;
    let op = step(&p, || match which {
        0 => {
            let mut m = KMeansClassifier::new_specified(k, i, Forgy);
            m.train(&x).and_then(|_| m.predict(&x)).map(|v| v.size())
        }
        1 => {
            let mut m = KMeansClassifier::new_specified(k, i, RandomPartition);
            m.train(&x).and_then(|_| m.predict(&x)).map(|v| v.size())
        }
        2 => {
            let mut m = KMeansClassifier::new_specified(k, i, KPlusPlus);
            m.train(&x).and_then(|_| m.predict(&x)).map(|v| v.size())
        }
        3 => {
            let mut m = GaussianMixtureModel::new(k);
            m.set_max_iters(i.min(12));
            m.cov_option = [CovOption::Full, CovOption::Diagonal, CovOption::Regularized(0.1)][cov as usize];
            m.train(&x).and_then(|_| m.predict(&x)).map(|v| v.rows())
        }
        _ => {
            let mut m = DBSCAN::new(eps, points);
            m.set_predictive(true);
            m.train(&x).and_then(|_| m.predict(&x)).map(|v| v.size())
        }
    });
    if ended(c, &p, &op, name) {
        ensure!(op.res.as_ref().unwrap().as_ref().unwrap() == &n, "answer-count", "{} answered for {:?} of {} rows", name, op.res.unwrap().unwrap(), n);
    }
    Ok(())
}

fn starts(c: &mut Ctx) -> Verdict {
    let (n, d) = (size(c), c.urange(1, 3));
    let style = *c.pick(&STYLES);
    let mut b = c.bulk();
    let x = matrix(style, &mut b, n, d);
    let k = c.urange(0, n + 2);
    let mut p = plan(c);
    faults(c, &mut p, &[Act::Panic]);
    let which = c.below(3);
    let name = ["Forgy", "RandomPartition", "KPlusPlus"][which as usize];
    c.case(mix2(which, mix2(hash_str(style), mix2(k as u64, (n * 8 + d) as u64))));
    c.note(|| format!("{} for k={}, {}x{} {}, {:?}", name, k, n, d, style, p.stream));
    c.sample = Some(format!("{} for k={}, {}x{} {}", name, k, n, d, style));
    let op = step(&p, || match which {
        0 => Forgy.init_centroids(k, &x),
        1 => RandomPartition.init_centroids(k, &x),
        _ => KPlusPlus.init_centroids(k, &x),
    });
    ended(c, &p, &op, name);
    Ok(())
}

/// A cost which is cheap and counts its calls.
struct Tally(std::cell::Cell<u64>);
impl Optimizable for Tally {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> (f64, Vec<f64>) {
        self.0.set(self.0.get() + 1);
        let e = p[0] * x[[0, 0]] - y[[0, 0]];
        (e * e + self.0.get() as f64, vec![1e-3 * e])
    }
}

const DEEP: [(&str, usize); 24] = [
    ("DBSCAN", 500), ("kd-tree", 500), ("ball tree", 500), ("k-means from Forgy", 500),
    ("k-means++", 400), ("k-means from a partition", 500), ("Gaussian mixture", 300), ("brute force", 400),
    ("SVM", 400), ("naive Bayes", 600), ("linear regression", 1500), ("logistic regression", 800),
    ("StochasticGD", 4000), ("AdaGrad", 4000), ("RMSProp", 4000), ("network", 300),
    ("Shuffler", 12000), ("k_fold_validate", 1500), ("MinMaxScaler", 8000), ("Standardizer", 8000),
    ("Normalizer", 8000), ("confusion_matrix", 6000), ("in_place_fisher_yates", 20000), ("reservoir_sample", 20000),
];

/// Many rows on a thread with a small stack.
fn deep(c: &mut Ctx) -> Verdict {
    let which = c.below(DEEP.len() as u64) as usize;
    let (name, top) = DEEP[which];
    let n = c.urange(top * 3 / 4, top);
    let d = c.urange(1, 2);
    let mut b = c.bulk();
    let mut v = Vec::new();
    for i in 0..n {
        for j in 0..d {
            v.push(if j == 0 { i as f64 } else { 0.01 * b.normal() });
        }
    }
    let x = Matrix::new(n, d, v);
    let stack = *c.pick(&[64 << 10, 96 << 10]);
    c.case(mix2(which as u64, mix2(n as u64, stack as u64)));
    c.note(|| format!("{} of a chain of {}x{} on a stack of {} bytes", name, n, d, stack));
    c.sample = Some(format!("{} of a chain of {}x{} on a stack of {} bytes", name, n, d, stack));
    c.hit("fault.small_stack");
    let mut p = plan(c);
    if which >= 12 {
        // so many rows that a long faulty prefix would only slow it down
        p.stream = Stream::plain(p.stream.seed);
    }
    let yc = Vector::new((0..n).map(|i| i % 3).collect::<Vec<usize>>());
    let y = Vector::new((0..n).map(|i| (i % 2) as f64).collect::<Vec<f64>>());
    let ym = Matrix::new(n, 1, y.data().clone());
    let mut one = vec![0.0; n * 3];
    (0..n).for_each(|i| one[i * 3 + i % 3] = 1.0);
    let hot = Matrix::new(n, 3, one);
    let q = x.select_rows(&[0, n / 2, n - 1]);
    let rng = SimRng::new(p.stream);
    let (x, y, ym, yc, hot, q, pp) = (&x, &y, &ym, &yc, &hot, &q, &p);
    let idx: Vec<usize> = (0..n).collect();
    let idx = &idx;
    let op = dst::run_on_stack(stack, Box::new(move || {
        step(pp, || match name {
            "DBSCAN" => {
                let mut m = DBSCAN::new(1.6, 2);
                m.set_predictive(true);
                m.train(x).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "kd-tree" => {
                let mut m = KNNClassifier::new_specified(3, KDTree::new(1));
                m.train(x, yc).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "ball tree" => {
                let mut m = KNNClassifier::new_specified(3, BallTree::new(1));
                m.train(x, yc).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "brute force" => {
                let mut m = KNNClassifier::new_specified(3, BruteForce::new());
                m.train(x, yc).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "k-means from Forgy" => {
                let mut m = KMeansClassifier::new_specified(3, 5, Forgy);
                m.train(x).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "k-means++" => {
                let mut m = KMeansClassifier::new_specified(4, 3, KPlusPlus);
                m.train(x).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "k-means from a partition" => {
                let mut m = KMeansClassifier::new_specified(3, 5, RandomPartition);
                m.train(x).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "Gaussian mixture" => {
                let mut m = GaussianMixtureModel::new(2);
                m.set_max_iters(2);
                m.cov_option = CovOption::Regularized(0.5);
                m.train(x).and_then(|_| m.predict(q)).map(|r| r.rows())
            }
            "SVM" => {
                let mut m = SVM::new(Linear::new(1.0), 0.3);
                m.optim_iters = 20;
                m.train(x, y).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "naive Bayes" => {
                let mut m = NaiveBayes::<Gaussian>::new();
                m.train(x, hot).and_then(|_| m.predict(q)).map(|r| r.rows())
            }
            "linear regression" => {
                let mut m = LinRegressor::default();
                m.train(x, y).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "logistic regression" => {
                let mut m = LogisticRegressor::new(GradientDesc::new(1e-6, 5));
                m.train(x, y).and_then(|_| m.predict(q)).map(|r| r.size())
            }
            "network" => {
                let mut m = NeuralNet::mlp(&[x.cols(), 2, 1], BCECriterion::default(), StochasticGD::new(0.1, 0.1, 1), Sigmoid);
                m.train(x, ym).and_then(|_| SupModel::predict(&m, q)).map(|r| r.rows())
            }
            "StochasticGD" => Ok(StochasticGD::new(0.1, 0.1, 2).optimize(&Tally(Default::default()), &[0.5], x, ym).len()),
            "AdaGrad" => Ok(AdaGrad::new(0.1, 0.1, 2).optimize(&Tally(Default::default()), &[0.5], x, ym).len()),
            "RMSProp" => Ok(RMSProp::new(0.1, 0.9, 0.1, 2).optimize(&Tally(Default::default()), &[0.5], x, ym).len()),
            "Shuffler" => Shuffler::new(rng).transform(x.clone()).map(|m| m.rows()),
            "k_fold_validate" => {
                let mut m = Wide(LinRegressor::default());
                k_fold_validate(&mut m, x, ym, 3, |a, b| a.rows() as f64 + b.rows() as f64).map(|v| v.len())
            }
            "MinMaxScaler" => MinMaxFitter::default().fit(x).and_then(|mut t| t.transform(x.clone()).and_then(|y| t.inv_transform(y))).map(|m| m.rows()),
            "Standardizer" => StandardizerFitter::default().fit(x).and_then(|mut t| t.transform(x.clone()).and_then(|y| t.inv_transform(y))).map(|m| m.rows()),
            "Normalizer" => Normalizer::<f64, Euclidean>::default().transform(x.clone()).map(|m| m.rows()),
            "in_place_fisher_yates" => {
                let mut v = idx.clone();
                rand_utils::in_place_fisher_yates(&mut v);
                Ok(rand_utils::fisher_yates(&v).len())
            }
            "reservoir_sample" => Ok(rand_utils::reservoir_sample(idx, 5).len()),
            _ => Ok(confusion_matrix(yc.data(), &idx.iter().map(|i| i % 2).collect::<Vec<_>>(), None).rows()),
        })
    }));
    if !ended(c, &p, &op, name) {
        fail!("unended", "{} of a chain of {}x{} on a stack of {} bytes does not succeed: {}", name, n, d, stack, match op.res { Ok(Err(e)) => format!("{:?}", e), Ok(_) => "an error".to_string(), Err(e) => caught(&e) });
    }
    Ok(())
}

struct Wide(LinRegressor);
impl SupModel<Matrix<f64>, Matrix<f64>> for Wide {
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> rusty_machine::learning::LearningResult<()> {
        self.0.train(x, &Vector::new(y.data().clone()))
    }
    fn predict(&self, x: &Matrix<f64>) -> rusty_machine::learning::LearningResult<Matrix<f64>> {
        self.0.predict(x).map(|v| Matrix::new(v.size(), 1, v.into_vec()))
    }
}

fn rest(c: &mut Ctx) -> Verdict {
    let (n, d) = (size(c), c.urange(0, 4));
    let style = *c.pick(&STYLES);
    let mut b = c.bulk();
    let x = matrix(style, &mut b, n, d);
    let k = c.urange(0, n + 2);
    let mut p = plan(c);
    faults(c, &mut p, &[Act::Panic]);
    let which = c.below(6);
    let name = ["Shuffler", "k_fold_validate", "MinMaxScaler", "Standardizer", "Normalizer", "confusion_matrix"][which as usize];
    c.case(mix2(which, mix2(hash_str(style), mix2(k as u64, (n * 8 + d) as u64))));
    c.note(|| format!("{} on {}x{} {}, k={}, {:?}", name, n, d, style, k, p.stream));
    c.sample = Some(format!("{} on {}x{} {}, k={}", name, n, d, style, k));
    let rng = SimRng::new(p.stream);
    let (u, v): (Vec<u64>, Vec<u64>) = ((0..n).map(|_| b.below(9)).collect(), (0..n).map(|_| b.below(9)).collect());
    let op = step(&p, || match which {
        0 => Shuffler::new(rng).transform(x.clone()).map(|m| m.rows()),
        1 => {
            let mut m = Wide(LinRegressor::default());
            let y = Matrix::new(n, 1, (0..n).map(|i| i as f64).collect::<Vec<_>>());
            k_fold_validate(&mut m, &x, &y, k, |a, b| a.rows() as f64 + b.rows() as f64).map(|v| v.len())
        }
        2 => MinMaxFitter::default().fit(&x).and_then(|mut t| t.transform(x.clone()).and_then(|y| t.inv_transform(y))).map(|m| m.rows()),
        3 => StandardizerFitter::default().fit(&x).and_then(|mut t| t.transform(x.clone()).and_then(|y| t.inv_transform(y))).map(|m| m.rows()),
        4 => Normalizer::<f64, Euclidean>::default().transform(x.clone()).map(|m| m.rows()),
        _ => Ok(confusion_matrix(&u, &v, None).rows()),
    });
    ended(c, &p, &op, name);
    Ok(())
}
