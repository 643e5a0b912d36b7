//! C20: threads that share trained models and train their own at the same time.
use crate::lifecycle::{build_tuned, data_for, probe, snap, train, Outcome, Snap};
use crate::util::*;
use crate::zoo::{self, acts, gen_spec, user_point, Data, Machine, Spec};
use dst::alloc::PATTERN;
use dst::prng::{hash_str, mix, mix2};
use dst::{ensure, run_solo, run_tasks, step, Act, Caught, Ctx, Fault, Kind, Plan, SimRng, Stream, Verdict};
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::data::transforms::minmax::{MinMaxFitter, MinMaxScaler};
use rusty_machine::data::transforms::standardize::{Standardizer, StandardizerFitter};
use rusty_machine::data::transforms::{Invertible, Normalizer, Shuffler, TransformFitter, Transformer};
use rusty_machine::learning::nnet::{BCECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::k_means::{Forgy, Initializer, KPlusPlus, RandomPartition};
use rusty_machine::learning::toolkit::rand_utils;
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::norm::Euclidean;
use rusty_machine::stats::dist::{Exponential, Gaussian};
use rand::distributions::IndependentSample;
use rusty_machine::linalg::{BaseMatrix, BaseMatrixMut, Matrix};
use std::cell::Cell;
use std::sync::atomic::Ordering::SeqCst;

/// What threads share.
pub enum Shared {
    Model(Box<dyn Machine>),
    MinMax(MinMaxScaler<f64>),
    Standard(Standardizer<f64>),
}
struct Lend<'a>(&'a [Shared]);
/// The models are made of plain data, and predict takes `&self`.
unsafe impl<'a> Sync for Lend<'a> {}

#[derive(Clone, Debug)]
pub enum Make {
    Model(Spec, Vec<u64>, Data),
    MinMax(Matrix<f64>),
    Standard(Matrix<f64>),
}
impl Make {
    pub fn make(&self) -> Option<Shared> {
        match self {
            Make::Model(s, k, d) => {
                let mut m = build_tuned(s, k);
                let (o, _, _) = train(&mut *m, d, &Plan::new(Stream::plain(33)));
                if o.is_ok() { Some(Shared::Model(m)) } else { None }
            }
            Make::MinMax(x) => MinMaxFitter::new(-1.0, 2.0).fit(x).ok().map(Shared::MinMax),
            Make::Standard(x) => StandardizerFitter::new(0.5, 2.0).fit(x).ok().map(Shared::Standard),
        }
    }
}

#[derive(Clone, Debug)]
pub enum What {
    Ask(usize, Vec<Matrix<f64>>),
    Train(Spec, Vec<u64>, Vec<Data>, Matrix<f64>),
    Shuffle(Matrix<f64>, bool),
    Fold(Matrix<f64>, Matrix<f64>, usize),
    Scale(Matrix<f64>, Matrix<f64>, u64),
    /// algorithm, rows, parameters, passes, seed of the costs
    Optimise(u64, usize, usize, usize, u64),
    Count(Vec<u64>, Vec<u64>),
    /// what, how many, size of a sample
    Draw(u64, usize, usize),
}

/// A cost at a few levels, each of which holds for some passes: training
/// that stops early does so by comparing with its own pass before.
struct Levels {
    n: u64,
    seed: u64,
    calls: Cell<u64>,
}
impl Optimizable for Levels {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], x: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) {
        let act = user_point();
        let i = self.calls.get();
        self.calls.set(i + 1);
        let pass = i / self.n.max(1);
        let level = if pass == 0 { 1.0 } else { 1.0 + 0.5 * (mix(self.seed + pass) % 3) as f64 };
        let g: Vec<f64> = p.iter().enumerate().map(|(j, v)| 0.1 * v + x.data().get(j % x.data().len().max(1)).cloned().unwrap_or(0.0)).collect();
        match act {
            Some(_) => (f64::NAN, g),
            None => (level, g),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Job {
    pub what: What,
    pub plan: Plan,
}
impl Job {
    pub fn brief(&self) -> String {
        let f = if self.plan.faults.is_empty() { String::new() } else { format!(", {:?}", self.plan.faults[0]) };
        let s = |m: &Matrix<f64>| format!("{}x{}", m.rows(), m.cols());
        match &self.what {
            What::Ask(m, x) => format!("ask shared model {} about {}{}", m, x.iter().map(s).collect::<Vec<_>>().join(", "), f),
            What::Train(p, _, d, _) => format!("train {:?} on {}{}", p, d.iter().map(|d| format!("{} ({})", s(&d.x), d.style)).collect::<Vec<_>>().join(", "), f),
            What::Shuffle(x, own) => format!("shuffle {}{}{}", s(x), if *own { " with its own generator" } else { "" }, f),
            What::Fold(x, _, k) => format!("validate on {} in {} folds{}", s(x), k, f),
            What::Optimise(a, n, d, p, _) => format!("optimise with {} over {} rows, {} parameters, {} passes{}", ["gradient descent", "StochasticGD", "AdaGrad", "RMSProp", "ConjugateGD"][*a as usize], n, d, p, f),
            What::Draw(w, n, k) => format!("{} {} ({}){}", ["shuffle in place", "shuffled copy", "sample", "normal draws", "exponential draws", "k-means++ of", "Forgy of", "random partition of"][*w as usize], n, k, f),
            What::Count(a, _) => format!("confusion matrix of {} samples{}", a.len(), f),
            What::Scale(x, y, w) => format!("fit scaler {} to {} and transform {}{}", w, s(x), s(y), f),
        }
    }
}

/// How each part of a job ended, in words and in bits.
pub type Out = Vec<(String, Vec<u64>)>;

fn say(s: &Snap) -> (String, Vec<u64>) {
    (format!("answers {}, more {}", s.answer.brief(), s.more.brief()), vec![s.answer.hash(), s.more.hash(), hash_str(&format!("{:?}", s.learned))])
}

pub fn perform(job: &Job, sh: &[Shared]) -> Out {
    let mut out = Out::new();
    fn put(r: Result<Result<Vec<f64>, (String, String)>, Caught>, draws: u64) -> (String, Vec<u64>) {
        let (t, v) = match r {
            Ok(Ok(v)) => ("ok".to_string(), bits(&v)),
            Ok(Err((k, m))) => (format!("error {} {}", k, m), vec![]),
            Err(e) => (caught(&e), vec![]),
        };
        (format!("{}, {} draws", t, draws), v)
    }
    match &job.what {
        What::Ask(m, xs) => match &sh[*m] {
            Shared::Model(m) => {
                for x in xs {
                    if !job.plan.faults.is_empty() {
                        let op = step(&job.plan, || m.predict(x).map(|(n, v)| [vec![n as f64], v].concat()).map_err(|e| err_key(&e)));
                        out.push(put(op.res, op.points[0]));
                    }
                }
                for x in xs {
                    let s = snap(&**m, x);
                    out.push(say(&s));
                }
            }
            Shared::MinMax(m) => {
                for x in xs {
                    let op = step(&job.plan, || m.inv_transform(x.clone()).map(|m| m.into_vec()).map_err(|e| err_key(&e)));
                    out.push(put(op.res, op.points[0]));
                }
            }
            Shared::Standard(m) => {
                for x in xs {
                    let op = step(&job.plan, || m.inv_transform(x.clone()).map(|m| m.into_vec()).map_err(|e| err_key(&e)));
                    out.push(put(op.res, op.points[0]));
                }
            }
        },
        What::Train(spec, knobs, data, x) => {
            // networks get their first weights from the thread's generator
            let plan = Plan::new(Stream::plain(job.plan.stream.seed ^ 5));
            let mut m = step(&plan, || zoo::build(spec)).res.expect("construction");
            for k in knobs {
                m.tune(*k);
            }
            for (i, d) in data.iter().enumerate() {
                let plain = Plan::new(job.plan.stream);
                let (o, _, pts) = train(&mut *m, d, if i == 0 { &job.plan } else { &plain });
                if d.good && (i > 0 || job.plan.faults.is_empty()) {
                    if let Outcome::Panic(p) = &o {
                        out.push((format!("BROKEN: training on good data: {}", p), vec![]));
                    }
                }
                out.push((format!("training: {:?}, {} draws", o, pts[0]), vec![]));
                let s = snap(&*m, x);
                out.push(say(&s));
            }
        }
        What::Shuffle(x, own) => {
            let r = SimRng::new(job.plan.stream);
            let op = step(&job.plan, || {
                let y = if *own {
                    let mut s = Shuffler::new(r);
                    s.transform(x.clone()).and_then(|y| s.transform(y))
                } else {
                    let mut s = Shuffler::default();
                    s.transform(x.clone()).and_then(|y| s.transform(y))
                };
                y.map(|m| m.into_vec()).map_err(|e| err_key(&e))
            });
            out.push(put(op.res, op.points[0]));
        }
        What::Fold(x, y, k) => {
            let op = step(&job.plan, || {
                let mut m = NeuralNet::mlp(&[x.cols(), 2, y.cols()], BCECriterion::default(), StochasticGD::new(0.1, 0.1, 1), rusty_machine::learning::toolkit::activ_fn::Sigmoid);
                let r = k_fold_validate(&mut m, x, y, *k, |a, b| {
                    user_point();
                    (a - b).apply(&|v| v * v).sum()
                });
                r.and_then(|mut v| {
                    v.extend(SupModel::predict(&m, x)?.into_vec());
                    Ok(v)
                })
                .map_err(|e| err_key(&e))
            });
            out.push(put(op.res, op.points[0]));
        }
        What::Optimise(alg, n, d, passes, seed) => {
            let x = Matrix::new(*n, 2, (0..n * 2).map(|i| (mix(seed + i as u64) % 100) as f64 * 0.02 - 1.0).collect::<Vec<_>>());
            let f = Levels { n: if alg % 4 == 0 { 1 } else { *n as u64 }, seed: *seed, calls: Cell::new(0) };
            let start = vec![0.5; *d];
            let op = step(&job.plan, || {
                Ok(match alg {
                    0 => GradientDesc::new(0.1, *passes).optimize(&f, &start, &x, &x),
                    1 => StochasticGD::new(0.1, 0.2, *passes).optimize(&f, &start, &x, &x),
                    2 => AdaGrad::new(0.5, 0.3, *passes).optimize(&f, &start, &x, &x),
                    3 => RMSProp::new(0.1, 0.9, 1e-3, *passes).optimize(&f, &start, &x, &x),
                    _ => ConjugateGD { iters: *passes, max: 4, ..Default::default() }.optimize(&f, &start, &x, &x),
                })
            });
            let (t, v) = put(op.res, op.points[0]);
            out.push((format!("{}, {} calls of the cost", t, f.calls.get()), v));
        }
        What::Draw(w, n, k) => {
            let op = step(&job.plan, || {
                let pool: Vec<usize> = (0..*n).collect();
                let x = || Matrix::new(*n, 2, (0..2 * n).map(|i| (mix(i as u64) % 1000) as f64).collect::<Vec<_>>());
                let f = |v: Vec<usize>| v.into_iter().map(|i| i as f64).collect::<Vec<f64>>();
                Ok(match w {
                    0 => {
                        let mut p = pool;
                        rand_utils::in_place_fisher_yates(&mut p);
                        f(p)
                    }
                    1 => f(rand_utils::fisher_yates(&pool)),
                    2 => f(rand_utils::reservoir_sample(&pool, *k)),
                    3 => {
                        let d = Gaussian::new(1.0, 2.0);
                        (0..*n).map(|_| d.ind_sample(&mut rand::thread_rng())).collect()
                    }
                    4 => {
                        let d = Exponential::new(1.5);
                        (0..*n).map(|_| d.ind_sample(&mut rand::thread_rng())).collect()
                    }
                    5 => KPlusPlus.init_centroids(*k, &x()).map_err(|e| err_key(&e))?.into_vec(),
                    6 => Forgy.init_centroids(*k, &x()).map_err(|e| err_key(&e))?.into_vec(),
                    _ => RandomPartition.init_centroids(*k, &x()).map_err(|e| err_key(&e))?.into_vec(),
                })
            });
            out.push(put(op.res, op.points[0]));
        }
        What::Count(a, b) => {
            let op = step(&job.plan, || Ok(confusion_matrix(a, b, None).data().iter().map(|v| *v as f64).collect::<Vec<f64>>()));
            out.push(put(op.res, op.points[0]));
        }
        What::Scale(x, y, w) => {
            let op = step(&job.plan, || {
                let r = match w {
                    0 => MinMaxFitter::new(-1.0, 1.5).fit(x).and_then(|mut t| {
                        let z = t.transform(y.clone())?;
                        let b = t.inv_transform(z.clone())?;
                        Ok([z.into_vec(), b.into_vec()].concat())
                    }),
                    1 => StandardizerFitter::default().fit(x).and_then(|mut t| {
                        let z = t.transform(y.clone())?;
                        let b = t.inv_transform(z.clone())?;
                        Ok([z.into_vec(), b.into_vec()].concat())
                    }),
                    _ => Normalizer::<f64, Euclidean>::default().transform(y.clone()).map(|z| z.into_vec()),
                };
                r.map_err(|e| err_key(&e))
            });
            out.push(put(op.res, op.points[0]));
        }
    }
    out
}

fn plan(c: &mut Ctx) -> Plan {
    Plan::new(stream(c))
}

pub fn gen_make(c: &mut Ctx) -> Make {
    match c.below(12) {
        k @ 0..=1 => {
            let (n, d) = (c.urange(2, 8), c.urange(1, 4));
            let mut b = c.bulk();
            let x = normal_matrix(&mut b, n, d, 3.0);
            if k == 0 { Make::MinMax(x) } else { Make::Standard(x) }
        }
        _ => {
            // a network holds boxed layers, which cannot be shared
            let kind = *c.pick(&zoo::KINDS[..24]);
            let spec = gen_spec(c, kind);
            let d = data_for(c, &spec, false);
            let knobs = if c.chance(1, 4) { vec![c.below(12)] } else { vec![] };
            Make::Model(spec, knobs, d)
        }
    }
}

/// What a thread does for itself: a kind of model to train, or something else.
pub fn gen_like(c: &mut Ctx) -> u64 {
    match c.below(13) {
        k @ 0..=5 => 100 + k,
        _ => c.below(zoo::KINDS.len() as u64),
    }
}

pub fn gen_job(c: &mut Ctx, makes: &[Make], widths: &[(usize, Option<zoo::Kind>)], shared: bool, like: Option<u64>) -> Job {
    if !makes.is_empty() && c.chance(if shared { 5 } else { 1 }, 6) {
        let m = c.below(makes.len() as u64) as usize;
        let k = c.urange(1, 3);
        let (w, kind) = widths[m];
        let xs = (0..k).map(|_| probe(c, w, kind.unwrap_or(zoo::Kind::Lin))).collect();
        let mut p = plan(c);
        if let (Some(k), true) = (kind, c.chance(1, 4)) {
            let (kind, act) = if c.chance(1, 4) { (Kind::La, Act::Err) } else { (Kind::Call, *c.pick(acts(k))) };
            p.faults.push(Fault { kind, at: c.below(12), act });
        }
        return Job { what: What::Ask(m, xs), plan: p };
    }
    let mut p = plan(c);
    let kind = match like {
        Some(k) => k,
        None => gen_like(c),
    };
    let what = match kind {
        100 => {
            let (n, d) = (c.urange(1, 12), width(c, 4));
            let mut b = c.bulk();
            What::Shuffle(normal_matrix(&mut b, n, d, 1.0), c.chance(1, 2))
        }
        101 => {
            let (n, d, t) = (c.urange(2, 10), c.urange(1, 3), c.urange(1, 2));
            let mut b = c.bulk();
            let x = normal_matrix(&mut b, n, d, 1.0);
            let y = Matrix::new(n, t, (0..n * t).map(|_| b.below(2) as f64).collect::<Vec<_>>());
            What::Fold(x, y, c.urange(2, n.min(4)))
        }
        102 => {
            let (n, d) = (c.urange(1, 8), c.urange(1, 4));
            let mut b = c.bulk();
            let x = normal_matrix(&mut b, n, d, 3.0);
            let n = c.urange(1, 8);
            let w = if c.chance(1, 6) { d + 1 } else { d };
            What::Scale(x, normal_matrix(&mut b, n, w, 2.0), c.below(3))
        }
        103 => {
            let n = c.urange(1, 6);
            What::Optimise(c.below(5), n, c.urange(1, 3), c.urange(1, 6), if c.chance(1, 2) { c.below(3) } else { c.below(1000) })
        }
        104 => {
            let n = c.urange(0, 12);
            let mut b = c.bulk();
            What::Count((0..n).map(|_| b.below(4)).collect(), (0..n).map(|_| b.below(4)).collect())
        }
        105 => {
            let n = c.urange(1, 20);
            What::Draw(c.below(8), n, c.urange(1, n.min(4)))
        }
        k => {
            let kind = zoo::KINDS[k as usize];
            let mut spec = gen_spec(c, kind);
            if kind == zoo::Kind::Net {
                spec.d = c.urange(1, 3);
                spec.t = c.urange(2, 3);
            }
            let n = c.urange(1, 2);
            let mut data: Vec<Data> = Vec::new();
            for i in 0..n {
                let bad = i + 1 < n && c.chance(1, 2);
                data.push(data_for(c, &spec, bad));
            }
            // one width throughout, so that every question is admissible
            let w = data.iter().map(|d| d.x.cols()).max().unwrap();
            let last = data.pop().unwrap();
            let data = if data.iter().all(|d| d.x.cols() == last.x.cols()) && w == last.x.cols() { data.push(last); data } else { vec![last] };
            let w = data[0].x.cols();
            let knobs = if c.chance(1, 4) { vec![c.below(12)] } else { vec![] };
            let x = probe(c, w, kind);
            What::Train(spec, knobs, data, x)
        }
    };
    if c.chance(1, 4) {
        let k = *c.pick(&[Kind::Draw, Kind::Call, Kind::La]);
        let act = match (&what, k) {
            (_, Kind::Draw) => Act::Panic,
            (_, Kind::La) => Act::Err,
            (What::Train(s, ..), Kind::Call) => *c.pick(acts(s.kind)),
            _ => Act::Panic,
        };
        let at = if c.chance(1, 2) { c.below(6) } else { c.below(60) };
        p.faults.push(Fault { kind: k, at, act });
    }
    Job { what, plan: p }
}

pub fn threads(c: &mut Ctx) -> Verdict {
    // shared models, each with a twin for the threads running alone
    let ns = match c.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    let (mut makes, mut one, mut two, mut widths) = (vec![], vec![], vec![], vec![]);
    for _ in 0..ns {
        let m = gen_make(c);
        if let (Some(a), Some(b)) = (m.make(), m.make()) {
            widths.push(match &m {
                Make::Model(s, _, d) => (d.x.cols(), Some(s.kind)),
                Make::MinMax(x) | Make::Standard(x) => (x.cols(), None),
            });
            c.note(|| match &m {
                Make::Model(s, k, d) => format!("shared: {:?} {:?} trained on {}x{}", s, k, d.x.rows(), d.x.cols()),
                Make::MinMax(x) => format!("shared: min-max scaler fitted to {}x{}", x.rows(), x.cols()),
                Make::Standard(x) => format!("shared: standardizer fitted to {}x{}", x.rows(), x.cols()),
            });
            makes.push(m);
            one.push(a);
            two.push(b);
        }
    }
    let nt = c.urange(2, if makes.is_empty() { 3 } else { 4 });
    let shared = !makes.is_empty() && c.chance(2, 3);
    // half of the time they all do the same, each in its own way
    let like = if c.chance(1, 2) { Some(gen_like(c)) } else { None };
    let mut jobs: Vec<Vec<Job>> = Vec::new();
    for _ in 0..nt {
        let k = if c.chance(1, 3) { 2 } else { 1 };
        jobs.push((0..k).map(|_| gen_job(c, &makes, &widths, shared, like)).collect());
    }
    for (i, t) in jobs.iter().enumerate() {
        for j in t {
            c.note(|| format!("thread {}: {} {:?}", i, j.brief(), j.plan.stream));
            c.case(hash_str(&j.brief()));
        }
    }
    let (one, two) = (Lend(&one), Lend(&two));
    let (one, two) = (&one, &two);
    let body = |t: &Vec<Job>, sh: &Lend| -> Vec<Out> { t.iter().map(|j| perform(j, sh.0)).collect() };
    let body = &body;
    let (m1, m2) = (c.below(6), c.below(6));
    let first = c.chance(1, 2);
    let mut span = if first { *c.pick(&[200, 2000, 20000]) } else { 0 };
    let (mut solo, mut together) = (Vec::new(), Vec::new());
    let p0 = c.counts.get("sched.preemptions").cloned().unwrap_or(0);
    for phase in 0..2 {
        PATTERN.store([m1, m2][phase], SeqCst);
        if first == (phase == 0) {
            together = run_tasks(c, span, jobs.iter().map(|t| Box::new(move || body(t, two)) as Box<dyn FnOnce() -> Vec<Out> + Send>).collect());
        } else {
            for t in &jobs {
                let (r, s) = run_solo(Box::new(move || body(t, one)));
                span = span.max(s);
                solo.push(r);
            }
        }
    }
    PATTERN.store(0, SeqCst);
    let pre = c.counts.get("sched.preemptions").cloned().unwrap_or(0) - p0;
    c.nontrivial = pre > 0;
    let inter = *c.inter.last().unwrap();
    c.case(inter);
    let fired = solo.iter().flatten().flatten().filter(|o: &&(String, Vec<u64>)| o.0.contains("injected") || o.0.contains("user-supplied")).count();
    c.add("fault.thread_failures", fired as u64);
    c.add("probe.shared_questions", jobs.iter().flatten().filter(|j| matches!(j.what, What::Ask(..))).count() as u64);
    for (t, (a, b)) in solo.iter().zip(&together).enumerate() {
        for (j, (x, y)) in a.iter().zip(b).enumerate() {
            for (p, q) in x.iter().zip(y) {
                for o in [p, q] {
                    ensure!(!o.0.starts_with("BROKEN"), "interference", "thread {} of {} ({}): {}", t, nt, jobs[t][j].brief(), o.0);
                }
                ensure!(p == q, "interference", "thread {} of {} ({}): alone {}, together {}", t, nt, jobs[t][j].brief(), show(p), show(q));
                for v in &q.1 {
                    c.see(mix2(*v, j as u64));
                }
            }
            ensure!(x.len() == y.len(), "interference", "thread {} of {} ({}): {} results alone, {} together", t, nt, jobs[t][j].brief(), x.len(), y.len());
        }
    }
    // what the threads did leaves no trace in the shared models
    let t = c.below(nt as u64) as usize;
    let tj = &jobs[t];
    let (again, _) = run_solo(Box::new(move || body(tj, two)));
    ensure!(again == solo[t], "history", "thread {} of {} ({}): alone at first {:?}, after the others {:?}", t, nt, jobs[t].iter().map(|j| j.brief()).collect::<Vec<_>>().join("; "),
        solo[t].iter().flatten().map(show).collect::<Vec<_>>(), again.iter().flatten().map(show).collect::<Vec<_>>());
    c.sample = Some(format!("{} threads, {} shared models, {} jobs, {} preemptions, {} failed, interleaving {:x}", nt, ns, jobs.iter().map(|j| j.len()).sum::<usize>(), pre, fired, inter));
    Ok(())
}

pub fn show(o: &(String, Vec<u64>)) -> String {
    format!("{} {:x?}", o.0, &o.1[..o.1.len().min(6)])
}
