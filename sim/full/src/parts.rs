//! C37: models hand their user-supplied parts their own data, use what comes
//! back, and report what fails.
use crate::util::*;
use dst::prng::{hash_str, mix, mix2};
use dst::sched::{call_point, outside};
use dst::{ensure, fail, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rusty_machine::data::transforms::{Normalizer, Transformer};
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::glm::{self, GenLinearModel, LinkFunc};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::k_means::{Initializer, KMeansClassifier};
use rusty_machine::learning::knn::{KNNClassifier, KNearestSearch};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{Distribution, NaiveBayes};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::toolkit::kernel::{Kernel, KernelArith};
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::linalg::norm::MatrixNorm;
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice, Vector};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;

type Rows = Vec<Vec<f64>>;
type Bits = Vec<u64>;

/// What the parts were asked.
#[derive(Clone, Debug)]
enum Ev {
    New { id: u64, classes: usize, features: usize },
    Update { id: u64, rows: Rows, class: usize },
    Score { id: u64, rows: Rows, prior: Vec<f64>, result: Option<Rows> },
    Build { rows: Rows },
    Search { point: Vec<f64>, k: usize, result: Option<Vec<usize>> },
    Kernel { a: Vec<f64>, b: Vec<f64> },
    Mean { rows: Rows },
    Optimise { start: Vec<f64>, x: (usize, usize, Bits), y: Bits, result: Vec<f64>, costs: Vec<(Vec<f64>, f64, Vec<f64>)> },
    Start { k: usize, x: (usize, usize, Bits), result: Option<Rows> },
    Mu { y: Bits },
    Weight { n: usize },
    Bar { y: Bits, n: usize },
    Norm { rows: Rows },
}

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    /// distinguishes the parts, and what they answer, from run to run
    static ID: Cell<u64> = const { Cell::new(0) };
    static SALT: Cell<u64> = const { Cell::new(0) };
    static LAST: RefCell<Option<Matrix<f64>>> = const { RefCell::new(None) };
    static ANSWERS: Cell<Option<u64>> = const { Cell::new(None) };
    static WEIGHTS: RefCell<Vec<f64>> = const { RefCell::new(Vec::new()) };
}
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}
fn take() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn salt() -> u64 {
    SALT.with(|s| s.get())
}
fn mb(x: &Matrix<f64>) -> (usize, usize, Bits) {
    (x.rows(), x.cols(), bits(x.data()))
}
fn sorted(r: Rows) -> Vec<Bits> {
    let mut v: Vec<Bits> = r.iter().map(|r| bits(r)).collect();
    v.sort();
    v
}
fn key(salt: u64, r: &[f64]) -> u64 {
    r.iter().fold(salt, |a, x| mix2(a, canon(*x)))
}
fn unit(h: u64) -> f64 {
    (mix(h) >> 11) as f64 / (1u64 << 53) as f64
}
const ERR: &str = "the part failed";
fn failed<T>() -> LearningResult<T> {
    Err(Error::new(ErrorKind::UntrainedModel, ERR))
}

/// How a call on the model ended.
#[derive(Debug)]
enum End<T> {
    Ok(T),
    /// an error that came from a part
    Part,
    Err(String),
    Injected,
    Panic(String),
}
fn end<T>(r: Result<LearningResult<T>, Caught>) -> End<T> {
    match r {
        Ok(Ok(t)) => End::Ok(t),
        Ok(Err(e)) => {
            let (k, m) = err_key(&e);
            if m == ERR && k == "UntrainedModel" { End::Part } else { End::Err(format!("{}: {}", k, m)) }
        }
        Err(Caught::Injected) => End::Injected,
        Err(Caught::Panic(m)) => End::Panic(m),
    }
}
impl<T: Debug> End<T> {
    /// What is wrong with an ending, given that a fault fired or not.
    fn wrong(&self, plan: &Plan, fired: u64) -> Option<&'static str> {
        let act = plan.faults.first().map(|f| f.act);
        match (self, fired > 0, act) {
            (End::Part, false, _) | (End::Injected, false, _) => Some("phantom-failure"),
            (End::Part, true, Some(Act::Err)) | (End::Injected, true, Some(Act::Panic)) => None,
            (_, true, Some(Act::Err)) | (_, true, Some(Act::Panic)) => Some("failure-lost"),
            _ => None,
        }
    }
}

/// A call on a model, perhaps with one failing call of a part.
fn call<T>(c: &mut Ctx, acts: &[Act], most: u64, f: impl FnOnce() -> LearningResult<T>) -> (End<T>, Plan, u64, Vec<Ev>) {
    let mut plan = Plan::new(Stream::plain(c.below(1 << 30)));
    if !acts.is_empty() && c.chance(1, 3) {
        plan.faults.push(Fault { kind: Kind::Call, at: c.below(most.max(1)), act: *c.pick(acts) });
    }
    take();
    memory(c);
    let op = step(&plan, f);
    memory_off();
    note_fired(c, &plan, op.fired);
    (end(op.res), plan, op.fired, take())
}

macro_rules! settle {
    ($end:expr, $plan:expr, $fired:expr, $what:expr) => {
        if let Some(w) = $end.wrong(&$plan, $fired) {
            fail!(w, "{}: {:?} fired {} times and the call ended with {}", $what, $plan.faults, $fired, brief_end(&$end));
        }
    };
}
fn brief_end<T: Debug>(e: &End<T>) -> String {
    let mut s = format!("{:?}", e);
    if s.len() > 300 {
        s.truncate(s.char_indices().take_while(|(i, _)| *i < 300).last().map(|(i, _)| i).unwrap_or(0));
        s.push_str("..");
    }
    s
}

fn size(c: &mut Ctx) -> usize {
    match c.below(30) {
        0..=5 => c.urange(1, 3),
        6..=9 => c.urange(16, 40),
        10 => c.urange(60, 180),
        _ => c.urange(3, 15),
    }
}
/// Rows, some of them alike.
fn some_rows(c: &mut Ctx, n: usize, d: usize) -> Matrix<f64> {
    let style = c.below(4);
    let mut b = c.bulk();
    let mut v: Vec<f64> = (0..n * d).map(|_| if style == 0 { b.below(3) as f64 } else { b.normal() }).collect();
    if style == 1 && n > 1 {
        for _ in 0..n / 2 {
            let (i, k) = (b.below(n as u64) as usize, b.below(n as u64) as usize);
            for j in 0..d {
                v[i * d + j] = v[k * d + j];
            }
        }
    }
    Matrix::new(n, d, v)
}
/// Rows to train on, n of them at least `least`, perhaps resembling those of
/// the training before.
fn lessons(c: &mut Ctx, n: usize, d: usize, least: usize) -> Matrix<f64> {
    let last = LAST.with(|l| l.borrow_mut().take());
    let x = match last {
        Some(l) if l.rows() >= least && c.chance(1, 3) => {
            let (n, d) = (l.rows(), l.cols());
            let mut r = rows(&l);
            let mut b = c.bulk();
            match b.below(5) {
                0 => {
                    let (i, j) = (b.below(n as u64) as usize, b.below(d as u64) as usize);
                    r[i][j] += 1.0;
                }
                1 => {
                    let i = b.below(n as u64) as usize;
                    r.push((0..d).map(|_| b.normal()).collect());
                    r.swap(i, n);
                }
                2 if n > least => {
                    r.swap_remove(b.below(n as u64) as usize);
                }
                3 => r.reverse(),
                _ => {}
            }
            Matrix::new(r.len(), d, r.concat())
        }
        _ => some_rows(c, n, d),
    };
    LAST.with(|l| *l.borrow_mut() = Some(x.clone()));
    x
}
/// What targets are drawn from, perhaps the same as before.
fn answers(c: &mut Ctx) -> dst::prng::Prng {
    let seed = match ANSWERS.with(|a| a.get()) {
        Some(s) if c.chance(1, 4) => s,
        _ => c.below(1 << 40),
    };
    ANSWERS.with(|a| a.set(Some(seed)));
    dst::prng::Prng::new(seed)
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

// -------------------------------------------------------------- naive Bayes

#[derive(Debug)]
struct Dist {
    id: u64,
    /// cannot report its own failure to start
    broken: bool,
}
impl Distribution for Dist {
    fn from_model_params(classes: usize, features: usize) -> Dist {
        let broken = call_point() == Some(Act::Err);
        outside(|| {
            let id = ID.with(|i| {
                i.set(i.get() + 1);
                i.get()
            });
            log(Ev::New { id, classes, features });
            Dist { id, broken }
        })
    }
    fn update_params(&mut self, data: &Matrix<f64>, class: usize) -> LearningResult<()> {
        let act = call_point();
        outside(|| log(Ev::Update { id: self.id, rows: rows(data), class }));
        if act == Some(Act::Err) || self.broken { failed() } else { Ok(()) }
    }
    fn joint_log_lik(&self, data: &Matrix<f64>, prior: &[f64]) -> LearningResult<Matrix<f64>> {
        let act = call_point();
        outside(|| {
            let result = if act == Some(Act::Err) { None } else { Some(rows(data).iter().map(|r| (0..prior.len()).map(|k| score(self.id, r, k)).collect::<Vec<f64>>()).collect::<Rows>()) };
            log(Ev::Score { id: self.id, rows: rows(data), prior: prior.to_vec(), result: result.clone() });
            match result {
                Some(r) => Ok(Matrix::new(data.rows(), prior.len(), r.concat())),
                None => failed(),
            }
        })
    }
}
fn score(id: u64, r: &[f64], class: usize) -> f64 {
    let h = mix2(key(mix2(salt(), id), r), class as u64);
    match salt() % 8 {
        // nearly tied
        0 => -100.0 - 1e-9 * unit(h),
        // out of the question, or of any size
        1 if mix2(h, 1) % 4 == 0 => f64::NEG_INFINITY,
        1 => -1e300 * unit(h),
        2 => 50.0 * unit(h) - 10.0,
        _ => -100.0 * unit(h),
    }
}

fn naive_bayes(c: &mut Ctx) -> Verdict {
    SALT.with(|s| s.set(c.below(1 << 40)));
    let mut m = NaiveBayes::<Dist>::new();
    // id, width, prior
    let mut live: Option<(u64, usize, Vec<f64>)> = None;
    let mut done = 0;
    for _ in 0..c.urange(2, 6) {
        if live.is_none() || c.chance(1, 2) {
            let (n, d, q) = (size(c), c.urange(1, 4), if c.chance(1, 20) { c.urange(10, 70) } else { c.urange(1, 5) });
            let x = lessons(c, n, d, 1);
            let (n, d) = (x.rows(), x.cols());
            let mut b = answers(c);
            let ys: Vec<usize> = (0..n).map(|_| b.below(q as u64) as usize).collect();
            let bad = c.chance(1, 12);
            let at = c.urange(0, n - 1);
            let odd = *c.pick(&[0.0, 0.0, 0.5, 2.0, -1.0, f64::NAN]);
            let y = Matrix::from_fn(n, q, |j, i| if bad && i == at { if odd == 0.0 || j % 2 == 0 { odd } else { 0.0 } } else if ys[i] == j { 1.0 } else { 0.0 });
            c.case(mix2(n as u64, mix2(d as u64, q as u64)));
            c.note(|| format!("naive Bayes: train on {}x{} of {} classes {:?}{}", n, d, q, ys, if bad { ", one of none" } else { "" }));
            let (e, plan, fired, ev) = call(c, &[Act::Panic, Act::Err], 6, || m.train(&x, &y));
            let what = format!("Naive Bayes trained on {}x{}, classes {:?}", n, d, ys);
            if !bad {
                settle!(e, plan, fired, what);
            }
            match e {
                End::Ok(()) => {
                    ensure!(!bad, "accepted", "{}: a row of no class was accepted", what);
                    // one distribution was told about every class
                    let mut told: BTreeMap<u64, (usize, usize, BTreeMap<usize, Vec<Rows>>)> = BTreeMap::new();
                    for v in ev {
                        match v {
                            Ev::New { id, classes, features } => {
                                told.insert(id, (classes, features, BTreeMap::new()));
                            }
                            Ev::Update { id, rows, class } => match told.get_mut(&id) {
                                Some(t) => t.2.entry(class).or_default().push(rows),
                                None => fail!("not-own-data", "{}: an old distribution was updated", what),
                            },
                            v => fail!("not-own-data", "{}: asked {:?}", what, v),
                        }
                    }
                    let mut want: BTreeMap<usize, Rows> = BTreeMap::new();
                    for (r, k) in rows(&x).into_iter().zip(&ys) {
                        want.entry(*k).or_default().push(r);
                    }
                    let right = told.iter().find(|(_, t)| t.0 == q && t.1 == d && t.2.len() == want.len() && want.iter().all(|(k, w)| t.2.get(k).map(|u| u.len() == 1 && sorted(u[0].clone()) == sorted(w.clone())).unwrap_or(false)));
                    match right {
                        Some((id, _)) => {
                            let prior: Vec<f64> = (0..q).map(|k| ys.iter().filter(|y| **y == k).count() as f64 / n as f64).collect();
                            live = Some((*id, d, prior));
                        }
                        None => fail!("not-own-data", "{}: no distribution was built for {} classes of {} features and told each class's rows once: {:?}", what, q, d, told),
                    }
                    done += 1;
                }
                End::Err(_) | End::Panic(_) if bad => {}
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        } else if let Some((id, d, prior)) = live.clone() {
            let n = size(c);
            let x = some_rows(c, n, d);
            let q = prior.len();
            let scores = c.chance(1, 3);
            c.note(|| format!("naive Bayes: {} about {} rows", if scores { "scores" } else { "ask" }, n));
            let (e, plan, fired, ev) = call(c, &[Act::Panic, Act::Err], 2, || if scores { m.get_log_probs(&x) } else { m.predict(&x) });
            let what = format!("Naive Bayes of {} classes asked about {} rows", q, n);
            settle!(e, plan, fired, what);
            for v in &ev {
                match v {
                    Ev::Score { id: i, rows: r, prior: p, .. } => {
                        ensure!(*i == id, "not-own-part", "{}: it asked another distribution than it trained", what);
                        ensure!(p.len() == q && p.iter().zip(&prior).all(|(a, b)| close(*a, *b, 1e-12)), "wrong-prior", "{}: priors {:?}, the classes' shares are {:?}", what, p, prior);
                        let all = sorted(rows(&x));
                        ensure!(r.iter().all(|r| all.binary_search(&bits(r)).is_ok()), "not-own-data", "{}: asked about other rows", what);
                    }
                    v => fail!("not-own-data", "{}: {:?}", what, v),
                }
            }
            match e {
                End::Ok(a) => {
                    ensure!(a.rows() == n && a.cols() == q, "shape", "{}: {}x{} answers", what, a.rows(), a.cols());
                    for (r, a) in rows(&x).iter().zip(rows(&a)) {
                        let s: Vec<f64> = (0..q).map(|k| score(id, r, k)).collect();
                        if scores {
                            ensure!(bits(&s) == bits(&a), "made-up", "{}: scores {:?}, the distribution said {:?}", what, a, s);
                        } else {
                            let best = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                            ensure!(a.iter().filter(|v| **v != 0.0).count() == 1 && (0..q).all(|k| a[k] == 0.0 || a[k] == 1.0 && s[k] == best), "made-up", "{}: answered {:?} for scores {:?}", what, a, s);
                        }
                    }
                    c.hit("probe.answers_checked");
                    done += 1;
                }
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        }
    }
    c.nontrivial = done >= 2;
    c.sample = Some(format!("naive Bayes, {} successful calls", done));
    Ok(())
}

// -------------------------------------------------------- nearest neighbours

#[derive(Debug, Default)]
struct Finder {
    n: usize,
    most: u64,
}
impl KNearestSearch for Finder {
    fn build(&mut self, data: Matrix<f64>) {
        call_point();
        outside(|| {
            self.n = data.rows();
            log(Ev::Build { rows: rows(&data) });
        })
    }
    fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
        let act = call_point();
        outside(|| {
            let result = if act == Some(Act::Err) { None } else { Some(found(point, self.n, self.most)) };
            log(Ev::Search { point: point.to_vec(), k, result: result.clone() });
            match result {
                Some(r) => {
                    let d = (0..r.len()).map(|i| i as f64).collect();
                    Ok((r, d))
                }
                None => failed(),
            }
        })
    }
}
/// Any rows, some more than once.
fn found(point: &[f64], n: usize, most: u64) -> Vec<usize> {
    let h = key(salt(), point);
    (0..1 + mix2(h, 1) % most.max(1)).map(|i| (mix2(h, 2 + i) % n.max(1) as u64) as usize).collect()
}

fn neighbours(c: &mut Ctx) -> Verdict {
    SALT.with(|s| s.set(c.below(1 << 40)));
    let k = if c.chance(1, 5) { c.urange(7, 40) } else { c.urange(1, 6) };
    let most = if c.chance(1, 10) { 300 } else { c.range(1, 9) };
    let mut m = KNNClassifier::new_specified(k, Finder { n: 0, most });
    let mut live: Option<(usize, Vec<usize>)> = None;
    let mut done = 0;
    for _ in 0..c.urange(2, 6) {
        if live.is_none() || c.chance(1, 2) {
            let (n, d, q) = (size(c) + if c.chance(4, 5) { k / 7 * 6 } else { 0 }, c.urange(1, 4), if c.chance(1, 10) { 40 } else { c.range(1, 4) });
            let x = lessons(c, n, d, k);
            let (n, d) = (x.rows(), x.cols());
            let mut b = answers(c);
            let shift = if b.below(4) == 0 { b.next() >> 1 } else { b.below(3) };
            let ys: Vec<usize> = (0..n).map(|_| (shift + b.below(q)) as usize).collect();
            c.case(mix2(n as u64, mix2(d as u64, q)));
            c.note(|| format!("nearest neighbours: train on {}x{} labelled {:?}", n, d, ys));
            let y = Vector::new(ys.clone());
            let (e, plan, fired, ev) = call(c, &[Act::Panic], 2, || m.train(&x, &y));
            let what = format!("{}-nearest neighbours trained on {}x{}", k, n, d);
            settle!(e, plan, fired, what);
            match e {
                End::Ok(()) => {
                    ensure!(n >= k, "accepted", "{}: too few rows were accepted", what);
                    match ev.last() {
                        Some(Ev::Build { rows: r }) => ensure!(r.iter().map(|r| bits(r)).collect::<Vec<_>>() == rows(&x).iter().map(|r| bits(r)).collect::<Vec<_>>(), "not-own-data", "{}: the search structure was built of {:?}, not of {:?}", what, r, rows(&x)),
                        o => fail!("not-own-data", "{}: last call was {:?}", what, o),
                    }
                    live = Some((d, ys));
                    done += 1;
                }
                End::Err(_) if n < k => {}
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                // a structure that failed while it was built is not asked any more
                _ => live = None,
            }
        } else if let Some((d, ys)) = live.clone() {
            let n = size(c);
            let x = some_rows(c, n, d);
            c.note(|| format!("nearest neighbours: ask about {} rows", n));
            let (e, plan, fired, ev) = call(c, &[Act::Panic, Act::Err], n as u64, || m.predict(&x));
            let what = format!("{}-nearest neighbours of {} rows asked about {} rows", k, ys.len(), n);
            settle!(e, plan, fired, what);
            let all = sorted(rows(&x));
            for v in &ev {
                match v {
                    Ev::Search { point, k: kk, .. } => {
                        ensure!(*kk == k, "wrong-k", "{}: searched for {} neighbours", what, kk);
                        ensure!(all.binary_search(&bits(point)).is_ok(), "not-own-data", "{}: searched near {:?}", what, point);
                    }
                    v => fail!("not-own-data", "{}: {:?}", what, v),
                }
            }
            match e {
                End::Ok(a) => {
                    ensure!(a.size() == n, "shape", "{}: {} answers", what, a.size());
                    for (r, a) in rows(&x).iter().zip(a.data()) {
                        let f = found(r, ys.len(), most);
                        let mut votes: BTreeMap<usize, usize> = BTreeMap::new();
                        for i in &f {
                            *votes.entry(ys[*i]).or_default() += 1;
                        }
                        let top = votes.values().max().cloned().unwrap_or(0);
                        ensure!(votes.get(a) == Some(&top), "made-up", "{}: answered {} where the neighbours' labels are {:?}", what, a, f.iter().map(|i| ys[*i]).collect::<Vec<_>>());
                    }
                    c.hit("probe.answers_checked");
                    done += 1;
                }
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        }
    }
    c.nontrivial = done >= 2;
    c.sample = Some(format!("{}-nearest neighbours, {} successful calls", k, done));
    Ok(())
}

// --------------------------------------------------------- Gaussian process

#[derive(Clone, Copy, Debug)]
struct Ker {
    style: u64,
    a: f64,
}
impl Ker {
    fn value(&self, a: &[f64], b: &[f64]) -> f64 {
        let d: f64 = a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum();
        match self.style {
            0 => self.a * (-d).exp(),
            1 => self.a * (-d.sqrt()).exp(),
            2 => self.a + a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>(),
            _ => self.a,
        }
    }
}
impl Kernel for Ker {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        let act = call_point();
        outside(|| log(Ev::Kernel { a: a.to_vec(), b: b.to_vec() }));
        match act {
            Some(Act::Nan) => f64::NAN,
            _ => outside(|| self.value(a, b)),
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Mean(f64, f64);
impl Mean {
    fn value(&self, r: &[f64]) -> f64 {
        self.0 + self.1 * r.iter().enumerate().map(|(j, x)| x * (j as f64 + 1.0)).sum::<f64>()
    }
}
impl MeanFunc for Mean {
    fn func(&self, x: Matrix<f64>) -> Vector<f64> {
        call_point();
        outside(|| {
            log(Ev::Mean { rows: rows(&x) });
            Vector::new(rows(&x).iter().map(|r| self.value(r)).collect::<Vec<_>>())
        })
    }
}
/// Lower Cholesky factor of a positive definite matrix.
fn cholesky(a: &[Vec<f64>]) -> Option<Rows> {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = a[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>();
            if i == j {
                if s.is_nan() || s <= 0.0 {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}
fn lower(l: &[Vec<f64>], b: &[f64]) -> Vec<f64> {
    let mut x = b.to_vec();
    for i in 0..x.len() {
        for k in 0..i {
            x[i] -= l[i][k] * x[k];
        }
        x[i] /= l[i][i];
    }
    x
}
fn upper(l: &[Vec<f64>], b: &[f64]) -> Vec<f64> {
    let mut x = b.to_vec();
    for i in (0..x.len()).rev() {
        for k in i + 1..x.len() {
            x[i] -= l[k][i] * x[k];
        }
        x[i] /= l[i][i];
    }
    x
}

fn process(c: &mut Ctx) -> Verdict {
    let (k1, k2) = (Ker { style: c.below(4), a: 0.5 + c.below(4) as f64 }, Ker { style: c.below(4), a: 0.25 + c.below(3) as f64 });
    let noise = *c.pick(&[0.1, 0.5, 2.0, 0.1, 0.5, 1e-3, 1e-7, 0.0]);
    let mean = Mean(c.below(5) as f64 - 2.0, c.below(3) as f64 - 1.0);
    match c.below(5) {
        0 => gp(c, GaussianProcess::new(k1, mean, noise), noise, &|a, b| k1.value(a, b), &|r| mean.value(r)),
        1 => gp(c, GaussianProcess::new(KernelArith(k1) + KernelArith(k2), mean, noise), noise, &|a, b| k1.value(a, b) + k2.value(a, b), &|r| mean.value(r)),
        2 => gp(c, GaussianProcess::new(KernelArith(k1) * KernelArith(k2), mean, noise), noise, &|a, b| k1.value(a, b) * k2.value(a, b), &|r| mean.value(r)),
        3 => gp(c, GaussianProcess::new(KernelArith(KernelArith(k1) * KernelArith(k2)) + KernelArith(k1), mean, noise), noise, &|a, b| k1.value(a, b) * k2.value(a, b) + k1.value(a, b), &|r| mean.value(r)),
        _ => gp(c, GaussianProcess::new(k1, ConstMean::default(), noise), noise, &|a, b| k1.value(a, b), &|_| 0.0),
    }
}

fn gp<K: Kernel, U: MeanFunc>(c: &mut Ctx, mut m: GaussianProcess<K, U>, mut noise: f64, k: &dyn Fn(&[f64], &[f64]) -> f64, mu: &dyn Fn(&[f64]) -> f64) -> Verdict {
    struct Live {
        x: Rows,
        l: Rows,
        alpha: Vec<f64>,
        d: usize,
        /// how much rounding matters
        cond: f64,
    }
    let mut live: Option<Live> = None;
    let mut done = 0;
    for _ in 0..c.urange(2, 6) {
        if live.is_none() || c.chance(1, 2) {
            let (n, d) = (size(c).min(40), width(c, 4));
            let x = lessons(c, n, d, 1);
            let (n, d) = (x.rows(), x.cols());
            let mut b = answers(c);
            let ys: Vec<f64> = (0..n).map(|_| 3.0 * b.normal()).collect();
            if c.chance(1, 4) {
                noise = *c.pick(&[0.05, 0.2, 1.0, 3.0]);
                m.noise = noise;
            }
            c.case(mix2(n as u64, mix2(d as u64, noise.to_bits())));
            c.note(|| format!("Gaussian process: train on {}x{}", n, d));
            let y = Vector::new(ys.clone());
            let (e, plan, fired, ev) = call(c, &[Act::Panic, Act::Nan], (n * n) as u64 + 1, || m.train(&x, &y));
            let what = format!("Gaussian process trained on {}x{}", n, d);
            settle!(e, plan, fired, what);
            let all = sorted(rows(&x));
            for v in &ev {
                match v {
                    Ev::Kernel { a, b } => ensure!(all.binary_search(&bits(a)).is_ok() && all.binary_search(&bits(b)).is_ok(), "not-own-data", "{}: kernel of {:?} and {:?}, not rows of it", what, a, b),
                    Ev::Mean { rows: r } => ensure!(r.iter().all(|r| all.binary_search(&bits(r)).is_ok()), "not-own-data", "{}: mean of {:?}", what, r),
                    _ => {}
                }
            }
            let xs = rows(&x);
            let reference = || {
                let g: Rows = (0..n).map(|i| (0..n).map(|j| k(&xs[i], &xs[j]) + if i == j { noise } else { 0.0 }).collect()).collect();
                let l = cholesky(&g)?;
                let most = (0..n).map(|i| g[i][i]).fold(0.0, f64::max);
                let least = (0..n).map(|i| l[i][i] * l[i][i]).fold(f64::INFINITY, f64::min);
                if most > 1e7 * least { None } else { Some((l, most / least)) }
            };
            match e {
                End::Ok(()) if fired == 0 => {
                    let (l, cond) = match reference() {
                        Some(l) => l,
                        None => {
                            live = None;
                            continue;
                        }
                    };
                    let r: Vec<f64> = ys.iter().zip(&xs).map(|(y, x)| y - mu(x)).collect();
                    let alpha = upper(&l, &lower(&l, &r));
                    live = Some(Live { x: xs, l, alpha, d, cond });
                    done += 1;
                }
                End::Err(s) | End::Panic(s) if fired == 0 => {
                    if reference().is_some() {
                        fail!("refused", "{}: {}", what, s)
                    }
                }
                // it may have learned something odd from a kernel's NaN
                End::Ok(()) => live = None,
                _ => {}
            }
        } else if let Some(l) = &live {
            let n = size(c).min(40);
            let x = some_rows(c, n, l.d);
            let full = c.chance(1, 2);
            c.note(|| format!("Gaussian process: {} of {} rows", if full { "posterior" } else { "mean" }, n));
            let acts: &[Act] = if full { &[Act::Panic] } else { &[Act::Panic, Act::Nan] };
            let (e, plan, fired, ev) = call(c, acts, (n * l.x.len()) as u64 + 1, || if full { m.get_posterior(&x) } else { m.predict(&x).map(|v| (v, Matrix::zeros(0, 0))) });
            let eps = 1e-8f64.max(1e-13 * l.cond * l.x.len() as f64);
            let what = format!("Gaussian process of {} rows asked for the {} of {} rows", l.x.len(), if full { "posterior" } else { "mean" }, n);
            settle!(e, plan, fired, what);
            let xs = rows(&x);
            let mut all: Vec<Bits> = sorted(xs.clone());
            all.extend(sorted(l.x.clone()));
            all.sort();
            for v in &ev {
                match v {
                    Ev::Kernel { a, b } => ensure!(all.binary_search(&bits(a)).is_ok() && all.binary_search(&bits(b)).is_ok(), "not-own-data", "{}: kernel of {:?} and {:?}", what, a, b),
                    Ev::Mean { rows: r } => ensure!(r.iter().all(|r| all.binary_search(&bits(r)).is_ok()), "not-own-data", "{}: mean of {:?}", what, r),
                    _ => {}
                }
            }
            match e {
                End::Ok((v, w)) if fired == 0 => {
                    ensure!(v.size() == n, "shape", "{}: {} answers", what, v.size());
                    let ks: Rows = xs.iter().map(|r| l.x.iter().map(|t| k(r, t)).collect()).collect();
                    for i in 0..n {
                        let want = mu(&xs[i]) + ks[i].iter().zip(&l.alpha).map(|(a, b)| a * b).sum::<f64>();
                        let scale: f64 = ks[i].iter().zip(&l.alpha).map(|(a, b)| (a * b).abs()).sum();
                        ensure!((v[i] - want).abs() <= eps * (1.0 + scale + want.abs()), "made-up", "{}: mean {} of row {:?}, its kernel and mean give {}", what, v[i], xs[i], want);
                    }
                    if full {
                        ensure!(w.rows() == n && w.cols() == n, "shape", "{}: covariance is {}x{}", what, w.rows(), w.cols());
                        let vs: Rows = ks.iter().map(|r| lower(&l.l, r)).collect();
                        for i in 0..n {
                            for j in 0..n {
                                let want = k(&xs[i], &xs[j]) - vs[i].iter().zip(&vs[j]).map(|(a, b)| a * b).sum::<f64>();
                                let scale = k(&xs[i], &xs[i]).abs() + k(&xs[j], &xs[j]).abs();
                                ensure!((w[[i, j]] - want).abs() <= eps * (1.0 + scale), "made-up", "{}: covariance {} of rows {} and {}, the kernel gives {}", what, w[[i, j]], i, j, want);
                            }
                        }
                        c.hit("probe.posteriors_checked");
                    }
                    c.hit("probe.answers_checked");
                    done += 1;
                }
                End::Err(s) | End::Panic(s) if fired == 0 => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        }
    }
    c.nontrivial = done >= 2;
    c.sample = Some(format!("Gaussian process with noise {}, {} successful calls", noise, done));
    Ok(())
}

// --------------------------------------------------- regression by optimiser

/// Looks around, then answers what it likes.
#[derive(Clone, Copy, Debug)]
struct Opt;
impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Vector<f64>>> OptimAlgorithm<M> for Opt {
    fn optimize(&self, m: &M, start: &[f64], x: &Matrix<f64>, y: &Vector<f64>) -> Vec<f64> {
        call_point();
        let mut costs = Vec::new();
        let h = mix2(salt(), hash_str(&format!("{:?}", start.len())));
        for t in 0..mix2(h, 1) % 4 {
            let w: Vec<f64> = if t == 0 { start.to_vec() } else { (0..start.len() as u64).map(|i| (4.0 * unit(mix2(mix2(h, t), i)) - 2.0) * if mix2(h, 3) % 4 == 0 { 12.0 } else { 1.0 }).collect() };
            let (f, g) = m.compute_grad(&w, x, y);
            costs.push((w, f, g));
            call_point();
        }
        let result: Vec<f64> = (0..start.len() as u64).map(|i| match mix2(h, 100 + i) % 40 {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => -0.0,
            3 => 1e300,
            _ => 6.0 * unit(mix2(h, 200 + i)) - 3.0,
        }).collect();
        outside(|| log(Ev::Optimise { start: start.to_vec(), x: mb(x), y: bits(y.data()), result: result.clone(), costs }));
        result
    }
}
fn sigmoid(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}

fn logistic(c: &mut Ctx) -> Verdict {
    let mut m = LogisticRegressor::new(Opt);
    let mut live: Option<Vec<f64>> = None;
    let mut starts: BTreeMap<usize, Bits> = BTreeMap::new();
    let mut done = 0;
    for _ in 0..c.urange(2, 6) {
        SALT.with(|s| s.set(c.below(1 << 40)));
        if live.is_none() || c.chance(1, 2) {
            let (n, d) = (size(c), width(c, 4));
            let x = lessons(c, n, d, 1);
            let (n, d) = (x.rows(), x.cols());
            let mut b = answers(c);
            let ys: Vec<f64> = (0..n).map(|_| if b.below(5) == 0 { b.f64() } else { b.below(2) as f64 }).collect();
            c.case(mix2(n as u64, d as u64));
            c.note(|| format!("logistic regression: train on {}x{}", n, d));
            let y = Vector::new(ys.clone());
            let (e, plan, fired, ev) = call(c, &[Act::Panic], 4, || m.train(&x, &y));
            let what = format!("logistic regression trained on {}x{}", n, d);
            settle!(e, plan, fired, what);
            match e {
                End::Ok(()) => {
                    ensure!(ev.len() == 1, "not-own-data", "{}: the optimiser was called {} times", what, ev.len());
                    let full: Vec<f64> = rows(&x).iter().flat_map(|r| std::iter::once(1.0).chain(r.iter().cloned()).collect::<Vec<_>>()).collect();
                    if let Some(Ev::Optimise { start, x: gx, y: gy, result, costs }) = ev.first() {
                        ensure!(*gx == (n, d + 1, bits(&full)), "not-own-data", "{}: the optimiser was given {}x{} inputs, not its rows with a leading one", what, gx.0, gx.1);
                        ensure!(*gy == bits(&ys), "not-own-data", "{}: the optimiser was given other targets", what);
                        ensure!(start.len() == d + 1 && start.iter().all(|s| s.is_finite()), "wrong-start", "{}: start {:?}", what, start);
                        let known = starts.entry(d).or_insert_with(|| bits(start));
                        ensure!(*known == bits(start), "wrong-start", "{}: another start than earlier trainings of this width: {:?}", what, start);
                        for (w, f, g) in costs {
                            let h: Vec<f64> = (0..n).map(|i| sigmoid((0..=d).map(|j| full[i * (d + 1) + j] * w[j]).sum())).collect();
                            let want = -(0..n).map(|i| ys[i] * h[i].ln() + (1.0 - ys[i]) * (1.0 - h[i]).ln()).sum::<f64>() / n as f64;
                            // next to one, what is left to one is rounding
                            let blur = (0..n).map(|i| (1.0 - ys[i]) * 1e-14 / (1.0 - h[i])).sum::<f64>() / n as f64;
                            if want.is_finite() && blur < 0.1 {
                                ensure!((f - want).abs() <= blur + 1e-9 * (1.0 + want.abs()), "wrong-cost", "{}: cost {} of parameters {:?}, cross entropy is {}", what, f, w, want);
                            }
                            ensure!(g.len() == d + 1, "wrong-cost", "{}: a gradient of {} entries", what, g.len());
                            for j in 0..=d {
                                let want = (0..n).map(|i| full[i * (d + 1) + j] * (h[i] - ys[i])).sum::<f64>() / n as f64;
                                ensure!(close(g[j], want, 1e-9), "wrong-cost", "{}: gradient {:?} of parameters {:?}, entry {} should be {}", what, g, w, j, want);
                            }
                        }
                        let p = m.parameters().map(|v| v.data().clone()).unwrap_or_default();
                        ensure!(bits(&p) == bits(result), "not-adopted", "{}: the optimiser returned {:?}, the parameters are {:?}", what, result, p);
                        live = Some(result.clone());
                    }
                    done += 1;
                }
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        } else if let Some(w) = live.clone() {
            let n = size(c);
            let x = some_rows(c, n, w.len() - 1);
            let (e, plan, fired, ev) = call(c, &[], 0, || m.predict(&x));
            let what = format!("logistic regression with parameters {:?} asked about {} rows", w, n);
            settle!(e, plan, fired, what);
            ensure!(ev.is_empty(), "not-own-data", "{}: it called the optimiser", what);
            match e {
                End::Ok(v) => {
                    ensure!(v.size() == n, "shape", "{}: {} answers", what, v.size());
                    for (r, a) in rows(&x).iter().zip(v.data()) {
                        let z = w[0] + r.iter().zip(&w[1..]).map(|(a, b)| a * b).sum::<f64>();
                        let size = w[0].abs() + r.iter().zip(&w[1..]).map(|(a, b)| (a * b).abs()).sum::<f64>();
                        if size.is_finite() {
                            // the sum is known to within its rounding
                            let t = size * 1e-13;
                            ensure!(*a >= sigmoid(z - t) - 1e-12 && *a <= sigmoid(z + t) + 1e-12, "made-up", "{}: {} for {:?}, where the sum is {}", what, a, r, z);
                        } else if z.is_nan() {
                            ensure!(a.is_nan(), "made-up", "{}: {} for {:?}", what, a, r);
                        }
                    }
                    c.hit("probe.answers_checked");
                    done += 1;
                }
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        }
    }
    c.nontrivial = done >= 2;
    c.sample = Some(format!("logistic regression by a user-supplied optimiser, {} successful calls", done));
    Ok(())
}

/// A linear model offers its cost to any optimiser.
fn linear(c: &mut Ctx) -> Verdict {
    SALT.with(|s| s.set(c.below(1 << 40)));
    let (n, d) = (size(c), width(c, 4));
    let x = some_rows(c, n, d);
    let mut b = c.bulk();
    let ys: Vec<f64> = (0..n).map(|_| b.normal()).collect();
    let y = Vector::new(ys.clone());
    let mut m = LinRegressor::default();
    if c.chance(1, 2) && n > d + 2 {
        // its own training doesn't matter to the cost
        let _ = call(c, &[], 0, || m.train(&x, &y));
    }
    let start = vec![0.25; d];
    c.case(mix2(n as u64, d as u64));
    let (_, _, fired, ev) = call(c, &[Act::Panic], 3, || Ok(Opt.optimize(&m, &start, &x, &y)));
    for v in &ev {
        if let Ev::Optimise { costs, .. } = v {
            for (w, f, g) in costs {
                let r: Vec<f64> = rows(&x).iter().zip(&ys).map(|(r, y)| r.iter().zip(w).map(|(a, b)| a * b).sum::<f64>() - y).collect();
                let want = r.iter().map(|v| v * v).sum::<f64>() / (2.0 * n as f64);
                ensure!(close(*f, want, 1e-9), "wrong-cost", "linear regression: cost {} of parameters {:?}, half the mean square is {}", f, w, want);
                for j in 0..d {
                    let want = (0..n).map(|i| x[[i, j]] * r[i]).sum::<f64>() / n as f64;
                    ensure!(close(g[j], want, 1e-9), "wrong-cost", "linear regression: gradient {:?} of parameters {:?}, entry {} should be {}", g, w, j, want);
                }
                c.hit("probe.answers_checked");
            }
        }
    }
    c.nontrivial = fired == 0;
    Ok(())
}

// ------------------------------------------------- generalised linear models

trait Family: LinkFunc + Debug + Clone + Copy + Default {
    const NAME: &'static str;
    fn variance(mu: f64) -> f64;
    /// a target for a linear predictor
    fn target(eta: f64, h: u64) -> f64;
    fn begin(y: f64) -> f64 {
        y
    }
}
macro_rules! family {
    ($n:ident, $f:expr, $g:expr, $i:expr, $v:expr, $t:expr, $b:expr) => {
        #[derive(Debug, Clone, Copy, Default)]
        struct $n;
        impl LinkFunc for $n {
            fn func(x: f64) -> f64 {
                $f(x)
            }
            fn func_grad(x: f64) -> f64 {
                $g(x)
            }
            fn func_inv(x: f64) -> f64 {
                $i(x)
            }
        }
        impl Family for $n {
            const NAME: &'static str = stringify!($n);
            fn variance(mu: f64) -> f64 {
                $v(mu)
            }
            fn target(eta: f64, h: u64) -> f64 {
                $t(eta, h)
            }
            fn begin(y: f64) -> f64 {
                $b(y)
            }
        }
    };
}
family!(Twice, |x: f64| 2.0 * x, |_| 2.0, |e: f64| e / 2.0, |_| 1.0, |e: f64, h| e / 2.0 + unit(h) - 0.5, |y| y);
family!(Gamma, |x: f64| x.ln(), |x: f64| 1.0 / x, |e: f64| e.exp(), |m: f64| m * m, |e: f64, h| e.exp() * (0.5 + unit(h)), |y| y);
family!(Counts, |x: f64| x.ln(), |x: f64| 1.0 / x, |e: f64| e.exp(), |m: f64| m, |e: f64, h| (e.exp() * 2.0 * unit(h)).round(), |y| y + 0.1);
family!(Chance, |x: f64| (x / (1.0 - x)).ln(), |x: f64| 1.0 / (x * (1.0 - x)), |e: f64| 1.0 / (1.0 + (-e).exp()), |m: f64| m * (1.0 - m), |e: f64, h| (unit(h) < 1.0 / (1.0 + (-e).exp())) as u64 as f64, |y: f64| (y + 0.5) / 2.0);
family!(Root, |x: f64| x.sqrt(), |x: f64| 0.5 / x.sqrt(), |e: f64| e * e, |m: f64| m, |e: f64, h| (1.0 + e.abs()) * (0.7 + 0.6 * unit(h)), |y| y);

/// Rows count for more or less.
#[derive(Debug)]
struct Crit<F: Family>(F, bool);
impl<F: Family> glm::Criterion for Crit<F> {
    type Link = F;
    fn model_variance(&self, mu: f64) -> f64 {
        F::variance(mu)
    }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
        call_point();
        outside(|| {
            log(Ev::Mu { y: bits(y) });
            y.iter().map(|y| F::begin(*y)).collect()
        })
    }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
        let act = call_point();
        outside(|| {
            log(Ev::Weight { n: mu.len() });
            if act == Some(Act::Nan) {
                return vec![f64::NAN; mu.len()];
            }
            let p = WEIGHTS.with(|w| w.borrow().clone());
            mu.iter().enumerate().map(|(i, m)| {
                let g = F::func_grad(*m);
                (if self.1 { p.get(i).cloned().unwrap_or(1.0) } else { 1.0 }) / (F::variance(*m) * g * g)
            }).collect()
        })
    }
    fn compute_y_bar(&self, y: &[f64], mu: &[f64]) -> Vec<f64> {
        call_point();
        outside(|| {
            log(Ev::Bar { y: bits(y), n: mu.len() });
            y.iter().zip(mu).map(|(y, m)| F::func_grad(*m) * (y - m)).collect()
        })
    }
}
/// The provided families, given through the same interface.
fn general(c: &mut Ctx) -> Verdict {
    match c.below(9) {
        0 => glm_of::<Twice, _>(c, |p| Crit(Twice, p), true, Twice::begin),
        1 => glm_of::<Gamma, _>(c, |p| Crit(Gamma, p), true, Gamma::begin),
        2 => glm_of::<Counts, _>(c, |p| Crit(Counts, p), true, Counts::begin),
        3 => glm_of::<Chance, _>(c, |p| Crit(Chance, p), true, Chance::begin),
        4 => glm_of::<Root, _>(c, |p| Crit(Root, p), true, Root::begin),
        5 => glm_of::<Twice, _>(c, |_| Plain(Twice), false, |y| y),
        6 => glm_of::<Counts, _>(c, |_| glm::Poisson, false, |y| y.max(1e-10)),
        7 => glm_of::<Chance, _>(c, |_| glm::Bernoulli, false, |y| (y + 0.5) / 2.0),
        _ => glm_of::<Gamma, _>(c, |_| Plain(Gamma), false, |y| y),
    }
}
/// Everything by default but the variance.
#[derive(Debug)]
struct Plain<F: Family>(F);
impl<F: Family> glm::Criterion for Plain<F> {
    type Link = F;
    fn model_variance(&self, mu: f64) -> f64 {
        call_point();
        F::variance(mu)
    }
}

/// Solve a small linear system with pivoting; also a measure of its condition.
fn solve(mut a: Rows, mut b: Vec<f64>) -> Option<(Vec<f64>, f64)> {
    let n = b.len();
    let scale = a.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let mut least = f64::INFINITY;
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[*x][i].abs().partial_cmp(&a[*y][i].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        a.swap(i, p);
        b.swap(i, p);
        least = least.min(a[i][i].abs());
        if a[i][i].is_nan() || a[i][i] == 0.0 {
            return None;
        }
        for k in i + 1..n {
            let f = a[k][i] / a[i][i];
            for j in i..n {
                a[k][j] -= f * a[i][j];
            }
            b[k] -= f * b[i];
        }
    }
    for i in (0..n).rev() {
        for k in i + 1..n {
            b[i] -= a[i][k] * b[k];
        }
        b[i] /= a[i][i];
    }
    Some((b, scale / least))
}

/// Iteratively reweighted least squares; how many steps it took, when it
/// settles and the equations are sound.
fn irls<F: Family>(x: &[Vec<f64>], y: &[f64], p: &[f64], begin: fn(f64) -> f64) -> Option<(Vec<f64>, usize)> {
    let d = x[0].len();
    let mut mu: Vec<f64> = y.iter().map(|y| begin(*y)).collect();
    let mut eta: Vec<f64> = mu.iter().map(|m| F::func(*m)).collect();
    let mut beta = vec![0.0; d];
    for t in 0..8 {
        let mut a = vec![vec![0.0; d]; d];
        let mut b = vec![0.0; d];
        for i in 0..x.len() {
            let g = F::func_grad(mu[i]);
            let w = p[i] / (F::variance(mu[i]) * g * g);
            let z = eta[i] + g * (y[i] - mu[i]);
            for j in 0..d {
                b[j] += w * x[i][j] * z;
                for k in 0..d {
                    a[j][k] += w * x[i][j] * x[i][k];
                }
            }
        }
        let (new, cond) = solve(a, b)?;
        if cond.is_nan() || cond > 1e4 || new.iter().any(|v| v.is_nan() || v.abs() > 30.0) {
            return None;
        }
        let diff: f64 = new.iter().zip(&beta).map(|(a, b)| (a - b).abs()).sum();
        beta = new;
        eta = x.iter().map(|r| r.iter().zip(&beta).map(|(a, b)| a * b).sum()).collect();
        mu = eta.iter().map(|e| F::func_inv(*e)).collect();
        if t > 0 && diff < 1e-9 {
            // far out, means and weights are limited
            let far = match F::NAME {
                "Chance" => eta.iter().any(|e| e.abs() > 9.0),
                "Root" => eta.iter().any(|e| *e < 0.1),
                "Twice" => false,
                _ => eta.iter().any(|e| e.abs() > 12.0),
            };
            return if far { None } else { Some((beta, t)) };
        }
    }
    None
}

fn glm_of<F: Family, C: glm::Criterion>(c: &mut Ctx, make: impl Fn(bool) -> C, spied: bool, begin: fn(f64) -> f64) -> Verdict {
    let prior = spied && c.chance(1, 2);
    let mut m = GenLinearModel::new(make(prior));
    let mut live: Option<Vec<f64>> = None;
    let mut done = 0;
    for _ in 0..c.urange(2, 5) {
        if live.is_none() || c.chance(1, 2) {
            let d = c.urange(1, 3);
            let n = size(c).max(3 * d + 4);
            let x = lessons(c, n, d, 3 * d + 4);
            let (n, d) = (x.rows(), x.cols());
            let mut b = answers(c);
            let beta: Vec<f64> = (0..=d).map(|_| 0.6 * b.normal()).collect();
            let full: Rows = rows(&x).iter().map(|r| std::iter::once(1.0).chain(r.iter().cloned()).collect()).collect();
            let ys: Vec<f64> = full.iter().map(|r| F::target(r.iter().zip(&beta).map(|(a, b)| a * b).sum(), b.next())).collect();
            let ys = if b.below(10) == 0 {
                // all but a few where the linear predictor is nought
                let few = 1 + b.below(2) as usize;
                ys.iter().enumerate().map(|(i, y)| if i % n < few { if b.below(2) == 0 { F::target(-20.0, 0) } else { *y } } else { F::func_inv(if F::NAME == "Root" { 1.0 } else { 0.0 }) }).collect()
            } else {
                ys
            };
            let p: Vec<f64> = (0..n).map(|_| if prior { 0.25 + b.f64() } else { 1.0 }).collect();
            WEIGHTS.with(|w| *w.borrow_mut() = p.clone());
            c.case(mix2(n as u64, mix2(d as u64, hash_str(F::NAME))));
            c.note(|| format!("{} model{}: train on {}x{} {:?}", F::NAME, if prior { " of weighted rows" } else { "" }, n, d, ys));
            let y = Vector::new(ys.clone());
            let (e, plan, fired, ev) = call(c, if spied { &[Act::Panic, Act::Nan] } else { &[] }, 8, || m.train(&x, &y));
            let what = format!("generalised linear model {} trained on {}x{}", F::NAME, n, d);
            settle!(e, plan, fired, what);
            for v in &ev {
                match v {
                    Ev::Mu { y } | Ev::Bar { y, .. } if *y != bits(&ys) => fail!("not-own-data", "{}: asked for {:?}", what, v),
                    Ev::Bar { n: k, .. } | Ev::Weight { n: k } if *k != n => fail!("not-own-data", "{}: asked for {} means", what, k),
                    _ => {}
                }
            }
            live = match e {
                End::Ok(()) if fired == 0 => {
                    done += 1;
                    match irls::<F>(&full, &ys, &p, begin) {
                        Some((beta, t)) if t <= 7 => {
                            c.hit("probe.settled_fits");
                            Some(beta)
                        }
                        _ => {
                            c.hit("probe.unsettled_fits");
                            None
                        }
                    }
                }
                End::Err(s) | End::Panic(s) if fired == 0 => {
                    if irls::<F>(&full, &ys, &p, begin).is_some() {
                        fail!("refused", "{}: {}", what, s)
                    }
                    live
                }
                End::Ok(()) => None,
                _ => live,
            };
        } else if let Some(w) = live.clone() {
            let n = size(c);
            let x = some_rows(c, n, w.len() - 1);
            let (e, plan, fired, _) = call(c, &[], 0, || m.predict(&x));
            let what = format!("generalised linear model {} asked about {} rows", F::NAME, n);
            settle!(e, plan, fired, what);
            match e {
                End::Ok(v) => {
                    ensure!(v.size() == n, "shape", "{}: {} answers", what, v.size());
                    for (r, a) in rows(&x).iter().zip(v.data()) {
                        let eta = w[0] + r.iter().zip(&w[1..]).map(|(a, b)| a * b).sum::<f64>();
                        let want = F::func_inv(eta);
                        ensure!((a - want).abs() <= 1e-6 * (1.0 + want.abs()), "unsettled", "{}: {} for {:?}, the parameters that balance its equations ({:?}) give {}", what, a, r, w, want);
                    }
                    c.hit("probe.answers_checked");
                    done += 1;
                }
                End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
                _ => {}
            }
        }
    }
    c.nontrivial = done >= 2;
    c.sample = Some(format!("{} model, {} successful calls", F::NAME, done));
    Ok(())
}

// ------------------------------------------------------- starts and norms

#[derive(Debug)]
struct Init;
impl Initializer for Init {
    fn init_centroids(&self, k: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        let act = call_point();
        outside(|| {
            let result = if act == Some(Act::Err) { None } else { Some((0..k * x.cols()).map(|i| 4.0 * unit(mix2(salt(), i as u64)) - 2.0).collect::<Vec<f64>>()) };
            log(Ev::Start { k, x: mb(x), result: result.clone().map(|r| vec![r]) });
            match result {
                Some(v) => Ok(Matrix::new(k, x.cols(), v)),
                None => failed(),
            }
        })
    }
}
fn starts(c: &mut Ctx) -> Verdict {
    let k = c.urange(1, 4);
    let mut m = KMeansClassifier::new_specified(k, 0, Init);
    let mut iters = 0;
    let mut done = 0;
    for _ in 0..c.urange(1, 5) {
        SALT.with(|s| s.set(c.below(1 << 40)));
        if c.chance(1, 3) {
            iters = c.urange(0, 5);
            m.set_iters(iters);
        }
        let (n, d) = (size(c).max(k), width(c, 4));
        let x = lessons(c, n, d, k);
        let (n, d) = (x.rows(), x.cols());
        c.case(mix2(n as u64, mix2(d as u64, k as u64)));
        c.note(|| format!("k-means: train on {}x{} with {} iterations", n, d, iters));
        let (e, plan, fired, ev) = call(c, &[Act::Panic, Act::Err], 1, || m.train(&x));
        let what = format!("k-means of {} clusters trained on {}x{} with {} iterations", k, n, d, iters);
        settle!(e, plan, fired, what);
        ensure!(ev.len() <= 1, "not-own-data", "{}: the initializer was called {} times", what, ev.len());
        let mut first = None;
        for v in &ev {
            if let Ev::Start { k: q, x: g, result } = v {
                ensure!(*q == k && *g == mb(&x), "not-own-data", "{}: the initializer was asked for {} centroids of {}x{} other data", what, q, g.0, g.1);
                first = result.as_ref().map(|r| r[0].clone());
            }
        }
        match e {
            End::Ok(()) => {
                let got = m.centroids().as_ref().map(|m| m.data().clone()).unwrap_or_default();
                match first {
                    Some(f) => {
                        if iters == 0 {
                            ensure!(bits(&got) == bits(&f), "not-adopted", "{}: starts {:?} became {:?} in no iteration", what, f, got);
                        }
                        ensure!(got.len() == k * d && got.iter().all(|v| v.is_finite()), "not-adopted", "{}: centroids {:?}", what, got);
                        c.hit("probe.answers_checked");
                    }
                    None => fail!("not-adopted", "{}: the initializer was not asked", what),
                }
                done += 1;
            }
            End::Err(s) | End::Panic(s) => fail!("refused", "{}: {}", what, s),
            _ => {}
        }
    }
    c.nontrivial = done >= 2;
    c.sample = Some(format!("k-means of {} clusters from user-supplied starts, {} trainings", k, done));
    Ok(())
}

/// A weighted sum of magnitudes.
#[derive(Debug)]
struct Weighted;
fn weighted(r: &[f64]) -> f64 {
    r.iter().enumerate().map(|(j, x)| x.abs() * (1.0 + j as f64)).sum()
}
impl<'a> MatrixNorm<f64, MatrixSlice<'a, f64>> for Weighted {
    fn norm(&self, m: &MatrixSlice<'a, f64>) -> f64 {
        let act = call_point();
        outside(|| {
            let r: Vec<f64> = (0..m.rows()).flat_map(|i| (0..m.cols()).map(move |j| m[[i, j]])).collect();
            log(Ev::Norm { rows: vec![r.clone()] });
            match act {
                Some(Act::Nan) => f64::NAN,
                Some(Act::Inf) => f64::INFINITY,
                _ => weighted(&r),
            }
        })
    }
}
fn norms(c: &mut Ctx) -> Verdict {
    let mut t = Normalizer::new(Weighted);
    let mut done = 0;
    for _ in 0..c.urange(1, 4) {
        let (n, d) = (size(c), width(c, 4));
        let mut x = some_rows(c, n, d);
        if c.chance(1, 3) {
            // rows of very different size
            let mut b = c.bulk();
            for i in 0..n {
                let s = 2f64.powi(b.below(600) as i32 - 300);
                for j in 0..d {
                    x[[i, j]] *= s;
                }
            }
        }
        c.case(mix2(n as u64, d as u64));
        let y = x.clone();
        let (e, plan, fired, ev) = call(c, &[Act::Panic, Act::Nan, Act::Inf], n as u64, || t.transform(y));
        let what = format!("Normalizer given {}x{}", n, d);
        settle!(e, plan, fired, what);
        let all = sorted(rows(&x));
        for v in &ev {
            if let Ev::Norm { rows: r } = v {
                ensure!(all.binary_search(&bits(&r[0])).is_ok(), "not-own-data", "{}: it asked for the norm of {:?}", what, r[0]);
            }
        }
        match e {
            End::Ok(z) => {
                ensure!(fired == 0, "failure-lost", "{}: a norm was not finite and it gave {:?}", what, z);
                ensure!(z.rows() == n && z.cols() == d, "shape", "{}: {}x{}", what, z.rows(), z.cols());
                for (a, b) in rows(&x).iter().zip(rows(&z)) {
                    let w = weighted(a);
                    for (p, q) in a.iter().zip(b) {
                        let want = if w == 0.0 { *p } else { p / w };
                        ensure!(close(q, want, 1e-12), "made-up", "{}: {} became {}, the norm of its row is {}", what, p, q, w);
                    }
                }
                c.hit("probe.answers_checked");
                done += 1;
            }
            End::Err(s) | End::Panic(s) if fired == 0 => fail!("refused", "{}: {}", what, s),
            _ => {}
        }
    }
    c.nontrivial = done >= 1;
    Ok(())
}

pub fn parts(c: &mut Ctx) -> Verdict {
    LAST.with(|l| *l.borrow_mut() = None);
    ANSWERS.with(|a| a.set(None));
    match c.below(12) {
        0..=2 => naive_bayes(c),
        3 | 4 => neighbours(c),
        5 | 6 => process(c),
        7 => logistic(c),
        8 => {
            if c.chance(1, 3) {
                linear(c)
            } else {
                norms(c)
            }
        }
        9 => starts(c),
        _ => general(c),
    }
}
