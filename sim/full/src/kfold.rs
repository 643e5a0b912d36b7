//! C08, C09: cross validation.
use crate::util::*;
use dst::prng::{mix2, Prng};
use dst::sched::call_point;
use dst::{ensure, fail, run_solo, stat, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Train { x: Vec<Vec<f64>>, y: Vec<Vec<f64>> },
    Predict { x: Vec<Vec<f64>> },
    Score { out: Vec<Vec<f64>>, y: Vec<Vec<f64>>, gave: f64 },
}

/// A model that writes down what it is given, and fails when told to.
struct Spy<'a> {
    log: &'a RefCell<Vec<Ev>>,
    errs: &'a RefCell<Vec<(String, String)>>,
    state: f64,
    kind: u64,
}

impl<'a> Spy<'a> {
    fn fault(&mut self, at: &str) -> LearningResult<()> {
        match call_point() {
            Some(Act::Err) => {
                let kind = match self.kind % 5 {
                    0 => ErrorKind::InvalidParameters,
                    1 => ErrorKind::InvalidData,
                    2 => ErrorKind::InvalidState,
                    3 => ErrorKind::UntrainedModel,
                    _ => ErrorKind::LinearAlgebra,
                };
                let e = Error::new(kind, format!("failure {} in {} (state {})", self.kind, at, self.state));
                self.errs.borrow_mut().push(err_key(&e));
                Err(e)
            }
            _ => Ok(()),
        }
    }
}

impl<'a> SupModel<Matrix<f64>, Matrix<f64>> for Spy<'a> {
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
        self.log.borrow_mut().push(Ev::Train { x: rows(x), y: rows(y) });
        self.state += 1.0;
        self.fault("train")
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        self.log.borrow_mut().push(Ev::Predict { x: rows(x) });
        match call_point() {
            Some(Act::Err) => {
                let e = Error::new(ErrorKind::InvalidState, format!("failure {} in predict (state {})", self.kind, self.state));
                self.errs.borrow_mut().push(err_key(&e));
                Err(e)
            }
            // what is handed out is recognisable: the row and the training it came from
            _ => Ok(Matrix::new(x.rows(), 2, (0..x.rows()).flat_map(|i| vec![x.data().get(i * x.cols()).cloned().unwrap_or(-1.0), self.state]).collect::<Vec<_>>())),
        }
    }
}

fn scored(n: usize) -> f64 {
    match n % 5 {
        3 => f64::NAN,
        4 => f64::INFINITY,
        _ => (n as f64 * 1.7).sin(),
    }
}

fn make(n: usize, d: usize, t: usize, dup: bool, seed: u64) -> (Matrix<f64>, Matrix<f64>) {
    // the first column is the row's name; equal rows differ in their targets only
    let mut b = Prng::new(seed);
    let x: Vec<f64> = (0..n).flat_map(|i| (0..d).map(move |j| (i, j))).map(|(i, j)| {
        if j == 0 { if dup { (i % 3) as f64 } else { i as f64 } } else { b.normal() }
    }).collect();
    let y: Vec<f64> = (0..n).flat_map(|i| (0..t).map(move |j| 1000.0 * (j + 1) as f64 + i as f64)).collect();
    (Matrix::new(n, d, x), Matrix::new(n, t, y))
}

type Run = (Result<Result<Vec<f64>, (String, String)>, Caught>, Vec<Ev>, Vec<(String, String)>, u64, u64);

fn run(x: &Matrix<f64>, y: &Matrix<f64>, k: usize, plan: &Plan, kind: u64) -> Run {
    let log = RefCell::new(Vec::new());
    let errs = RefCell::new(Vec::new());
    let op = step(plan, || {
        let mut spy = Spy { log: &log, errs: &errs, state: 0.0, kind };
        k_fold_validate(&mut spy, x, y, k, |out, t| {
            let i = log.borrow().iter().filter(|e| matches!(e, Ev::Score { .. })).count();
            let gave = scored(i);
            log.borrow_mut().push(Ev::Score { out: rows(out), y: rows(t), gave });
            match call_point() {
                Some(Act::Nan) => f64::NAN,
                _ => gave,
            }
        })
    });
    let res = match op.res {
        Ok(Ok(v)) => Ok(Ok(v)),
        Ok(Err(e)) => Ok(Err(err_key(&e))),
        Err(c) => Err(c),
    };
    (res, log.into_inner(), errs.into_inner(), op.fired, op.points[0])
}

/// Which samples a batch holds, by their targets; rows must be the samples'.
fn ids(x: &[Vec<f64>], y: &[Vec<f64>], xs: &[Vec<f64>], ys: &[Vec<f64>], what: &str) -> Result<Vec<usize>, dst::Violation> {
    ensure_pair(x.len() == y.len(), what)?;
    let mut out = Vec::new();
    for (a, b) in x.iter().zip(y) {
        match ys.iter().position(|t| t == b) {
            Some(i) if bits(&xs[i]) == bits(a) => out.push(i),
            Some(i) => fail!("mispaired", "{}: inputs {} came with the targets of sample {}", what, brief(a), i),
            None => fail!("mispaired", "{}: targets {} are no sample's", what, brief(b)),
        }
    }
    Ok(out)
}
fn ensure_pair(ok: bool, what: &str) -> Verdict {
    ensure!(ok, "mispaired", "{}: inputs and targets differ in number", what);
    Ok(())
}

/// A complete validation: returns the fold each sample was tested in.
fn judge(n: usize, k: usize, xs: &[Vec<f64>], ys: &[Vec<f64>], log: &[Ev], scores: &[f64]) -> Result<Vec<usize>, dst::Violation> {
    ensure!(scores.len() == k, "scores", "{} folds of {} samples gave {} scores", k, n, scores.len());
    ensure!(log.len() == 3 * k, "calls", "{} folds took {} calls on the model and the score function instead of {}", k, log.len(), 3 * k);
    let mut fold = vec![usize::MAX; n];
    let mut sizes = Vec::new();
    for f in 0..k {
        let (tx, ty) = match &log[3 * f] {
            Ev::Train { x, y } => (x, y),
            e => fail!("calls", "fold {} began with {:?} instead of training", f, name(e)),
        };
        let px = match &log[3 * f + 1] {
            Ev::Predict { x } => x,
            e => fail!("calls", "fold {}: {} after training", f, name(e)),
        };
        let (out, sy, gave) = match &log[3 * f + 2] {
            Ev::Score { out, y, gave } => (out, y, gave),
            e => fail!("calls", "fold {}: {} after predict", f, name(e)),
        };
        let train = ids(tx, ty, xs, ys, &format!("training set of fold {}", f))?;
        let test = ids(px, sy, xs, ys, &format!("test set of fold {}", f))?;
        let mut all: Vec<usize> = train.iter().chain(&test).cloned().collect();
        all.sort();
        ensure!(all == (0..n).collect::<Vec<_>>(), "not-a-partition", "fold {} of {}: trained on {:?}, tested on {:?} of {} samples", f, k, train, test, n);
        for i in &test {
            ensure!(fold[*i] == usize::MAX, "not-a-partition", "sample {} was tested in folds {} and {}", i, fold[*i], f);
            fold[*i] = f;
        }
        sizes.push(test.len());
        // the score function saw what this fold's model answered
        let want: Vec<Vec<f64>> = px.iter().map(|r| vec![r.get(0).cloned().unwrap_or(-1.0), (f + 1) as f64]).collect();
        ensure!(*out == want, "scores", "fold {}: the score function was given {:?}, the model had answered {:?}", f, &out[..out.len().min(4)], &want[..want.len().min(4)]);
        ensure!(canon(scores[f]) == canon(*gave), "scores", "score {} is {} but fold {} was scored {}", f, scores[f], f, gave);
    }
    ensure!(fold.iter().all(|f| *f < k), "not-a-partition", "some of {} samples were never tested in {} folds", n, k);
    let (a, b) = (sizes.iter().min().unwrap(), sizes.iter().max().unwrap());
    ensure!(b - a <= 1, "uneven-folds", "{} samples in {} folds of sizes {:?}", n, k, sizes);
    Ok(fold)
}

fn name(e: &Ev) -> &'static str {
    match e {
        Ev::Train { .. } => "train",
        Ev::Predict { .. } => "predict",
        Ev::Score { .. } => "score",
    }
}

fn dims(c: &mut Ctx) -> (usize, usize) {
    let n = match c.below(8) {
        0 => c.urange(2, 4),
        1..=5 => c.urange(2, 14),
        6 => c.urange(10, 60),
        _ => *c.pick(&[31, 32, 33, 64, 65, 100, 128]),
    };
    let k = match c.below(6) {
        0 => 2,
        1 => n,
        2 => n - 1,
        _ => c.urange(2, n.min(12)),
    };
    (n, k.max(2))
}

pub fn partition(c: &mut Ctx) -> Verdict {
    if c.chance(1, 150) {
        return uniform(c);
    }
    let (n, k) = dims(c);
    let (d, t) = (width(c, 4), width(c, 3));
    let dup = c.chance(1, 4);
    let (x, y) = make(n, d, t, dup, c.below(1 << 20));
    let (xs, ys) = (rows(&x), rows(&y));
    let mut plan = Plan::new(Stream::gen(c));
    draw_fault(c, &mut plan, n as u64);
    c.case(mix2(mix2(n as u64, k as u64), mix2(plan.stream.seed, (d * 8 + t) as u64)));
    c.note(|| format!("k_fold_validate of {} samples ({} columns, {} targets, repeated inputs {}), k={}, {:?} {:?}", n, d, t, dup, k, plan.stream, plan.faults));
    c.nontrivial = n > 2;
    memory(c);
    let (res, log, _, fired, draws) = run(&x, &y, k, &plan, 0);
    memory_off();
    c.add("draws", draws);
    note_fired(c, &plan, fired);
    match res {
        Ok(Ok(scores)) => {
            let fold = judge(n, k, &xs, &ys, &log, &scores)?;
            for f in &fold {
                c.see(*f as u64);
            }
            c.hit("probe.validations");
            c.sample = Some(format!("{} samples in {} folds: {:?}", n, k, &fold[..fold.len().min(20)]));
        }
        Ok(Err(e)) => fail!("error", "{} samples in {} folds: {:?} although nothing failed", n, k, e),
        Err(Caught::Injected) => {
            c.hit("probe.failed_midway");
            // whatever was handed out until then was paired
            for e in &log {
                if let Ev::Train { x, y } = e {
                    ids(x, y, &xs, &ys, "training set")?;
                }
            }
        }
        Err(Caught::Panic(m)) => fail!("panic", "{} samples in {} folds panicked: {}", n, k, m),
    }
    Ok(())
}

fn uniform(c: &mut Ctx) -> Verdict {
    let seed = c.below(1 << 40);
    let mut src = Prng::new(seed);
    let mul = if c.thorough { 4 } else { 1 };
    let small = c.chance(1, 2);
    let (n, k) = if small {
        *c.pick(&[(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 2), (5, 3), (6, 2), (6, 3)])
    } else {
        let n = c.urange(7, 40);
        (n, c.urange(2, n.min(9)))
    };
    c.case(mix2(seed, (n * 100 + k) as u64));
    c.nontrivial = true;
    c.hit("probe.uniformity_experiments");
    let (x, y) = make(n, 1, 1, false, 1);
    let (xs, ys) = (rows(&x), rows(&y));
    let m = (if small { 4000 } else { 1200 }) * mul;
    let mut seen: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    let mut by = vec![0u64; n * k];
    let mut together = vec![0u64; n * n];
    let mut sizes = vec![0u64; k];
    for _ in 0..m {
        let plan = Plan::new(Stream::plain(src.next()));
        let (res, log, _, _, _) = run(&x, &y, k, &plan, 0);
        let scores = match res {
            Ok(Ok(s)) => s,
            r => fail!("error", "{} samples in {} folds: {:?}", n, k, r.is_ok()),
        };
        let fold = judge(n, k, &xs, &ys, &log, &scores)?;
        for (i, f) in fold.iter().enumerate() {
            by[i * k + f] += 1;
            sizes[*f] += 1;
            for j in 0..i {
                together[i * n + j] += (fold[j] == *f) as u64;
            }
        }
        if small {
            *seen.entry(fold).or_insert(0) += 1;
        }
    }
    c.add("trials", m);
    let share: Vec<f64> = sizes.iter().map(|s| *s as f64 / n as f64).collect();
    for i in 0..n {
        let (x2, p, _) = stat::chi2_test(&by[i * k..(i + 1) * k], &share, 1.0);
        ensure!(p > P, "biased-folds", "sample {} of {} is not equally likely to land in any of {} folds (chi2={:.1}, p={:e}): {:?}", i, n, k, x2, p, &by[i * k..(i + 1) * k]);
        c.see(x2.to_bits());
    }
    // two samples share a fold as often as any other two
    let pt: f64 = share.iter().map(|s| { let q = s * n as f64 / m as f64; q * (q - 1.0) }).sum::<f64>() / (n * (n - 1)) as f64;
    for i in 0..n {
        for j in 0..i {
            let p = stat::binom_p(together[i * n + j], m, pt);
            ensure!(p > P, "biased-folds", "samples {} and {} of {} shared one of {} folds {} times in {} (p={:e})", j, i, n, k, together[i * n + j], m, p);
        }
    }
    if small {
        // all assignments with these fold sizes
        let q: Vec<usize> = sizes.iter().map(|s| (*s / m) as usize).collect();
        if sizes.iter().all(|s| s % m == 0) {
            let cells = fact(n) / q.iter().map(|s| fact(*s)).product::<usize>();
            let mut counts: Vec<u64> = seen.values().cloned().collect();
            ensure!(counts.len() <= cells, "not-a-partition", "{} different assignments seen, {} exist", counts.len(), cells);
            counts.resize(cells, 0);
            let (x2, p, df) = stat::chi2_test(&counts, &vec![m as f64 / cells as f64; cells], 1.0);
            c.see(x2.to_bits());
            c.sample = Some(format!("{} samples in {} folds: {} validations over {} assignments, p={:.3e}", n, k, m, cells, p));
            ensure!(p > P, "biased-folds", "assignments of {} samples to {} folds are not equally likely (chi2={:.1}, df={}, p={:e})", n, k, x2, df, p);
        }
    }
    Ok(())
}

/// C09: a failing model.
pub fn failing(c: &mut Ctx) -> Verdict {
    if c.chance(1, 5) {
        return real_model(c);
    }
    let (n, k) = dims(c);
    let (x, y) = make(n, c.urange(1, 3), 1, false, c.below(1 << 20));
    let (xs, ys) = (rows(&x), rows(&y));
    let kind = c.below(1000);
    let call = c.below(3 * k as u64 + 1);
    // user code is called in the order train, predict, score
    let act = match (call % 3, c.below(4)) {
        (2, 0) => Act::Nan,
        (2, _) => Act::Panic,
        (_, 0) => Act::Panic,
        _ => Act::Err,
    };
    let plan = Plan::new(stream(c)).with(Fault { kind: Kind::Call, at: call, act });
    c.case(mix2(mix2(n as u64, k as u64), mix2(call, kind)));
    c.note(|| format!("k_fold_validate of {} samples, k={}, {:?}, user call {} does {:?}", n, k, plan.stream, call, act));
    memory(c);
    let (res, log, errs, fired, _) = run(&x, &y, k, &plan, kind);
    memory_off();
    note_fired(c, &plan, fired);
    c.nontrivial = fired > 0;
    c.see(log.len() as u64);
    c.sample = Some(format!("{} samples, {} folds, call {} does {:?}: {} calls", n, k, call, act, log.len()));
    if fired == 0 || act == Act::Nan {
        // nothing failed: a score of NaN is a score
        let mut s = match res {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => fail!("error", "{} samples in {} folds: {:?} although nothing failed", n, k, e),
            Err(e) => fail!("panic", "{} samples in {} folds: {}", n, k, caught(&e)),
        };
        if fired > 0 {
            let f = call as usize / 3;
            ensure!(s.len() > f && s[f].is_nan(), "scores", "fold {} was scored NaN, the scores are {:?}", f, brief(&s));
            s[f] = scored(f);
        }
        judge(n, k, &xs, &ys, &log, &s)?;
        return Ok(());
    }
    let f = call as usize;
    ensure!(log.len() <= f + 1, "calls-after-failure", "user call {} of a validation in {} folds failed ({:?}), and {} more calls followed: {:?}", f, k, act, log.len() - f - 1, log[f + 1..].iter().map(name).collect::<Vec<_>>());
    ensure!(log.len() == f + 1, "calls", "call {} failed but only {} were made", f, log.len());
    match (act, res) {
        (Act::Err, Ok(Err(e))) => {
            ensure!(errs.len() == 1 && e == errs[0], "wrong-error", "the model failed with {:?}, the validation reported {:?}", errs, e);
            c.hit("probe.errors_reported");
        }
        (Act::Err, Ok(Ok(s))) => fail!("lost-failure", "call {} ({}) failed with {:?}, and the validation returned scores {}", f, name(&log[f]), errs, brief(&s)),
        (_, Err(Caught::Injected)) => c.hit("probe.panics_passed_on"),
        (Act::Panic, Ok(_)) => fail!("lost-failure", "call {} ({}) panicked, and the validation returned", f, name(&log[f])),
        (_, Err(e)) => fail!("panic", "call {} ({}) failed with {:?} and the validation did not report it: {}", f, name(&log[f]), errs, caught(&e)),
        (_, Ok(_)) => fail!("lost-failure", "call {} failed and the validation returned", f),
    }
    Ok(())
}

/// A model of the crate failing in some fold through its linear algebra.
fn real_model(c: &mut Ctx) -> Verdict {
    use rusty_machine::learning::lin_reg::LinRegressor;
    use rusty_machine::linalg::Vector;
    struct Wrap<'a> {
        inner: LinRegressor,
        log: &'a RefCell<Vec<(bool, Option<(String, String)>)>>,
    }
    impl<'a> SupModel<Matrix<f64>, Matrix<f64>> for Wrap<'a> {
        fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
            let r = self.inner.train(x, &Vector::new(y.data().clone()));
            self.log.borrow_mut().push((true, r.as_ref().err().map(err_key)));
            r
        }
        fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
            let r = self.inner.predict(x).map(|v| { let n = v.size(); Matrix::new(n, 1, v.into_vec()) });
            self.log.borrow_mut().push((false, r.as_ref().err().map(err_key)));
            r
        }
    }
    let n = c.urange(4, 20);
    let k = c.urange(2, n.min(6));
    let d = c.urange(1, 3);
    let mut b = c.bulk();
    let x = normal_matrix(&mut b, n, d, 1.0);
    let y = normal_matrix(&mut b, n, 1, 1.0);
    let at = c.below(2 * k as u64 + 2);
    let plan = Plan::new(stream(c)).with(Fault { kind: Kind::La, at, act: Act::Err });
    c.case(mix2(mix2(n as u64, k as u64), mix2(at, plan.stream.seed)));
    c.note(|| format!("k_fold_validate of a LinRegressor, {} samples, {} columns, k={}, {:?}, linear-algebra step {} fails", n, d, k, plan.stream, at));
    let ((log, res, scored, fired), _) = run_solo(Box::new(|| {
        let log = RefCell::new(Vec::new());
        let scored = RefCell::new(0usize);
        let op = step(&plan, || {
            let mut w = Wrap { inner: LinRegressor::default(), log: &log };
            k_fold_validate(&mut w, &x, &y, k, |a, b| {
                *scored.borrow_mut() += 1;
                a.data().iter().zip(b.data()).map(|(p, q)| (p - q).abs()).sum()
            }).map_err(|e| err_key(&e))
        });
        (log.into_inner(), op.res, scored.into_inner(), op.fired)
    }));
    note_fired(c, &plan, fired);
    c.nontrivial = fired > 0;
    c.see(log.len() as u64);
    let bad = log.iter().position(|e| e.1.is_some());
    match (bad, res) {
        (Some(i), Ok(Err(e))) => {
            ensure!(i + 1 == log.len(), "calls-after-failure", "call {} failed and {} more followed", i, log.len() - i - 1);
            ensure!(Some(&e) == log[i].1.as_ref(), "wrong-error", "the model failed with {:?}, the validation reported {:?}", log[i].1, e);
            ensure!(scored == i / 2, "calls-after-failure", "{} folds were scored, {} had succeeded", scored, i / 2);
            c.hit("probe.errors_reported");
        }
        (Some(i), Ok(Ok(s))) => fail!("lost-failure", "call {} failed ({:?}) and the validation returned scores {}", i, log[i].1, brief(&s)),
        (None, Ok(Ok(s))) => {
            ensure!(s.len() == k && scored == k, "scores", "{} folds gave {} scores", k, s.len());
            for v in s {
                c.see_f(v);
            }
        }
        (None, Ok(Err(e))) => fail!("error", "the validation reported {:?} although no call failed", e),
        (_, Err(Caught::Panic(m))) => fail!("panic", "the validation panicked: {}", m),
        (_, Err(Caught::Injected)) => {}
    }
    Ok(())
}
