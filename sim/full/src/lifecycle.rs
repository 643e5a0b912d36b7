//! C10, C11, C12: histories of trainings, failed trainings and predictions.
use crate::util::*;
use crate::zoo::{self, acts, ask, ask_more, build, gen_data, gen_spec, resembling, Answer, Data, Machine, Spec};
use dst::prng::mix2;
use dst::{ensure, run_solo, step, Act, Ctx, Fault, Kind, Plan, Verdict};
use rusty_machine::linalg::{BaseMatrix, Matrix};

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    /// C10
    Failures,
    /// C11
    Retraining,
    /// C12
    Trained,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Err(String, String),
    Panic(String),
}
impl Outcome {
    pub fn is_ok(&self) -> bool {
        *self == Outcome::Ok
    }
}

/// The plain meaning of a run of training: succeeded, or how it failed.
pub fn train(m: &mut dyn Machine, d: &Data, plan: &Plan) -> (Outcome, u64, [u64; 3]) {
    let op = step(plan, || m.train(d));
    let o = match op.res {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => {
            let (k, t) = err_key(&e);
            Outcome::Err(k, t)
        }
        Err(e) => Outcome::Panic(caught(&e)),
    };
    (o, op.fired, op.points)
}

/// Everything a model answers about a batch.
#[derive(Clone, PartialEq)]
pub struct Snap {
    pub answer: Answer,
    pub more: Answer,
    pub learned: Vec<u64>,
}
pub fn snap(m: &dyn Machine, x: &Matrix<f64>) -> Snap {
    Snap { answer: ask(m, x), more: ask_more(m, x), learned: bits(&m.learned()) }
}
fn differ(a: &Snap, b: &Snap) -> String {
    if a.answer != b.answer {
        format!("predict gave {} and now gives {}", a.answer.brief(), b.answer.brief())
    } else if a.more != b.more {
        format!("its further answer was {} and now is {}", a.more.brief(), b.more.brief())
    } else {
        let f = |v: &Vec<u64>| brief(&v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>());
        format!("it reported {} and now reports {}", f(&a.learned), f(&b.learned))
    }
}

pub fn probe(c: &mut Ctx, d: usize, kind: zoo::Kind) -> Matrix<f64> {
    let n = c.urange(1, 5);
    let mut b = c.bulk();
    let m = normal_matrix(&mut b, n, d, 2.0);
    match kind {
        zoo::Kind::NbBern => Matrix::new(n, d, m.data().iter().map(|x| (*x > 0.0) as u64 as f64).collect::<Vec<_>>()),
        zoo::Kind::NbMulti => Matrix::new(n, d, m.data().iter().map(|x| x.abs().floor()).collect::<Vec<_>>()),
        _ => m,
    }
}

/// A fault somewhere in the training, aimed by a rehearsal on a fresh model.
fn aim(c: &mut Ctx, spec: &Spec, knobs: &[u64], d: &Data, plan: &mut Plan) {
    let p = plan.clone();
    let ((_, _, pts), _) = run_solo(Box::new(|| {
        let mut m = build_tuned(spec, knobs);
        train(&mut *m, d, &p)
    }));
    let kinds: Vec<Kind> = [Kind::Draw, Kind::Call, Kind::La].into_iter().filter(|k| pts[*k as usize] > 0).collect();
    if kinds.is_empty() {
        return;
    }
    let k = *c.pick(&kinds);
    let at = match c.below(3) {
        0 => pts[k as usize] - 1,
        _ => c.below(pts[k as usize]),
    };
    let act = match k {
        Kind::Draw => Act::Panic,
        Kind::La => Act::Err,
        Kind::Call => *c.pick(acts(spec.kind)),
    };
    plan.faults.push(Fault { kind: k, at, act });
}

pub fn build_tuned(spec: &Spec, knobs: &[u64]) -> Box<dyn Machine> {
    // a network's first weights come from the thread's generator
    let plan = Plan::new(dst::Stream::plain(4242));
    let mut m = step(&plan, || build(spec)).res.expect("construction");
    for k in knobs {
        m.tune(*k);
    }
    m
}

fn history(c: &mut Ctx, f: Focus) -> Verdict {
    let kind = *c.pick(&zoo::KINDS);
    let mut spec = gen_spec(c, kind);
    let net = kind == zoo::Kind::Net;
    if net && f == Focus::Retraining {
        // Networks continue from their weights: what is left is that two
        // networks with one history agree, which C20 covers.
        let other = gen_spec_other(c);
        return history_of(c, f, other);
    }
    if net {
        spec.d = c.urange(1, 3);
        spec.t = c.urange(2, 3);
    }
    history_of(c, f, spec)
}
fn gen_spec_other(c: &mut Ctx) -> Spec {
    let k = *c.pick(&zoo::KINDS[..24]);
    gen_spec(c, k)
}

pub fn data_for(c: &mut Ctx, spec: &Spec, bad: bool) -> Data {
    let mut d = gen_data(c, spec.kind, bad);
    if spec.kind == zoo::Kind::Net {
        // networks are built for one width; other widths are failures too
        let off = bad && c.chance(1, 3);
        let w = if off { spec.d + 1 } else { spec.d };
        let n = d.x.rows();
        let mut b = c.bulk();
        d.x = normal_matrix(&mut b, n, w, 1.0);
        let m = d.ym.rows();
        let t = d.ym.cols();
        if t != spec.t {
            let mut y = vec![0.0; m * spec.t];
            for i in 0..m {
                y[i * spec.t + i % spec.t] = 1.0;
            }
            d.ym = Matrix::new(m, spec.t, y);
        }
    }
    d
}

/// A plain name for what was trained on and how.
fn describe(d: &Data) -> String {
    format!("{}x{} ({})", d.x.rows(), d.x.cols(), d.style)
}

fn history_of(c: &mut Ctx, f: Focus, spec: Spec) -> Verdict {
    let kind = spec.kind;
    let net = kind == zoo::Kind::Net;
    c.case(mix2(kind as u64, mix2(spec.a, spec.b)));
    c.note(|| format!("{:?}", spec));
    let steps = c.urange(2, if c.thorough { 9 } else { 6 });
    let mut knobs: Vec<u64> = Vec::new();
    let mut m = build_tuned(&spec, &knobs);
    // what the last successful training was on, and the knobs turned by then
    let mut width: Option<usize> = if net { Some(spec.d) } else { None };
    let mut trained_ok = false;
    let mut last: Option<Data> = None;
    let (mut ok, mut failed) = (0u64, 0u64);
    let mut trace = Vec::new();
    for i in 0..steps {
        // a fresh model must refuse before the first training
        if i == 0 && !net {
            let d = c.urange(1, 4);
            let mut x = probe(c, d, kind);
            if c.chance(1, 5) {
                x = Matrix::new(0, d, vec![]);
                c.hit("probe.untrained_asked_about_nothing");
            }
            let a = ask(&*m, &x);
            if f == Focus::Trained {
                ensure!(matches!(a, Answer::Err(..)), "untrained-answer", "{:?} never trained answered predict with {}", spec, a.brief());
            }
            c.see(a.hash());
        }
        if c.chance(1, 5) {
            let k = c.below(12);
            knobs.push(k);
            m.tune(k);
            // turning a knob is not training: DBSCAN may answer or not
            c.note(|| format!("knob {}", k));
            trace.push(format!("knob {}", k));
        }
        // what to train on
        let again = last.is_some() && c.chance(1, 5);
        let bad = c.chance(if f == Focus::Failures { 2 } else { 1 }, 5);
        let d = match &last {
            Some(l) if again => l.clone(),
            Some(l) if !net && l.good && !bad && c.chance(1, 3) => {
                c.hit("probe.resembling_data");
                resembling(c, l, kind)
            }
            _ => data_for(c, &spec, bad),
        };
        let mut plan = Plan::new(stream(c));
        let (num, den) = if f == Focus::Failures { (3, 5) } else { (1, 4) };
        if c.chance(num, den) {
            aim(c, &spec, &knobs, &d, &mut plan);
        }
        c.note(|| format!("training on {} with {:?} {:?}", describe(&d), plan.stream, plan.faults));
        c.case(mix2(d.x.rows() as u64, mix2(d.x.cols() as u64, plan.stream.seed)));
        let px = width.map(|w| probe(c, w, kind)).unwrap_or_else(|| { let w = d.x.cols(); probe(c, w, kind) });
        memory(c);
        let before = snap(&*m, &px);
        memory_off();
        memory(c);
        let (out, fired, _) = train(&mut *m, &d, &plan);
        memory_off();
        note_fired(c, &plan, fired);
        c.note(|| format!("{:?}", out));
        trace.push(format!("train on {} {}: {}", describe(&d), if fired > 0 { format!("{:?}", plan.faults[0]) } else { String::new() }, match &out { Outcome::Ok => "ok".to_string(), Outcome::Err(k, t) => format!("error {} {}", k, t), Outcome::Panic(t) => t.clone() }));
        c.see(dst::prng::hash_str(&format!("{:?}", out)));
        match &out {
            Outcome::Ok => {
                ok += 1;
                trained_ok = true;
                width = Some(d.x.cols());
                last = Some(d.clone());
                let w = d.x.cols();
                let px = probe(c, w, kind);
                // a knob turned after training has its effect too, and the
                // same on every model that was trained alike
                let knobs_then = knobs.clone();
                let after = if c.chance(1, 4) { Some(c.below(12)) } else { None };
                if let Some(k) = after {
                    knobs.push(k);
                    m.tune(k);
                    trace.push(format!("knob {}", k));
                }
                memory(c);
                let now = snap(&*m, &px);
                memory_off();
                c.see(now.answer.hash());
                // a question that fails is forgotten
                if f == Focus::Trained && c.chance(1, 4) {
                    let k = *c.pick(&[Kind::Call, Kind::Call, Kind::La]);
                    let act = if k == Kind::La { Act::Err } else { *c.pick(acts(kind)) };
                    let p = Plan::new(dst::Stream::plain(77)).with(Fault { kind: k, at: c.below(12), act });
                    let op = step(&p, || m.predict(&px).is_ok());
                    note_fired(c, &p, op.fired);
                    if op.fired > 0 {
                        c.hit("probe.failed_questions");
                        let again = snap(&*m, &px);
                        ensure!(again == now, "changed-by-question", "{:?} trained on {}: a predict that failed changed the model: {}\n{}", spec, describe(&d), differ(&now, &again), trace.join("\n"));
                    }
                }
                if f == Focus::Trained && d.good && fired == 0 {
                    if let Answer::Panic(p) = &now.answer {
                        dst::fail!("trained-panics", "{:?} trained on {} answers predict with {}\n{}", spec, describe(&d), p, trace.join("\n"));
                    }
                }
                if f == Focus::Trained && spec.kind == zoo::Kind::Dbscan && knobs.last().map(|k| k % 3 == 0).unwrap_or(spec.b % 3 == 0) {
                    let none = ask(&*m, &Matrix::new(0, w, vec![]));
                    for a in [&now.answer, &none] {
                        ensure!(matches!(a, Answer::Err(..)), "not-predictive", "{:?} is not predictive but answered with {}\n{}", spec, a.brief(), trace.join("\n"));
                    }
                }
                if f == Focus::Trained && d.good && fired == 0 && answers(&spec, &knobs_then, &knobs) {
                    match &now.answer {
                        Answer::Ok(n, v) => ensure!(*n == px.rows() && !v.is_empty(), "answer-count", "{:?} trained on {} gave {} answers for {} rows\n{}", spec, describe(&d), n, px.rows(), trace.join("\n")),
                        a => dst::fail!("trained-refuses", "{:?} trained on {} answers predict with {}\n{}", spec, describe(&d), a.brief(), trace.join("\n")),
                    }
                    c.hit("probe.trained_answers");
                }
                if f == Focus::Retraining && fired == 0 {
                    let (k, dd, p, x) = (&knobs_then, &d, &plan, &px);
                    memory(c);
                    let ((o2, s2), _) = run_solo(Box::new(move || {
                        let mut m = build_tuned(&spec, k);
                        let (o, _, _) = train(&mut *m, dd, p);
                        if let Some(k) = after {
                            m.tune(k);
                        }
                        let s = snap(&*m, x);
                        (o, s)
                    }));
                    memory_off();
                    ensure!(o2 == Outcome::Ok, "retrain-differs", "{:?}: the model with a past trained on {}, a fresh one did not: {:?}\n{}", spec, describe(&d), o2, trace.join("\n"));
                    ensure!(s2 == now, "retrain-differs", "{:?} retrained on {} is not what a fresh model becomes: {}\n{}", spec, describe(&d), differ(&s2, &now), trace.join("\n"));
                    c.nontrivial |= ok + failed > 1;
                    c.hit("probe.twins_compared");
                }
            }
            _ => {
                failed += 1;
                memory(c);
                let after = snap(&*m, &px);
                memory_off();
                c.see(after.answer.hash());
                if f == Focus::Failures {
                    c.nontrivial = true;
                    c.hit(if trained_ok { "probe.failures_after_training" } else { "probe.failures_before_training" });
                    ensure!(after == before, "changed-by-failure", "{:?}: a training on {} failed ({}) and changed the model: {}\n{}", spec, describe(&d),
                        match &out { Outcome::Err(k, t) => format!("{}: {}", k, t), Outcome::Panic(t) => t.clone(), _ => String::new() }, differ(&before, &after), trace.join("\n"));
                }
                if f == Focus::Trained {
                    if !trained_ok && !net {
                        let none = ask(&*m, &Matrix::new(0, px.cols(), vec![]));
                        ensure!(matches!(none, Answer::Err(..)), "untrained-answer", "{:?} never trained successfully answered predict about no rows with {}\n{}", spec, none.brief(), trace.join("\n"));
                        ensure!(matches!(after.answer, Answer::Err(..)), "untrained-answer", "{:?} never trained successfully answered predict with {}\n{}", spec, after.answer.brief(), trace.join("\n"));
                    } else if matches!(before.answer, Answer::Ok(..)) {
                        match &after.answer {
                            Answer::Ok(n, _) => ensure!(*n == px.rows(), "answer-count", "{:?} gave {} answers for {} rows\n{}", spec, n, px.rows(), trace.join("\n")),
                            a => dst::fail!("trained-refuses", "{:?} was trained but after a failed training answers predict with {}\n{}", spec, a.brief(), trace.join("\n")),
                        }
                    }
                }
                // a poisoned state shows later too
                if c.chance(1, 3) {
                    if let (Some(l), Focus::Failures) = (&last, f) {
                        let w = l.x.cols();
                        let px = probe(c, w, kind);
                        c.see(ask(&*m, &px).hash());
                    }
                }
            }
        }
    }
    if f == Focus::Trained {
        c.nontrivial = ok > 0 && failed > 0;
    }
    c.sample = Some(format!("{:?}: {} trainings, {} failed", spec, ok + failed, failed));
    Ok(())
}

/// Whether a well-trained model of this make must answer.
fn answers(spec: &Spec, then: &[u64], knobs: &[u64]) -> bool {
    match spec.kind {
        zoo::Kind::Dbscan => [then, knobs].iter().all(|k| k.last().map(|k| k % 3 > 0).unwrap_or(spec.b % 3 > 0)),
        // without regularization a component may shrink onto too few rows
        zoo::Kind::Gmm | zoo::Kind::GmmWeights => match then.iter().filter(|k| **k >= 6).last() {
            Some(k) => k % 3 == 1,
            None => spec.a / 2 % 3 == 0,
        },
        _ => true,
    }
}

pub fn failures(c: &mut Ctx) -> Verdict {
    history(c, Focus::Failures)
}
pub fn retraining(c: &mut Ctx) -> Verdict {
    history(c, Focus::Retraining)
}
pub fn trained(c: &mut Ctx) -> Verdict {
    history(c, Focus::Trained)
}
