//! C34: what a call gives depends on its arguments and its draws only.
//! C35: user-supplied parts may use the library while it calls them.
//! C36: a row's answer does not depend on the company it is asked in.
use crate::lifecycle::{build_tuned, data_for, probe, train};
use crate::threads::{gen_job, gen_like, gen_make, perform, show, Job, Make, Out, Shared, What};
use crate::util::*;
use crate::zoo::{self, acts, gen_spec, Answer, Kind as Z};
use dst::alloc::PATTERN;
use dst::prng::{hash_str, mix2};
use dst::sched::HASH_SEED;
use dst::syms::{CLOCK, CLOCK_STEP, CPUS};
use dst::{ensure, run_on_stack, run_solo, step, Act, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rusty_machine::data::transforms::minmax::MinMaxFitter;
use rusty_machine::data::transforms::standardize::StandardizerFitter;
use rusty_machine::data::transforms::{Invertible, Normalizer, TransformFitter, Transformer};
use rusty_machine::learning::LearningResult;
use rusty_machine::linalg::norm::Euclidean;
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

fn brief_all(jobs: &[Job]) -> String {
    jobs.iter().map(|j| j.brief()).collect::<Vec<_>>().join("; ")
}

fn first_difference(a: &[Out], b: &[Out]) -> Option<(usize, String)> {
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        if x.len() != y.len() {
            return Some((k, format!("{} results, then {}", x.len(), y.len())));
        }
        for (p, q) in x.iter().zip(y) {
            if p != q {
                return Some((k, format!("{}, then {}", show(p), show(q))));
            }
        }
    }
    None
}

// ------------------------------------------------------------------- C34

/// What the process around a call is like.
#[derive(Clone, Copy, Debug)]
struct Around {
    memory: u64,
    hash: u64,
    clock: u64,
    tick: u64,
    cpus: u64,
    stack: u64,
}
fn around(c: &mut Ctx) -> Around {
    Around { memory: c.below(6), hash: c.below(1 << 30), clock: c.below(1 << 40), tick: *c.pick(&[1_000, 0, 1, 3_600_000_000_000]), cpus: *c.pick(&[1, 2, 3, 8, 64]), stack: c.below(3) }
}
impl Around {
    fn set(&self) {
        PATTERN.store(self.memory, SeqCst);
        HASH_SEED.store(self.hash, SeqCst);
        CLOCK.store(self.clock, SeqCst);
        CLOCK_STEP.store(self.tick, SeqCst);
        CPUS.store(self.cpus, SeqCst);
    }
    fn reset() {
        PATTERN.store(0, SeqCst);
        HASH_SEED.store(1, SeqCst);
        CLOCK_STEP.store(1_000, SeqCst);
        CPUS.store(0, SeqCst);
    }
    /// Perform on a thread of its own.
    fn run(&self, before: &[Job], jobs: &[Job]) -> Vec<Out> {
        self.set();
        let body = move || {
            for j in before {
                perform(j, &[]);
            }
            jobs.iter().map(|j| perform(j, &[])).collect::<Vec<Out>>()
        };
        let r = match self.stack {
            0 => run_solo(Box::new(body)).0,
            1 => run_on_stack(4 << 20, Box::new(body)),
            _ => run_on_stack(64 << 20, Box::new(body)),
        };
        Around::reset();
        r
    }
}

pub fn repeatable(c: &mut Ctx) -> Verdict {
    let nj = c.urange(1, 2);
    let jobs: Vec<Job> = (0..nj).map(|_| gen_job(c, &[], &[], false, None)).collect();
    // what happened before: half of the time the same sort of thing
    let like = if c.chance(1, 2) {
        match &jobs[0].what {
            What::Train(s, ..) => zoo::KINDS.iter().position(|k| *k == s.kind).map(|k| k as u64),
            What::Shuffle(..) => Some(100),
            What::Fold(..) => Some(101),
            What::Scale(..) => Some(102),
            What::Optimise(..) => Some(103),
            What::Count(..) => Some(104),
            What::Draw(..) => Some(105),
            _ => None,
        }
    } else {
        None
    };
    let nb = c.urange(0, 3);
    let before: Vec<Job> = (0..nb).map(|_| gen_job(c, &[], &[], false, like)).collect();
    let (a, b) = (around(c), around(c));
    c.note(|| format!("jobs: {}", brief_all(&jobs)));
    c.note(|| format!("before: {}", brief_all(&before)));
    c.note(|| format!("{:?} then {:?}", a, b));
    c.case(mix2(hash_str(&brief_all(&jobs)), hash_str(&brief_all(&before))));
    c.case(jobs[0].plan.stream.seed);
    let one = a.run(&[], &jobs);
    let two = b.run(&before, &jobs);
    let mut runs = vec![(two, "in another process state, after other calls")];
    if c.chance(1, 2) {
        // on the thread that made all earlier calls
        b.set();
        for j in before.iter().rev() {
            perform(j, &[]);
        }
        runs.push((jobs.iter().map(|j| perform(j, &[])).collect(), "on a thread with a past"));
        runs.push((jobs.iter().map(|j| perform(j, &[])).collect(), "once again"));
        Around::reset();
        c.hit("probe.on_old_threads");
    }
    for (r, how) in &runs {
        if let Some((k, d)) = first_difference(&one, r) {
            dst::fail!("not-repeatable", "{} gave something else {}: {}\n{:?} then {:?}\nbefore: {}", jobs[k].brief(), how, d, a, b, brief_all(&before));
        }
    }
    for (_, v) in one.iter().flatten() {
        for x in v {
            c.see(*x);
        }
    }
    c.nontrivial = nb > 0;
    c.add("fault.failed_calls", one.iter().flatten().filter(|o| o.0.contains("injected") || o.0.contains("user-supplied")).count() as u64);
    c.hit("probe.repetitions");
    c.sample = Some(format!("{} ({:?} against {:?} after {})", brief_all(&jobs), a, b, brief_all(&before)));
    Ok(())
}

// ------------------------------------------------------------------- C35

/// Kinds of work in which the library calls user-supplied parts.
const CALLING: &[Z] = &[Z::KmUser, Z::NbUser, Z::Gp, Z::Svm, Z::GlmNormal, Z::GlmBern, Z::GlmPoisson, Z::KnnUser, Z::Logistic, Z::Net];

fn gen_calling(c: &mut Ctx) -> u64 {
    match c.below(12) {
        10 => 101,
        11 => 103,
        k => zoo::KINDS.iter().position(|z| *z == CALLING[k as usize]).unwrap() as u64,
    }
}

pub fn reentry(c: &mut Ctx) -> Verdict {
    // a trained model may be asked from within its own kernel
    let (mut one, mut two, mut makes, mut widths) = (vec![], vec![], vec![], vec![]);
    if c.chance(1, 2) {
        let m = if c.chance(1, 4) {
            gen_make(c)
        } else {
            let kind = *c.pick(&CALLING[..8]);
            let spec = gen_spec(c, kind);
            let d = data_for(c, &spec, false);
            Make::Model(spec, vec![], d)
        };
        if let (Some(a), Some(b)) = (m.make(), m.make()) {
            widths.push(match &m {
                Make::Model(s, _, d) => (d.x.cols(), Some(s.kind)),
                Make::MinMax(x) | Make::Standard(x) => (x.cols(), None),
            });
            c.note(|| format!("shared: {}", match &m { Make::Model(s, _, d) => format!("{:?} trained on {}x{}", s, d.x.rows(), d.x.cols()), _ => "a scaler".into() }));
            makes.push(m);
            one.push(a);
            two.push(b);
        }
    }
    let shared = !makes.is_empty() && c.chance(2, 3);
    let calling = gen_calling(c);
    let outer = gen_job(c, &makes, &widths, shared, Some(calling));
    let (one, two): (Rc<Vec<Shared>>, Rc<Vec<Shared>>) = (Rc::new(one), Rc::new(two));
    // how often the library calls out
    let m = c.below(6);
    PATTERN.store(m, SeqCst);
    zoo::within(u64::MAX - 1, Box::new(|| {}));
    let alone = perform(&outer, &one);
    let calls = u64::MAX - 1 - zoo::within_left();
    zoo::within_off();
    PATTERN.store(0, SeqCst);
    c.case(hash_str(&outer.brief()));
    c.note(|| format!("outer: {} {:?}, {} calls of user-supplied parts", outer.brief(), outer.plan.stream, calls));
    if calls == 0 {
        c.hit("probe.no_calls");
        return Ok(());
    }
    let times = if c.chance(1, 4) { 2 } else { 1 };
    for _ in 0..times {
        let at = match c.below(3) {
            0 => calls - 1,
            _ => c.below(calls),
        };
        let like = if c.chance(1, 2) { calling } else { gen_like(c) };
        let inner = gen_job(c, &makes, &widths, shared, Some(like));
        c.note(|| format!("inner, in call {}: {} {:?}", at, inner.brief(), inner.plan.stream));
        c.case(mix2(at, hash_str(&inner.brief())));
        let want = perform(&inner, &one);
        let got: Rc<RefCell<Option<Out>>> = Rc::new(RefCell::new(None));
        let (g, j, s) = (got.clone(), inner.clone(), two.clone());
        let m = c.below(6);
        PATTERN.store(m, SeqCst);
        zoo::within(at, Box::new(move || *g.borrow_mut() = Some(perform(&j, &s))));
        let out = perform(&outer, &two);
        zoo::within_off();
        PATTERN.store(0, SeqCst);
        let got = got.borrow_mut().take();
        c.add("fault.failed_calls_within", got.iter().flatten().filter(|o| o.0.contains("injected") || o.0.contains("user-supplied")).count() as u64);
        let what = || format!("{}, in call {} of {} of which a user-supplied part does this: {}", outer.brief(), at, calls, inner.brief());
        match got {
            None => dst::fail!("changed-around", "{}: the call never came", what()),
            Some(g) => {
                if let Some((_, d)) = first_difference(&[want], &[g]) {
                    dst::fail!("changed-within", "{}: the user-supplied part got something else than outside: {}", what(), d);
                }
            }
        }
        if let Some((_, d)) = first_difference(&[alone.clone()], &[out]) {
            dst::fail!("changed-around", "{}: the outer call gave something else: {}", what(), d);
        }
        c.add("fault.failed_calls", alone.iter().filter(|o| o.0.contains("injected") || o.0.contains("user-supplied")).count() as u64);
        c.hit("probe.reentries");
        if matches!(outer.what, What::Ask(..)) {
            c.hit("probe.reentries_while_asking");
        }
        c.nontrivial = true;
        c.sample = Some(what());
    }
    for (_, v) in &alone {
        for x in v {
            c.see(*x);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C36

type Asked = Box<dyn Fn(&Matrix<f64>) -> LearningResult<(usize, Vec<f64>)>>;

/// Something that answers row by row.
fn gen_answerer(c: &mut Ctx) -> Option<(String, Asked, usize, Z, bool)> {
    if c.chance(1, 8) {
        let (n, d) = (c.urange(2, 8), c.urange(1, 4));
        let mut b = c.bulk();
        let x = normal_matrix(&mut b, n, d, 3.0);
        let out = |r: LearningResult<Matrix<f64>>| r.map(|m| (m.rows(), m.into_vec()));
        let k = c.below(5);
        let f: Asked = match k {
            0 | 1 => {
                let t = Rc::new(RefCell::new(MinMaxFitter::new(-1.0, 2.0).fit(&x).ok()?));
                if k == 0 { Box::new(move |x| out(t.borrow_mut().transform(x.clone()))) } else { Box::new(move |x| out(t.borrow().inv_transform(x.clone()))) }
            }
            2 | 3 => {
                let t = Rc::new(RefCell::new(StandardizerFitter::new(1.0, 2.0).fit(&x).ok()?));
                if k == 2 { Box::new(move |x| out(t.borrow_mut().transform(x.clone()))) } else { Box::new(move |x| out(t.borrow().inv_transform(x.clone()))) }
            }
            _ => Box::new(move |x| out(Normalizer::<f64, Euclidean>::default().transform(x.clone()))),
        };
        return Some((format!("{} fitted to {}x{}", ["MinMaxScaler", "inverse MinMaxScaler", "Standardizer", "inverse Standardizer", "Normalizer"][k as usize], n, d), f, d, Z::Lin, false));
    }
    let kind = *c.pick(&zoo::KINDS);
    let mut spec = gen_spec(c, kind);
    if kind == Z::Net {
        spec.d = c.urange(1, 3);
        spec.t = c.urange(2, 3);
    }
    let d = data_for(c, &spec, false);
    let knobs = if kind == Z::Dbscan { vec![1] } else if c.chance(1, 4) { vec![c.below(12)] } else { vec![] };
    let mut m = build_tuned(&spec, &knobs);
    let (o, _, _) = train(&mut *m, &d, &Plan::new(Stream::plain(c.below(1 << 20))));
    if !o.is_ok() {
        return None;
    }
    // labels are told apart exactly, numbers up to rounding
    let labels = matches!(kind, Z::KmForgy | Z::KmPart | Z::KmPlus | Z::KmUser | Z::NbGauss | Z::NbBern | Z::NbMulti | Z::NbUser | Z::Svm | Z::KnnKd | Z::KnnBall | Z::KnnBrute | Z::KnnUser | Z::Dbscan);
    let w = d.x.cols();
    Some((format!("{:?} trained on {}x{}", spec, d.x.rows(), w), Box::new(move |x| m.predict(x)), w, kind, labels))
}

fn rows_of(x: &Matrix<f64>, which: &[usize]) -> Matrix<f64> {
    let d = x.cols();
    Matrix::new(which.len(), d, which.iter().flat_map(|i| x.data()[i * d..(i + 1) * d].to_vec()).collect::<Vec<_>>())
}

pub fn company(c: &mut Ctx) -> Verdict {
    let (name, f, w, kind, labels) = match gen_answerer(c) {
        Some(a) => a,
        None => return Ok(()),
    };
    let ask = |x: &Matrix<f64>| -> Answer {
        match step(&Plan::new(Stream::plain(77)), || f(x)).res {
            Ok(Ok((n, v))) => Answer::Ok(n, v.iter().map(|x| x.to_bits()).collect()),
            Ok(Err(e)) => {
                let (k, m) = err_key(&e);
                Answer::Err(k, m)
            }
            Err(e) => Answer::Panic(caught(&e)),
        }
    };
    // ---- the rows, each asked about alone
    let mut x = probe(c, w, kind);
    let most = match c.below(60) {
        0..=1 => 120,
        2..=11 => 40,
        _ => 4,
    };
    for _ in 0..c.urange(0, most) {
        x = x.vcat(&probe(c, w, kind));
    }
    let n = x.rows();
    if c.chance(1, 2) {
        // rows that resemble others: their numbers in another order, some
        // of their numbers, neighbouring numbers
        let mut b = c.bulk();
        for i in 0..n {
            if b.below(2) == 0 {
                continue;
            }
            let j = b.below(n as u64) as usize;
            match b.below(4) {
                0 => {
                    let (p, q) = (b.below(w as u64) as usize, b.below(w as u64) as usize);
                    for k in 0..w {
                        let from = if k == p { q } else if k == q { p } else { k };
                        x[[i, k]] = x[[j, from]];
                    }
                    c.hit("probe.rows_permuted");
                }
                1 => {
                    let p = b.below(w as u64) as usize;
                    for k in 0..w {
                        if k != p {
                            x[[i, k]] = x[[j, k]];
                        }
                    }
                }
                2 => {
                    let p = b.below(w as u64) as usize;
                    x[[i, p]] = x[[j, p]];
                }
                _ if !matches!(kind, Z::NbBern | Z::NbMulti) => {
                    for k in 0..w {
                        x[[i, k]] = x[[j, k]] * (1.0 + b.below(3) as f64 * 1e-7);
                    }
                }
                _ => {}
            }
        }
        c.hit("probe.rows_alike");
    }
    let mut alone: Vec<Vec<f64>> = Vec::new();
    memory(c);
    for i in 0..n {
        match ask(&rows_of(&x, &[i])) {
            Answer::Ok(1, v) => alone.push(v.iter().map(|b| f64::from_bits(*b)).collect()),
            Answer::Ok(k, _) => dst::fail!("answer-count", "{} gave {} answers for one row", name, k),
            // a row that cannot be answered: C12 decides whether it should
            _ => {
                memory_off();
                c.hit("probe.rows_refused");
                return Ok(());
            }
        }
    }
    memory_off();
    c.case(mix2(hash_str(&name), x.data()[0].to_bits()));
    c.note(|| format!("{}, {} rows", name, n));
    // ---- and in company
    let groups = c.urange(1, 4);
    for g in 0..groups {
        let k = match c.below(4) {
            0 => n,
            1 => c.urange(1, n.min(3)),
            _ => c.urange(1, 2 * n),
        };
        let mut which: Vec<usize> = if k == n && c.chance(1, 2) { (0..n).collect() } else { (0..k).map(|_| c.below(n as u64) as usize).collect() };
        if c.chance(1, 4) {
            which.sort();
        }
        let mut y = rows_of(&x, &which);
        // company that cannot be answered sensibly, or at all
        let odd = if c.chance(1, 4) {
            let i = c.urange(0, which.len() - 1);
            let j = c.urange(0, w - 1);
            let v = *c.pick(&[f64::NAN, f64::INFINITY, 1e300, -1e300, 0.0, 1e-300, 1e8]);
            y[[i, j]] = v;
            Some((i, v))
        } else {
            None
        };
        // a question that fails comes in between
        if c.chance(1, 4) {
            let p = Plan::new(Stream::plain(7)).with(Fault { kind: *c.pick(&[Kind::Call, Kind::La]), at: c.below(6), act: if c.chance(1, 2) { Act::Err } else { *c.pick(acts(kind)) } });
            let op = step(&p, || f(&x).is_ok());
            note_fired(c, &p, op.fired);
        }
        memory(c);
        let a = ask(&y);
        memory_off();
        let what = || format!("{}, group {} of rows {:?}{}", name, g, which, odd.map(|o| format!(" with {} in the {}th of them", o.1, o.0)).unwrap_or_default());
        let v = match a {
            Answer::Ok(m, v) => {
                ensure!(m == which.len(), "answer-count", "{}: {} answers for {} rows", what(), m, which.len());
                v
            }
            a => {
                ensure!(odd.is_some(), "refused", "{}: every row is answered alone, but not together: {}", what(), a.brief());
                c.hit("probe.groups_refused");
                continue;
            }
        };
        let t = v.len() / which.len();
        for (p, i) in which.iter().enumerate() {
            if odd.map(|o| o.0 == p).unwrap_or(false) {
                continue;
            }
            let want = &alone[*i];
            ensure!(want.len() == t, "answer-count", "{}: {} numbers per row, {} for one alone", what(), t, want.len());
            let size = want.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            for j in 0..t {
                let g = f64::from_bits(v[p * t + j]);
                let same = if labels { g == want[j] || (g.is_nan() && want[j].is_nan()) } else { (g - want[j]).abs() <= 1e-9 * (1e-3 + size) || g.to_bits() == want[j].to_bits() || (g.is_nan() && want[j].is_nan()) };
                ensure!(same, "depends-on-company", "{}: row {} ({:?}) gets {} there and {} alone", what(), i, rows_of(&x, &[*i]).data(), g, want[j]);
                c.see(g.to_bits());
            }
        }
        c.hit("probe.groups");
    }
    c.nontrivial = n > 1;
    c.sample = Some(format!("{}: {} rows in {} groups", name, n, groups));
    Ok(())
}
