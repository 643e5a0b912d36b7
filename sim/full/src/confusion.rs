//! C19: confusion matrices under any hash seed, hasher and order of labels.
use crate::util::*;
use dst::prng::mix2;
use dst::sched::{call_point, HASH_SEED};
use dst::{ensure, fail, run_solo, run_tasks, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::linalg::BaseMatrix;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::SeqCst;

trait Label: Ord + Eq + Hash + Copy + Send + Sync + std::fmt::Debug {
    /// The k-th label; `tag` may tell equal labels apart.
    fn of(k: u64, tag: u64) -> Self;
}
impl Label for u64 {
    fn of(k: u64, _: u64) -> u64 {
        // far apart, in no particular order
        dst::prng::mix(k)
    }
}
impl Label for i8 {
    fn of(k: u64, _: u64) -> i8 {
        (k as i8).wrapping_mul(37)
    }
}
impl Label for char {
    fn of(k: u64, _: u64) -> char {
        std::char::from_u32(0x3b1 + (k as u32 * 7) % 300).unwrap_or('x')
    }
}
impl Label for &'static str {
    fn of(k: u64, _: u64) -> &'static str {
        const W: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        let i = (k % 50) as usize;
        &W[i..i + 1 + i % 5]
    }
}
impl Label for (bool, u16) {
    fn of(k: u64, _: u64) -> (bool, u16) {
        (k % 2 == 0, (k * 4099) as u16)
    }
}
/// All hashes collide.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Flat(u64);
impl Hash for Flat {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
impl Label for Flat {
    fn of(k: u64, _: u64) -> Flat {
        Flat(k * 5 % 64)
    }
}
/// Equal labels that can be told apart.
#[derive(Clone, Copy, Debug)]
struct Fold(u64, u64);
impl PartialEq for Fold {
    fn eq(&self, o: &Fold) -> bool {
        self.0 == o.0
    }
}
impl Eq for Fold {}
impl PartialOrd for Fold {
    fn partial_cmp(&self, o: &Fold) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fold {
    fn cmp(&self, o: &Fold) -> Ordering {
        // largest first
        o.0.cmp(&self.0)
    }
}
impl Hash for Fold {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0 % 3)
    }
}
impl Label for Fold {
    fn of(k: u64, tag: u64) -> Fold {
        Fold(k, tag)
    }
}
/// Its comparisons and hash can fail.
#[derive(Clone, Copy, Debug)]
struct Hot(u64);
impl PartialEq for Hot {
    fn eq(&self, o: &Hot) -> bool {
        call_point();
        self.0 == o.0
    }
}
impl Eq for Hot {}
impl PartialOrd for Hot {
    fn partial_cmp(&self, o: &Hot) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Hot {
    fn cmp(&self, o: &Hot) -> Ordering {
        call_point();
        self.0.cmp(&o.0)
    }
}
impl Hash for Hot {
    fn hash<H: Hasher>(&self, h: &mut H) {
        call_point();
        h.write_u64(self.0)
    }
}
impl Label for Hot {
    fn of(k: u64, _: u64) -> Hot {
        Hot(k)
    }
}

struct Case<T> {
    pred: Vec<T>,
    truth: Vec<T>,
    labels: Option<Vec<T>>,
    /// lengths differ or a label is given twice
    bad: bool,
}

fn gen<T: Label>(c: &mut Ctx) -> Case<T> {
    let n = match c.below(5) {
        0 => c.urange(0, 2),
        4 => c.urange(20, 150),
        _ => c.urange(2, 14),
    };
    // now and then far more samples than labels
    let n = match c.below(400) {
        0..=3 => c.urange(300, 3000),
        4 => c.urange(66_000, 140_000),
        _ => n,
    };
    let kinds = match c.below(4) {
        _ if c.chance(1, 60) => c.range(100, 300),
        0 => 1,
        3 => c.range(5, 40),
        _ => c.range(2, 5),
    };
    let mut b = c.bulk();
    let first = b.below(20);
    let mut make = |m: usize| -> Vec<T> { (0..m).map(|_| T::of(first + b.below(kinds), b.next())).collect() };
    let pred = make(n);
    let mut truth = make(n);
    let mut bad = false;
    if c.chance(1, 20) {
        truth.extend(make(c.urange(1, 3)));
        bad = true;
    }
    let labels = if c.chance(1, 2) {
        None
    } else {
        // a subset of the labels, and others, in any order, now and then one twice
        let mut ls: Vec<T> = Vec::new();
        for k in 0..kinds + 3 {
            if c.chance(3, 4) {
                let l = T::of(first + k, b.next());
                if !ls.iter().any(|m| m == &l) {
                    let at = c.urange(0, ls.len());
                    ls.insert(at, l);
                }
            }
        }
        if !ls.is_empty() && c.chance(1, 12) {
            let i = c.urange(0, ls.len() - 1);
            let l = ls[i];
            let at = c.urange(0, ls.len());
            ls.insert(at, l);
            bad = true;
        }
        Some(ls)
    };
    Case { pred, truth, labels, bad }
}

/// The definition.
fn expected<T: Label>(k: &Case<T>) -> (usize, Vec<usize>) {
    let ls: Vec<T> = match &k.labels {
        Some(l) => l.clone(),
        None => {
            let mut v: Vec<T> = Vec::new();
            for x in k.truth.iter().chain(&k.pred) {
                if let Err(at) = v.binary_search(x) {
                    v.insert(at, *x);
                }
            }
            v
        }
    };
    let n = ls.len();
    let mut m = vec![0; n * n];
    for (t, p) in k.truth.iter().zip(&k.pred) {
        if let (Some(i), Some(j)) = (ls.iter().position(|l| l == t), ls.iter().position(|l| l == p)) {
            m[i * n + j] += 1;
        }
    }
    (n, m)
}

type Got = Result<(usize, usize, Vec<usize>), Caught>;
fn compute<T: Label>(k: &Case<T>, plan: &Plan) -> (Got, u64, u64) {
    let op = step(plan, || confusion_matrix(&k.pred, &k.truth, k.labels.clone()));
    (op.res.map(|m| (m.rows(), m.cols(), m.data().clone())), op.fired, op.points[1])
}

fn check<T: Label>(c: &mut Ctx, k: &Case<T>, g: &Got, how: &str) -> Verdict {
    let what = || format!("confusion_matrix of predictions {:?} and targets {:?} for labels {:?} {}", k.pred, k.truth, k.labels, how);
    match g {
        Ok(_) if k.bad => fail!("accepted", "{} gave a matrix", what()),
        Ok((r, q, v)) => {
            let (n, want) = expected(k);
            for x in v {
                c.see(*x as u64);
            }
            ensure!(*r == n && *q == n, "shape", "{} is {}x{}, for {} labels", what(), r, q, n);
            ensure!(*v == want, "wrong-counts", "{} gave {:?}, counting gives {:?}", what(), v, want);
            if k.labels.is_none() {
                ensure!(v.iter().sum::<usize>() == k.pred.len(), "lost-samples", "{} counts {} samples", what(), v.iter().sum::<usize>());
            }
        }
        Err(Caught::Injected) => {}
        Err(_) if k.bad => c.hit("probe.rejected"),
        Err(e) => fail!("panic", "{} failed: {}", what(), caught(e)),
    }
    Ok(())
}

fn run<T: Label>(c: &mut Ctx, hot: bool) -> Verdict {
    let k = gen::<T>(c);
    c.case(mix2(dst::prng::hash_str(&format!("{:?} {:?} {:?}", k.pred, k.truth, k.labels)), 0));
    c.note(|| format!("predictions {:?}, targets {:?}, labels {:?}", k.pred, k.truth, k.labels));
    c.nontrivial = k.pred.len() > 2 && !k.bad;
    c.sample = Some(format!("{} samples of {}, labels {}", k.pred.len(), std::any::type_name::<T>(), k.labels.as_ref().map(|l| l.len().to_string()).unwrap_or_else(|| "found".into())));
    let seeds = c.urange(1, 3);
    let plan = Plan::new(Stream::plain(1));
    let mut points = 0;
    for _ in 0..seeds {
        let s = c.below(1 << 30);
        HASH_SEED.store(s, SeqCst);
        memory(c);
        let ((g, _, p), _) = run_solo(Box::new(|| compute(&k, &plan)));
        memory_off();
        HASH_SEED.store(1, SeqCst);
        points = p;
        c.hit("fault.hash_seeds");
        check(c, &k, &g, &format!("with hash seed {}", s))?;
    }
    if k.pred.len() > 200 {
        c.hit("probe.many_samples");
    }
    if hot && points > 0 {
        // fail somewhere, then again without
        let plan = Plan::new(Stream::plain(1)).with(Fault { kind: Kind::Call, at: c.below(points), act: Act::Panic });
        let (g, fired, _) = compute(&k, &plan);
        note_fired(c, &plan, fired);
        ensure!(fired == 0 || matches!(g, Err(Caught::Injected)) || k.bad, "failure-swallowed", "a comparison of two labels failed and confusion_matrix gave {:?}", g);
        let (g, _, _) = compute(&k, &Plan::new(Stream::plain(1)));
        check(c, &k, &g, "after one that failed midway")?;
    }
    Ok(())
}

pub fn confusion(c: &mut Ctx) -> Verdict {
    if c.chance(1, 12) {
        return together(c);
    }
    match c.below(9) {
        0 => run::<u64>(c, false),
        1 => run::<i8>(c, false),
        2 => run::<char>(c, false),
        3 => run::<&'static str>(c, false),
        4 => run::<(bool, u16)>(c, false),
        5 => run::<Flat>(c, false),
        6 => run::<Fold>(c, false),
        _ => run::<Hot>(c, true),
    }
}

/// Several threads at once.
fn together(c: &mut Ctx) -> Verdict {
    let n = c.urange(2, 3);
    let ks: Vec<Case<Flat>> = (0..n).map(|_| gen::<Flat>(c)).collect();
    for k in &ks {
        c.case(dst::prng::hash_str(&format!("{:?} {:?} {:?}", k.pred, k.truth, k.labels)));
    }
    c.note(|| ks.iter().map(|k| format!("predictions {:?}, targets {:?}, labels {:?}", k.pred, k.truth, k.labels)).collect::<Vec<_>>().join("; "));
    c.nontrivial = true;
    let plan = Plan::new(Stream::plain(1));
    let mut span = 1;
    for k in &ks {
        span = span.max(run_solo(Box::new(|| compute(k, &plan))).1);
    }
    HASH_SEED.store(c.below(1 << 30), SeqCst);
    let p = &plan;
    let out = run_tasks(c, span, ks.iter().map(|k| Box::new(move || compute(k, p)) as Box<dyn FnOnce() -> (Got, u64, u64) + Send>).collect());
    HASH_SEED.store(1, SeqCst);
    for (k, (g, _, _)) in ks.iter().zip(&out) {
        check(c, k, g, "in one of several threads")?;
    }
    Ok(())
}
