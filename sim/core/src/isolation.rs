//! Concurrent callers of the random utilities.
use crate::elems::{Elem, Wide};
use dst::alloc::PATTERN;
use dst::prng::{hash_str, mix2};
use std::sync::atomic::Ordering::SeqCst;
use dst::{ensure, run_solo, run_tasks, step, Act, Caught, Ctx, Fault, Kind, Plan, SimRng, Stream, Verdict};
use rand::distributions::{IndependentSample, Sample};
use sut::learning::toolkit::rand_utils::*;
use sut::stats::dist::{Distribution, Exponential, Gaussian};

#[derive(Clone, Debug)]
enum Kop {
    Fy { ty: u8, n: usize },
    InPlace { ty: u8, n: usize },
    Reservoir { ty: u8, n: usize, k: usize },
    Gauss { own: bool, m: usize },
    Expo { own: bool, m: usize },
    Eval { m: usize },
}

#[derive(Clone, Debug)]
struct Job {
    op: Kop,
    plan: Plan,
}

fn gen_job(c: &mut Ctx) -> Job {
    let n = match c.below(6) {
        0 => c.urange(0, 3),
        1..=3 => c.urange(2, 9),
        4 => c.urange(5, 40),
        _ => c.urange(30, 300),
    };
    let ty = c.below(5) as u8;
    let op = match c.below(10) {
        0..=2 => Kop::Fy { ty, n },
        3 | 4 => Kop::InPlace { ty, n },
        5 | 6 => Kop::Reservoir { ty, n, k: c.urange(0, n) },
        7 => Kop::Gauss { own: c.chance(1, 3), m: c.urange(1, 8) },
        8 => Kop::Expo { own: c.chance(1, 3), m: c.urange(1, 8) },
        _ => Kop::Eval { m: c.urange(1, 4) },
    };
    let stream = if c.chance(1, 4) { Stream::gen(c) } else { Stream::gen_plain(c) };
    let mut plan = Plan::new(stream);
    if c.chance(1, 8) {
        plan.faults.push(Fault { kind: Kind::Draw, at: c.below(10), act: Act::Panic });
    }
    Job { op, plan }
}

fn elems<T: Elem>(n: usize) -> Vec<T> {
    (0..n as u64).map(T::make).collect()
}
fn keys<T: Elem>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.key()).collect()
}

type Out = (u8, Vec<u64>, u64);

fn typed<T: Elem>(job: &Job) -> Out {
    let wrap = |r: Result<(), Caught>, v: Vec<u64>, n: u64| match r {
        Ok(()) => (0, v, n),
        Err(Caught::Injected) => (1, v, n),
        Err(Caught::Panic(m)) => (2, vec![hash_str(&m)], n),
    };
    match job.op {
        Kop::Fy { n, .. } => {
            let base = elems::<T>(n);
            let op = step(&job.plan, || fisher_yates(&base));
            match op.res {
                Ok(v) => (0, keys(&v), op.points[0]),
                Err(e) => wrap(Err(e), vec![], op.points[0]),
            }
        }
        Kop::InPlace { n, .. } => {
            let mut base = elems::<T>(n);
            let op = step(&job.plan, || in_place_fisher_yates(&mut base));
            wrap(op.res, keys(&base), op.points[0])
        }
        Kop::Reservoir { n, k, .. } => {
            let base = elems::<T>(n);
            let op = step(&job.plan, || reservoir_sample(&base, k));
            match op.res {
                Ok(v) => (0, keys(&v), op.points[0]),
                Err(e) => wrap(Err(e), vec![], op.points[0]),
            }
        }
        _ => unreachable!(),
    }
}

fn perform(job: &Job, g: &Gaussian, e: &Exponential) -> Out {
    match job.op {
        Kop::Fy { ty, .. } | Kop::InPlace { ty, .. } | Kop::Reservoir { ty, .. } => match ty {
            0 => typed::<u8>(job),
            1 => typed::<u64>(job),
            2 => typed::<Wide>(job),
            3 => typed::<[u8; 3]>(job),
            _ => typed::<f64>(job),
        },
        Kop::Gauss { own, m } => {
            let mut r = SimRng::new(job.plan.stream);
            let mut v = Vec::new();
            let op = step(&job.plan, || {
                let mut mine = Gaussian::new(1.0, 4.0);
                for _ in 0..m {
                    v.push(if own { mine.sample(&mut r) } else { g.ind_sample(&mut r) }.to_bits());
                }
            });
            (op.res.is_err() as u8, v, r.pos)
        }
        Kop::Expo { own, m } => {
            let mut r = SimRng::new(job.plan.stream);
            let mut v = Vec::new();
            let op = step(&job.plan, || {
                let mut mine = Exponential::new(0.25);
                for _ in 0..m {
                    v.push(if own { mine.sample(&mut r) } else { e.ind_sample(&mut r) }.to_bits());
                }
            });
            (op.res.is_err() as u8, v, r.pos)
        }
        Kop::Eval { m } => {
            let mut v = Vec::new();
            let op = step(&job.plan, || {
                for i in 0..m {
                    let x = i as f64 * 0.7 + 0.1;
                    for y in [g.pdf(x), g.logpdf(x), g.cdf(x), e.pdf(x), e.logpdf(x), e.cdf(x)] {
                        v.push(y.to_bits());
                    }
                }
            });
            (op.res.is_err() as u8, v, 0)
        }
    }
}

pub fn isolated(c: &mut Ctx) -> Verdict {
    let nt = c.urange(2, 4);
    let jobs: Vec<Vec<Job>> = (0..nt)
        .map(|_| {
            let k = c.urange(1, 3);
            (0..k).map(|_| gen_job(c)).collect()
        })
        .collect();
    let g = Gaussian::new(c.below(5) as f64, 1.0 + c.below(4) as f64);
    let e = Exponential::new(0.5 + c.below(4) as f64);
    for (i, t) in jobs.iter().enumerate() {
        for j in t {
            c.note(|| format!("thread {}: {:?}", i, j));
            c.case(hash_str(&format!("{:?}", j.op)));
        }
    }
    let body = |t: &Vec<Job>| -> Vec<Out> { t.iter().map(|j| perform(j, &g, &e)).collect() };
    // Each thread alone, on a fresh thread. Fresh memory holds something else
    // than when the threads run together.
    let (m1, m2) = (c.below(6), c.below(6));
    // Half of the time the threads meet before any of them ran alone, so that
    // state kept for the process is met at its beginning.
    let first = c.chance(1, 2);
    let mut span = if first { 400 } else { 0 };
    let mut solo = Vec::new();
    let mut together = Vec::new();
    let p0 = c.counts.get("sched.preemptions").cloned().unwrap_or(0);
    for phase in 0..2 {
        PATTERN.store([m1, m2][phase], SeqCst);
        if first == (phase == 0) {
            together = run_tasks(c, span, jobs.iter().map(|t| Box::new(|| body(t)) as Box<dyn FnOnce() -> Vec<Out> + Send>).collect());
        } else {
            for t in &jobs {
                let (r, s) = run_solo(Box::new(|| body(t)));
                span = span.max(s);
                solo.push(r);
            }
        }
    }
    let pre = c.counts.get("sched.preemptions").cloned().unwrap_or(0) - p0;
    c.nontrivial = pre > 0;
    let i = *c.inter.last().unwrap();
    c.case(i);
    let failed = solo.iter().flatten().filter(|o| o.0 == 1).count();
    c.add("fault.rng_failure_fired", failed as u64);
    for (t, (a, b)) in solo.iter().zip(&together).enumerate() {
        for (j, (x, y)) in a.iter().zip(b).enumerate() {
            ensure!(x == y, "interference",
                "thread {} operation {} ({:?}): alone it gave {:?}, among {} threads it gave {:?}", t, j, jobs[t][j].op, brief(x), nt, brief(y));
            for v in &y.1 {
                c.see(mix2(*v, j as u64));
            }
        }
    }
    // And what ran before leaves no trace either.
    let t = c.below(nt as u64) as usize;
    let (again, _) = run_solo(Box::new(|| body(&jobs[t])));
    ensure!(again == solo[t], "history", "thread {} gave {:?} at first and {:?} after the others had run", t, solo[t].iter().map(brief).collect::<Vec<_>>(), again.iter().map(brief).collect::<Vec<_>>());
    c.sample = Some(format!("{} threads, {} operations, {} preemptions, {} failed draws, interleaving {:x}", nt, jobs.iter().map(|j| j.len()).sum::<usize>(), pre, failed, i));
    Ok(())
}

fn brief(o: &Out) -> String {
    let how = ["ok", "generator failed", "panic"][o.0 as usize];
    format!("{} {:?} after {} draws", how, &o.1[..o.1.len().min(12)], o.2)
}
