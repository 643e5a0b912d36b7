//! C16, C17: the optimisation algorithms around a recording cost function.
use crate::util::*;
use dst::prng::{mix, mix2, Prng};
use dst::sched::{call_point, outside};
use dst::{ensure, fail, stat, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;

/// One call of the cost function.
#[derive(Clone, Debug)]
struct Call {
    params: Vec<f64>,
    /// names of the rows and of the targets handed over
    rows: Vec<(u64, u64)>,
    whole: bool,
    cost: f64,
    grad: Vec<f64>,
}

/// The cost functions.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cost {
    /// least squares on the given rows
    Squares,
    /// narrow curved valley, whatever the data
    Valley,
    /// numbers out of the air: gradients have nothing to do with costs
    Noise(u64, f64),
    /// the same cost for whole passes, changing now and then
    Steps(u64),
    /// never anything but zero cost
    Zero,
    /// no gradient
    Flat,
    /// falls for ever
    Slope,
    /// not defined everywhere
    Root,
    /// steep
    Steep,
    /// a saddle
    Saddle,
}

struct Rec<'a> {
    log: &'a RefCell<Vec<Call>>,
    cost: Cost,
    n: usize,
}

impl<'a> Rec<'a> {
    fn value(&self, p: &[f64], x: &[Vec<f64>], y: &[Vec<f64>], i: usize) -> (f64, Vec<f64>) {
        let d = p.len();
        match self.cost {
            Cost::Squares => {
                let (mut c, mut g) = (0.0, vec![0.0; d]);
                for (x, y) in x.iter().zip(y) {
                    let e = (0..d).map(|j| p[j] * x[1 + j % (x.len() - 1).max(1)].min(4.0)).sum::<f64>() - y[1];
                    c += 0.5 * e * e;
                    for j in 0..d {
                        g[j] += e * x[1 + j % (x.len() - 1).max(1)].min(4.0);
                    }
                }
                (c, g)
            }
            Cost::Valley => {
                let (mut c, mut g) = (0.0, vec![0.0; d]);
                for j in 0..d {
                    let q = if j + 1 < d { p[j + 1] } else { 1.0 };
                    c += 10.0 * (q - p[j] * p[j]).powi(2) + (1.0 - p[j]).powi(2);
                    g[j] += -40.0 * p[j] * (q - p[j] * p[j]) - 2.0 * (1.0 - p[j]);
                    if j + 1 < d {
                        g[j + 1] += 20.0 * (q - p[j] * p[j]);
                    }
                }
                (c, g)
            }
            Cost::Noise(s, k) => {
                let mut b = Prng::new(mix2(s, i as u64));
                let c = b.normal() * k;
                (c, (0..d).map(|_| b.normal()).collect())
            }
            Cost::Steps(s) => {
                let pass = i / self.n.max(1);
                // runs of equal levels of some length
                let level = pass as u64 / (1 + s % 4);
                let mut b = Prng::new(mix2(s, i as u64));
                (0.25 * (1 + mix(level + s) % 7) as f64, (0..d).map(|_| b.normal()).collect())
            }
            Cost::Zero => (0.0, p.iter().map(|x| x - 1.0).collect()),
            Cost::Flat => (1.5, vec![0.0; d]),
            Cost::Slope => (p.iter().sum(), vec![1.0; d]),
            Cost::Root => {
                let s: f64 = p.iter().map(|x| x * x).sum();
                ((1.0 - s).sqrt() + s, p.iter().map(|x| -x / (1.0 - s).sqrt() + 2.0 * x).collect())
            }
            Cost::Steep => (p.iter().map(|x| 1e60 * x * x).sum(), p.iter().map(|x| 2e60 * x).collect()),
            Cost::Saddle => {
                let sign = |j: usize| if j % 2 == 0 { 1.0 } else { -1.0 };
                ((0..d).map(|j| sign(j) * p[j] * p[j]).sum(), (0..d).map(|j| 2.0 * sign(j) * p[j]).collect())
            }
        }
    }
}

impl<'a> Optimizable for Rec<'a> {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> (f64, Vec<f64>) {
        let act = call_point();
        outside(|| {
            let (xr, yr) = (rows(x), rows(y));
            let i = self.log.borrow().len();
            let (mut c, mut g) = self.value(p, &xr, &yr, i);
            match act {
                Some(Act::Nan) => {
                    c = f64::NAN;
                    if i % 2 == 0 {
                        g[0] = f64::NAN;
                    }
                }
                Some(Act::Inf) => {
                    c = f64::INFINITY;
                    if i % 2 == 0 {
                        g[0] = f64::NEG_INFINITY;
                    }
                }
                Some(Act::Err) => c = f64::NAN,
                _ => {}
            }
            let whole = xr.iter().all(|r| r.len() == x.cols() && (1..r.len()).all(|j| r[j] == cell(r[0], j)))
                && yr.iter().all(|r| (1..r.len()).all(|j| r[j] == cell(r[0] + 0.5, j)));
            let names = (0..xr.len().max(yr.len())).map(|i| (xr.get(i).map(|r| r[0] as u64).unwrap_or(999_999), yr.get(i).map(|r| r[0] as u64).unwrap_or(999_999))).collect();
            self.log.borrow_mut().push(Call { params: p.to_vec(), rows: names, whole, cost: c, grad: g.clone() });
            (c, g)
        })
    }
}

/// Contents of a sample, by its name and column.
fn cell(name: f64, j: usize) -> f64 {
    ((mix2((name * 2.0) as u64, j as u64) % 4001) as f64 - 2000.0) / 1000.0
}
fn samples(n: usize, d: usize, t: usize) -> (Matrix<f64>, Matrix<f64>) {
    let f = |w: usize, half: f64| {
        let v: Vec<f64> = (0..n).flat_map(|i| (0..w + 1).map(move |j| if j == 0 { i as f64 } else { cell(i as f64 + half, j) })).collect();
        Matrix::new(n, w + 1, v)
    };
    (f(d, 0.0), f(t, 0.5))
}

#[derive(Clone, Copy, Debug)]
enum Alg {
    Sgd { alpha: f64, mu: f64 },
    Ada { alpha: f64, tau: f64 },
    Rms { lr: f64, decay: f64, eps: f64 },
    Gd { alpha: f64 },
    Cg { cg: ConjugateGD },
}

/// An algorithm, which may be used for several optimisations.
enum Made {
    Sgd(StochasticGD),
    Ada(AdaGrad),
    Rms(RMSProp),
    Gd(GradientDesc),
    Cg(ConjugateGD),
}
impl Made {
    fn new(a: &Alg, iters: usize) -> Made {
        match *a {
            Alg::Sgd { alpha, mu } => Made::Sgd(StochasticGD::new(alpha, mu, iters)),
            Alg::Ada { alpha, tau } => Made::Ada(AdaGrad::new(alpha, tau, iters)),
            Alg::Rms { lr, decay, eps } => Made::Rms(RMSProp::new(lr, decay, eps, iters)),
            Alg::Gd { alpha } => Made::Gd(GradientDesc::new(alpha, iters)),
            Alg::Cg { cg } => Made::Cg(ConjugateGD { iters, ..cg }),
        }
    }
    fn run(&self, m: &Rec, start: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> Vec<f64> {
        match self {
            Made::Sgd(a) => a.optimize(m, start, x, y),
            Made::Ada(a) => a.optimize(m, start, x, y),
            Made::Rms(a) => a.optimize(m, start, x, y),
            Made::Gd(a) => a.optimize(m, start, x, y),
            Made::Cg(a) => a.optimize(m, start, x, y),
        }
    }
}

fn gen_cost(c: &mut Ctx) -> Cost {
    match c.below(12) {
        0 | 1 => Cost::Squares,
        2 => Cost::Valley,
        3 => Cost::Noise(c.below(1 << 20), 1.0),
        4 => {
            let s = c.below(1 << 20);
            Cost::Noise(s, *c.pick(&[1e-12, 1e-6, 1e3]))
        }
        5 | 6 => Cost::Steps(c.below(1 << 12)),
        7 => Cost::Zero,
        8 => Cost::Flat,
        9 => Cost::Slope,
        10 => *c.pick(&[Cost::Root, Cost::Steep]),
        _ => Cost::Saddle,
    }
}

fn stochastic_alg(c: &mut Ctx) -> Alg {
    match c.below(3) {
        0 => Alg::Sgd { alpha: *c.pick(&[0.1, 0.5, 0.9, 0.01]), mu: *c.pick(&[0.1, 0.3, 0.02, 1.0]) },
        1 => Alg::Ada { alpha: *c.pick(&[1.0, 0.5, 0.1]), tau: *c.pick(&[3.0, 1.0, 0.25, 0.0]) },
        _ => Alg::Rms { lr: *c.pick(&[0.01, 0.1, 0.99]), decay: *c.pick(&[0.9, 0.5, 0.01]), eps: *c.pick(&[1e-5, 1e-2, 1.0]) },
    }
}

/// The documented update rules, following the gradients given out.
struct Rule {
    alg: Alg,
    /// velocity, sum or average of squares
    s: Vec<f64>,
    /// size of the terms that made it up
    size: Vec<f64>,
}
impl Rule {
    fn new(alg: Alg, d: usize) -> Rule {
        Rule { alg, s: vec![0.0; d], size: vec![0.0; d] }
    }
    /// The next parameters, and how large the terms they were made of are.
    fn next(&mut self, p: &[f64], g: &[f64]) -> Vec<(f64, f64)> {
        (0..p.len())
            .map(|j| match self.alg {
                Alg::Sgd { alpha, mu } => {
                    let (old, olds) = (self.s[j], self.size[j]);
                    self.s[j] = mu * g[j] + alpha * old;
                    self.size[j] = (mu * g[j]).abs() + alpha * olds;
                    (p[j] - ((1.0 + alpha) * self.s[j] - alpha * old), p[j].abs() + 2.0 * self.size[j] + olds)
                }
                Alg::Ada { alpha, tau } => {
                    self.s[j] += g[j] * g[j];
                    let u = alpha * g[j] / (tau + self.s[j].sqrt());
                    (p[j] - u, p[j].abs() + u.abs())
                }
                Alg::Rms { lr, decay, eps } => {
                    self.s[j] = decay * self.s[j] + (1.0 - decay) * g[j] * g[j];
                    let u = lr * g[j] / (self.s[j] + eps).sqrt();
                    (p[j] - u, p[j].abs() + u.abs())
                }
                Alg::Gd { alpha } => (p[j] - alpha * g[j], p[j].abs() + (alpha * g[j]).abs()),
                Alg::Cg { .. } => unreachable!(),
            })
            .collect()
    }
}

fn near(got: &[f64], want: &[(f64, f64)]) -> Option<usize> {
    (0..want.len()).find(|&j| {
        let (w, s) = want[j];
        // once infinite or undefined, the terms' order may matter
        s.is_finite() && s < 1e290 && w.is_finite() && !((got[j] - w).abs() <= 1e-9 * s + 1e-290)
    })
}

/// Whether optimisation must stop (Some(true)), must go on, or may do either
/// after costs went from `a` to `b`.
fn must_stop(a: &[f64], b: &[f64], n: usize) -> Option<bool> {
    let mean = |v: &[f64]| v.iter().sum::<f64>() / n as f64;
    let one = |v: &[f64]| v.windows(2).all(|w| w[0] == w[1]);
    let (x, y) = (mean(a), mean(b));
    if x.is_nan() || y.is_nan() || (x - y).is_nan() {
        return Some(false);
    }
    if one(a) && one(b) && a[0] == b[0] {
        return if a[0].is_finite() { Some(true) } else { None };
    }
    let size = a.iter().chain(b).fold(0.0f64, |m, v| m.max(v.abs()));
    if (x - y).abs() > 1e-9 * size && (x - y).abs() > 1e-19 {
        return Some(false);
    }
    None
}

fn add_fault(c: &mut Ctx, plan: &mut Plan, calls: u64) {
    if c.chance(2, 5) {
        for _ in 0..c.range(1, 3) {
            let at = match c.below(4) {
                0 => c.below(3),
                _ => c.below(calls.max(1)),
            };
            let act = *c.pick(&[Act::Nan, Act::Inf, Act::Err, Act::Panic]);
            plan.faults.push(Fault { kind: Kind::Call, at, act });
        }
    }
}

// ------------------------------------------------------------------- C16

pub fn stochastic(c: &mut Ctx) -> Verdict {
    if c.chance(1, 120) {
        return order_law(c);
    }
    let alg = stochastic_alg(c);
    let iters = match c.below(4) {
        0 => c.urange(0, 2),
        _ => c.urange(1, 12),
    };
    let made = Made::new(&alg, iters);
    let times = c.urange(1, 3);
    for _ in 0..times {
        let n = match c.below(5) {
            0 => c.urange(1, 2),
            4 => c.urange(5, 40),
            _ => c.urange(2, 8),
        };
        let (d, t) = (width(c, 4), width(c, 3));
        let cost = gen_cost(c);
        let mut b = c.bulk();
        let start: Vec<f64> = (0..d).map(|_| b.normal()).collect();
        let (x, y) = samples(n, d, t);
        let mut plan = Plan::new(stream(c));
        add_fault(c, &mut plan, (n * iters) as u64);
        draw_fault(c, &mut plan, (n * iters) as u64);
        c.case(mix2(mix2(n as u64, d as u64), mix2(plan.stream.seed, iters as u64)));
        c.note(|| format!("{:?} for {} passes over {} samples, {:?}, from {:?}, {:?} {:?}", alg, iters, n, cost, start, plan.stream, plan.faults));
        let log = RefCell::new(Vec::new());
        memory(c);
        let op = step(&plan, || made.run(&Rec { log: &log, cost, n }, &start, &x, &y));
        memory_off();
        note_fired(c, &plan, op.fired);
        let log = log.into_inner();
        c.add("calls", log.len() as u64);
        let what = || format!("{:?} for {} passes over {} samples", alg, iters, n);
        // passes
        let full = log.len() / n;
        ensure!(log.len() <= n * iters, "too-many-calls", "{}: {} calls of the cost function", what(), log.len());
        for (p, pass) in log.chunks(n).enumerate() {
            let mut seen = vec![0; n];
            for k in pass {
                ensure!(k.rows.len() == 1, "not-one-row", "{}: a call got {} rows", what(), k.rows.len());
                let (a, b) = k.rows[0];
                ensure!(a == b && (a as usize) < n && k.whole, "mispaired", "{}: sample {} came with the target of sample {}{}", what(), a, b, if k.whole { "" } else { ", its columns mixed up" });
                seen[a as usize] += 1;
            }
            ensure!(seen.iter().all(|s| *s <= 1), "sample-repeated", "{}: pass {} visited the samples {:?} times", what(), p, seen);
            c.see(dst::prng::hash_str(&format!("{:?}", pass.iter().map(|k| k.rows[0].0).collect::<Vec<_>>())));
        }
        if let Some(k) = log.first() {
            ensure!(bits(&k.params) == bits(&start), "wrong-start", "{} began at {} rather than {}", what(), brief(&k.params), brief(&start));
        }
        // updates
        let mut rule = Rule::new(alg, d);
        let mut next: Option<Vec<(f64, f64)>> = None;
        for (i, k) in log.iter().enumerate() {
            if let Some(w) = &next {
                if let Some(j) = near(&k.params, w) {
                    fail!("wrong-update", "{}: after call {} (gradient {}) parameter {} went from {} to {}, the rule says {}", what(), i - 1, brief(&log[i - 1].grad), j, log[i - 1].params[j], k.params[j], w[j].0);
                }
            }
            next = Some(rule.next(&k.params, &k.grad));
        }
        // ends
        match &op.res {
            Ok(r) => {
                ensure!(r.len() == d, "length", "{} returned {} parameters of {}", what(), r.len(), d);
                match &next {
                    Some(w) => {
                        if let Some(j) = near(r, w) {
                            fail!("wrong-update", "{}: after the last call (gradient {}) parameter {} went from {} to {}, the rule says {}", what(), brief(&log[log.len() - 1].grad), j, log[log.len() - 1].params[j], r[j], w[j].0);
                        }
                    }
                    None => ensure!(bits(r) == bits(&start), "wrong-update", "{} made no pass but returned {} for {}", what(), brief(r), brief(&start)),
                }
                ensure!(log.len() == full * n, "broken-pass", "{}: {} calls are not whole passes", what(), log.len());
                let costs: Vec<Vec<f64>> = log.chunks(n).map(|p| p.iter().map(|k| k.cost).collect()).collect();
                let zero = vec![0.0; n];
                for p in 0..full {
                    let before = if p == 0 { &zero } else { &costs[p - 1] };
                    match must_stop(before, &costs[p], n) {
                        Some(true) => {
                            ensure!(p + 1 == full, "went-on", "{}: the cost was {} in two passes on end but there were {} passes", what(), costs[p][0], full);
                            c.hit("probe.early_stops");
                        }
                        Some(false) => ensure!(p + 1 < full || full == iters, "stopped-early", "{}: stopped after {} passes, though the cost changed", what(), full),
                        None => c.hit("probe.either_way"),
                    }
                }
                if full == 0 {
                    ensure!(iters == 0, "stopped-early", "{} made no pass", what());
                }
                for v in r {
                    c.see_f(*v);
                }
                c.nontrivial |= full >= 2 && n >= 2;
            }
            Err(Caught::Injected) => c.hit("probe.failed_midway"),
            Err(Caught::Panic(m)) => fail!("panic", "{} panicked: {}", what(), m),
        }
        c.sample = Some(format!("{}: {:?}, {} calls", what(), cost, log.len()));
    }
    Ok(())
}

/// Every order of the samples is equally likely in every pass, and passes are
/// independent.
fn order_law(c: &mut Ctx) -> Verdict {
    let alg = stochastic_alg(c);
    let n = c.urange(2, 7);
    let passes = c.urange(1, 3);
    let m = if c.thorough { 4000 } else { 1200 };
    let seed = c.below(1 << 40);
    let made = Made::new(&alg, passes);
    let (x, y) = samples(n, 1, 1);
    c.case(mix2(n as u64, seed));
    c.hit("experiments");
    c.add("trials", m);
    c.nontrivial = true;
    let mut orders = vec![vec![0u64; if n <= 4 { fact(n) } else { 0 }]; passes];
    let mut place = vec![vec![0u64; n * n]; passes];
    let mut joint = vec![0u64; n * n];
    for i in 0..m {
        let log = RefCell::new(Vec::new());
        let plan = Plan::new(Stream::plain(mix2(seed, i)));
        let op = step(&plan, || made.run(&Rec { log: &log, cost: Cost::Noise(i, 1.0), n }, &[0.5], &x, &y));
        ensure!(op.res.is_ok(), "panic", "{:?} failed", alg);
        let log = log.into_inner();
        ensure!(log.len() == n * passes, "broken-pass", "{:?}: {} calls for {} passes over {} samples", alg, log.len(), passes, n);
        let mut first = 0;
        for (p, pass) in log.chunks(n).enumerate() {
            let o: Vec<usize> = pass.iter().map(|k| k.rows.first().map(|r| r.0 as usize).unwrap_or(n)).collect();
            let mut s = o.clone();
            s.sort();
            ensure!(s == (0..n).collect::<Vec<_>>(), "sample-repeated", "{:?}: a pass visited {:?}", alg, o);
            if n <= 4 {
                orders[p][rank(&o)] += 1;
            }
            for (j, v) in o.iter().enumerate() {
                place[p][j * n + v] += 1;
            }
            if p == 0 {
                first = o[0];
            } else if p == 1 {
                joint[first * n + o[0]] += 1;
            }
        }
    }
    let mut test = |name: &str, counts: &[u64]| -> Verdict {
        let (x2, p, df) = stat::chi2_test(counts, &vec![m as f64 / counts.len() as f64; counts.len()], 1.0);
        c.see(x2.to_bits());
        ensure!(p > P, "biased-order", "{:?} over {} samples: {} (chi2={:.1}, df={}, p={:e}): {:?}", alg, n, name, x2, df, p, counts);
        Ok(())
    };
    for p in 0..passes {
        if n <= 4 {
            test(&format!("orders of pass {} are not equally likely", p), &orders[p])?;
        }
        for j in 0..n {
            test(&format!("samples at place {} of pass {} are not equally likely", j, p), &place[p][j * n..(j + 1) * n])?;
        }
    }
    if passes > 1 {
        test("the second pass depends on the first", &joint)?;
    }
    c.sample = Some(format!("order law of {:?}, {} samples, {} passes, {} trials", alg, n, passes, m));
    Ok(())
}

// ------------------------------------------------------------------- C17

pub fn batch(c: &mut Ctx) -> Verdict {
    let iters = match c.below(4) {
        0 => c.urange(0, 3),
        3 => c.urange(20, 120),
        _ => c.urange(1, 25),
    };
    let cg = c.chance(3, 5);
    let alg = if cg {
        let d = ConjugateGD::default();
        Alg::Cg {
            cg: ConjugateGD {
                rho: *c.pick(&[d.rho, 0.001, 0.1]),
                sig: *c.pick(&[d.sig, 0.2, 0.9]),
                int: *c.pick(&[d.int, 0.01, 0.3]),
                ext: *c.pick(&[d.ext, 1.5, 10.0]),
                max: *c.pick(&[d.max, 1, 2, 5, 0]),
                ratio: *c.pick(&[d.ratio, 2.0, 1.0]),
                iters,
            },
        }
    } else {
        Alg::Gd { alpha: *c.pick(&[0.1, 0.3, 1.0, 0.01]) }
    };
    let made = Made::new(&alg, iters);
    let times = c.urange(1, 3);
    for _ in 0..times {
        let (n, d) = (c.urange(1, 6), width(c, 4));
        let cost = gen_cost(c);
        let mut b = c.bulk();
        let scale = *c.pick(&[1.0, 0.1, 10.0, 0.0]);
        let start: Vec<f64> = (0..d).map(|_| b.normal() * scale).collect();
        let (x, y) = samples(n, d, 1);
        let mut plan = Plan::new(stream(c));
        let most = match alg {
            Alg::Cg { cg } => 1 + iters * (1 + cg.max),
            _ => iters,
        };
        add_fault(c, &mut plan, most as u64);
        c.case(mix2(mix2(n as u64, d as u64), mix2(start[0].to_bits(), iters as u64)));
        c.note(|| format!("{:?} for {} iterations, {:?}, from {:?}, {:?}", alg, iters, cost, start, plan.faults));
        let log = RefCell::new(Vec::new());
        memory(c);
        // one call of the cost counts as a step for the passes of Cost::Steps
        let op = step(&plan, || made.run(&Rec { log: &log, cost, n: 1 }, &start, &x, &y));
        memory_off();
        note_fired(c, &plan, op.fired);
        let log = log.into_inner();
        c.add("calls", log.len() as u64);
        let what = || format!("{:?} for {} iterations on {:?}", alg, iters, cost);
        ensure!(log.len() <= most, "too-many-calls", "{}: {} calls of the cost function, {} allowed", what(), log.len(), most);
        for k in &log {
            let all: Vec<(u64, u64)> = (0..n as u64).map(|i| (i, i)).collect();
            ensure!(k.rows == all && k.whole, "mispaired", "{}: a call got the rows {:?}", what(), k.rows);
            ensure!(k.params.len() == d, "length", "{}: a call got {} parameters of {}", what(), k.params.len(), d);
        }
        if let Some(k) = log.first() {
            ensure!(bits(&k.params) == bits(&start), "wrong-start", "{} began at {} rather than {}", what(), brief(&k.params), brief(&start));
        }
        let r = match &op.res {
            Ok(r) => r,
            Err(Caught::Injected) => {
                c.hit("probe.failed_midway");
                continue;
            }
            Err(Caught::Panic(m)) => fail!("panic", "{} panicked: {}", what(), m),
        };
        ensure!(r.len() == d, "length", "{} returned {} parameters of {}", what(), r.len(), d);
        for v in r {
            c.see_f(*v);
        }
        c.nontrivial |= log.len() > 2;
        match alg {
            Alg::Cg { .. } => {
                ensure!(!log.is_empty(), "no-call", "{} never called the cost function", what());
                // what comes back was tried
                let tried: Vec<&Call> = log.iter().filter(|k| k.params.iter().zip(r.iter()).all(|(a, b)| canon(*a) == canon(*b) || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()))).collect();
                ensure!(!tried.is_empty(), "untried", "{} returned {}, where the cost was never computed", what(), brief(r));
                let tame = log.iter().all(|k| k.cost.abs() < 1e120 && k.grad.iter().all(|g| g.abs() < 1e120));
                if tame {
                    c.hit("probe.finite_cost");
                    let f0 = log[0].cost;
                    let best = tried.iter().map(|k| k.cost).fold(f64::INFINITY, f64::min);
                    ensure!(best <= f0 + 1e-9 * f0.abs(), "worse", "{} returned a point of cost {} having started at cost {}", what(), best, f0);
                }
            }
            _ => {
                let mut rule = Rule::new(alg, d);
                let mut stopped = None;
                for (i, k) in log.iter().enumerate() {
                    let w = rule.next(&k.params, &k.grad);
                    let last = i + 1 == log.len();
                    let got = if last { r } else { &log[i + 1].params };
                    let before = [if i == 0 { 0.0 } else { log[i - 1].cost }];
                    let must = must_stop(&before, &[k.cost], 1);
                    if let Some(true) = must {
                        ensure!(last, "went-on", "{}: the cost stayed {} but there were further calls", what(), k.cost);
                        c.hit("probe.early_stops");
                    }
                    let kept = last && bits(got) == bits(&k.params);
                    if last && must != Some(false) && kept {
                        stopped = Some(i);
                    } else if let Some(j) = near(got, &w) {
                        fail!("wrong-update", "{}: after call {} (gradient {}) parameter {} went from {} to {}, the rule says {}", what(), i, brief(&k.grad), j, k.params[j], got[j], w[j].0);
                    }
                    if last && must == Some(true) {
                        ensure!(kept, "went-on", "{}: the cost stayed {} but the parameters moved", what(), k.cost);
                    }
                }
                ensure!(stopped.is_some() || log.len() == iters, "stopped-early", "{} made only {} calls, though the cost changed", what(), log.len());
                if log.is_empty() {
                    ensure!(bits(r) == bits(&start), "wrong-update", "{} made no call but returned {} for {}", what(), brief(r), brief(&start));
                }
            }
        }
        c.sample = Some(format!("{}: {} calls", what(), log.len()));
    }
    Ok(())
}
