//! C15: Gaussian mixtures, iteration by iteration.
use crate::util::*;
use dst::prng::mix2;
use dst::{ensure, fail, step, Caught, Ctx, Plan, Verdict};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::{LearningResult, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cov {
    Full,
    Diag,
    Reg(f64),
}

struct Fit {
    w: Vec<f64>,
    mu: Vec<Vec<f64>>,
    cov: Vec<Vec<Vec<f64>>>,
    predict: Result<Vec<Vec<f64>>, String>,
}

enum Out {
    Fit(Fit),
    Refused(String),
    Injected,
}

fn fit(k: usize, w: &Option<Vec<f64>>, cov: Cov, iters: usize, x: &Matrix<f64>, probe: &Matrix<f64>, plan: &Plan) -> (Out, u64) {
    let mut g = match w {
        Some(w) => GaussianMixtureModel::with_weights(k, Vector::new(w.clone())).expect("weights"),
        None => GaussianMixtureModel::new(k),
    };
    g.set_max_iters(iters);
    g.cov_option = match cov {
        Cov::Full => CovOption::Full,
        Cov::Diag => CovOption::Diagonal,
        Cov::Reg(e) => CovOption::Regularized(e),
    };
    let op = step(plan, || -> LearningResult<_> {
        g.train(x)?;
        Ok(g.predict(probe))
    });
    let o = match op.res {
        Ok(Ok(p)) => {
            let mu = g.means().map(rows).unwrap_or_default();
            let cov = g.covariances().map(|v| v.iter().map(rows).collect()).unwrap_or_default();
            Out::Fit(Fit { w: g.mixture_weights().data().clone(), mu, cov, predict: p.map(|m| rows(&m)).map_err(|e| format!("{}", e)) })
        }
        Ok(Err(e)) => Out::Refused(format!("{}", e)),
        Err(Caught::Injected) => Out::Injected,
        Err(e) => Out::Refused(caught(&e)),
    };
    (o, op.fired)
}

/// Cholesky factor, if the matrix is well conditioned enough for rounding
/// not to matter.
fn chol(a: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let d = a.len();
    let mut l = vec![vec![0.0; d]; d];
    for i in 0..d {
        for j in 0..=i {
            let mut s = a[i][j];
            for q in 0..j {
                s -= l[i][q] * l[j][q];
            }
            if i == j {
                if !(s > 1e-6 * a[i][i]) {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}

/// Log-likelihood of the rows (up to a constant) and responsibilities.
fn likelihood(f: &Fit, x: &[Vec<f64>], spread: &[f64]) -> Option<(f64, Vec<Vec<f64>>)> {
    let d = x[0].len();
    let mut fs = Vec::new();
    for c in &f.cov {
        if (0..d).any(|j| !(c[j][j] > 1e-7 * spread[j])) {
            return None;
        }
        let l = chol(c)?;
        // smallest pivot, relative to the variances: how much rounding grows
        let worst = (0..d).map(|i| l[i][i] * l[i][i] / c[i][i]).fold(1.0f64, f64::min);
        fs.push((l, 1.0 / worst));
    }
    let mut ll = 0.0;
    let mut resp = Vec::new();
    let mut unsure = false;
    for r in x {
        let t: Vec<f64> = (0..f.mu.len())
            .map(|k| {
                let (l, grow) = &fs[k];
                let reach: f64 = (0..d).map(|i| (r[i] - f.mu[k][i]).powi(2) / f.cov[k][i][i]).sum();
                unsure |= 1e-16 * grow * grow * (1.0 + reach) > 1e-8;
                let mut z = vec![0.0; d];
                let (mut m, mut det) = (0.0, 0.0);
                for i in 0..d {
                    let mut s = r[i] - f.mu[k][i];
                    for q in 0..i {
                        s -= l[i][q] * z[q];
                    }
                    z[i] = s / l[i][i];
                    m += z[i] * z[i];
                    det += l[i][i].ln();
                }
                f.w[k].ln() - 0.5 * m - det
            })
            .collect();
        let top = t.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let s: f64 = t.iter().map(|v| (v - top).exp()).sum();
        ll += top + s.ln();
        resp.push(t.iter().map(|v| (v - top).exp() / s).collect());
    }
    if unsure {
        return None;
    }
    Some((ll, resp))
}

/// One EM step from the given parameters, if they are well conditioned.
fn em_step(f: &Fit, x: &[Vec<f64>], spread: &[f64], cov: Cov) -> Option<Fit> {
    let (_, r) = likelihood(f, x, spread)?;
    let (n, d, k) = (x.len(), x[0].len(), f.w.len());
    let mut g = Fit { w: vec![], mu: vec![], cov: vec![], predict: Ok(vec![]) };
    for j in 0..k {
        let s: f64 = (0..n).map(|i| r[i][j]).sum();
        // a component that all but vanishes is dominated by rounding
        if s < 1e-3 {
            return None;
        }
        let mu: Vec<f64> = (0..d).map(|q| (0..n).map(|i| r[i][j] * x[i][q]).sum::<f64>() / s).collect();
        let mut m = vec![vec![0.0; d]; d];
        for a in 0..d {
            for b in 0..d {
                if a == b || cov != Cov::Diag {
                    m[a][b] = (0..n).map(|i| r[i][j] * (x[i][a] - mu[a]) * (x[i][b] - mu[b])).sum::<f64>() / s;
                }
            }
            if let Cov::Reg(e) = cov {
                m[a][a] += e;
            }
        }
        g.w.push(s / n as f64);
        g.mu.push(mu);
        g.cov.push(m);
    }
    Some(g)
}

/// How far apart two sets of parameters are, in units of the data's spread.
fn apart(a: &Fit, b: &Fit, spread: &[f64]) -> f64 {
    let d = spread.len();
    let mut m = 0.0f64;
    for j in 0..a.w.len() {
        m = m.max((a.w[j] - b.w[j]).abs());
        for p in 0..d {
            m = m.max((a.mu[j][p] - b.mu[j][p]).abs() / spread[p].sqrt());
            for q in 0..d {
                m = m.max((a.cov[j][p][q] - b.cov[j][p][q]).abs() / (spread[p] * spread[q]).sqrt());
            }
        }
    }
    m
}

/// With an ordinary generator every row is a starting mean equally often.
fn start_law(c: &mut Ctx) -> Verdict {
    let n = c.urange(3, 20);
    let k = c.urange(1, 4.min(n - 1));
    let mut b = c.bulk();
    let x = normal_matrix(&mut b, n, 2, 1.0);
    let xs = rows(&x);
    let m = if c.thorough { 8000 } else { 1500 };
    let seed = c.below(1 << 40);
    c.case(mix2(mix2(n as u64, k as u64), seed));
    c.note(|| format!("start law, {} components on {} rows, {} trials from {}", k, n, m, seed));
    c.hit("experiments");
    c.add("trials", m);
    c.nontrivial = true;
    let mut o = vec![0u64; n];
    for t in 0..m {
        let plan = Plan::new(dst::Stream::plain(mix2(seed, t)));
        match fit(k, &None, Cov::Diag, 0, &x, &x, &plan).0 {
            Out::Fit(f) => {
                for r in &f.mu {
                    match xs.iter().position(|y| bits(y) == bits(r)) {
                        Some(i) => o[i] += 1,
                        None => fail!("start", "a mixture of {} starts from {:?}, not rows", k, f.mu),
                    }
                }
            }
            _ => fail!("refuses", "a mixture of {} on {} rows does not start", k, n),
        }
    }
    let e = m as f64 * k as f64 / n as f64;
    let x2 = o.iter().map(|v| (*v as f64 - e).powi(2) / e).sum::<f64>() * (n - 1) as f64 / (n - k) as f64;
    let p = dst::stat::chi2_p(x2, n - 1);
    c.see(x2.to_bits());
    ensure!(p > P, "biased-start", "a mixture of {} on {} rows does not start from each row equally often (chi2={:.1}, df={}, p={:e}): {:?}", k, n, x2, n - 1, p, o);
    c.sample = Some(format!("start law, {} components on {} rows, {} trials, p={:.3e}", k, n, m, p));
    Ok(())
}

pub fn mixtures(c: &mut Ctx) -> Verdict {
    if c.chance(1, 500) {
        return start_law(c);
    }
    let (d, k) = match c.below(10) {
        0 => (c.urange(1, 3), c.urange(4, 7)),
        1 => (c.urange(4, 7), c.urange(1, 3)),
        _ => (c.urange(1, 3), c.urange(1, 3)),
    };
    let n = match c.below(4) {
        0 => c.urange(2, 5),
        3 => c.urange(20, if d * k > 9 { 40 } else { 80 }),
        _ => c.urange(5, 24),
    };
    let style = *c.pick(&["clusters", "one cloud", "outlier", "far outlier", "lattice", "repeated", "correlated", "large"]);
    let mut b = c.bulk();
    let x: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let s = b.normal();
            (0..d)
                .map(|j| match style {
                    "clusters" => b.normal() + 6.0 * (i % 3) as f64 * if j == 0 { 1.0 } else { -0.5 },
                    "outlier" => b.normal() + if i == 0 { 15.0 } else { 0.0 },
                    "far outlier" => b.normal() + if i == n / 2 { 1e4 } else { 0.0 },
                    "lattice" => b.below(4) as f64,
                    "repeated" => (i % 4 * (j + 1)) as f64 + if i >= 8 { 0.01 * b.normal() } else { 0.0 },
                    "correlated" => s + 0.05 * b.normal(),
                    "large" => 1e4 + 10.0 * b.normal(),
                    _ => b.normal(),
                })
                .collect()
        })
        .collect();
    let xm = Matrix::new(n, d, x.iter().flatten().cloned().collect::<Vec<_>>());
    let cov = match c.below(5) {
        0 | 1 => Cov::Full,
        2 => Cov::Reg(*c.pick(&[0.1, 1e-3, 1.0])),
        _ => Cov::Diag,
    };
    let w = match c.below(3) {
        0 | 1 => None,
        _ => Some((0..k).map(|i| if i > 0 && b.below(6) == 0 { 0.0 } else { 0.1 + b.f64() }).collect::<Vec<f64>>()),
    };
    // weights that are none are refused
    if w.is_some() && c.chance(1, 4) {
        let mut v = w.clone().unwrap();
        let at = b.below(k as u64) as usize;
        let how = match c.below(3) {
            0 => {
                v[at] = -0.01 - b.f64();
                "with a negative one"
            }
            1 => {
                v.insert(at, 0.5);
                "one too many"
            }
            _ => {
                v.remove(at);
                "one too few"
            }
        };
        c.hit("probe.bad_weights");
        ensure!(GaussianMixtureModel::with_weights(k, Vector::new(v.clone())).is_err(), "weights", "a mixture of {} accepts the weights {:?}, {}", k, v, how);
    }
    let mut plan = Plan::new(stream(c));
    draw_fault(c, &mut plan, n as u64);
    let limit = c.urange(1, 8);
    c.case(mix2(mix2(n as u64, (d * 4 + k) as u64), mix2(x[0][0].to_bits(), plan.stream.seed)));
    c.note(|| format!("{} components on {}x{} ({}), {:?}, weights {:?}, {:?} {:?}", k, n, d, style, cov, w, plan.stream, plan.faults));
    let mean: Vec<f64> = (0..d).map(|j| x.iter().map(|r| r[j]).sum::<f64>() / n as f64).collect();
    let spread: Vec<f64> = (0..d).map(|j| x.iter().map(|r| (r[j] - mean[j]).powi(2)).sum::<f64>() / n as f64).collect();
    let size = x.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    let pn = c.urange(1, 4);
    let probe: Vec<Vec<f64>> = (0..pn).map(|i| (0..d).map(|j| x[(i * 5) % n][j] + b.normal()).collect()).collect();
    let pm = Matrix::new(pn, d, probe.iter().flatten().cloned().collect::<Vec<_>>());
    let what = |t: usize| format!("a mixture of {} ({:?}, weights {:?}) trained for {} iterations on {}x{} data ({})", k, cov, w, t, n, d, style);
    let mut last: Option<f64> = None;
    let mut was: Option<Fit> = None;
    let mut last_t = 0;
    let mut distinct: Vec<Vec<u64>> = x.iter().map(|r| bits(r)).collect();
    distinct.sort();
    let list: Vec<usize> = (0..=limit).chain(vec![60]).collect();
    for &t in &list {
        memory(c);
        let (o, fired) = fit(k, &w, cov, t, &xm, &pm, &plan);
        memory_off();
        let f = match o {
            Out::Fit(f) => f,
            Out::Injected => {
                note_fired(c, &plan, fired);
                c.hit("probe.failed_midway");
                return Ok(());
            }
            Out::Refused(e) => {
                c.see(dst::prng::hash_str(&e));
                c.hit("probe.refused");
                last = None;
                was = None;
                continue;
            }
        };
        for v in f.w.iter().chain(f.mu.iter().flatten()).chain(f.cov.iter().flatten().flatten()) {
            c.see_f(*v);
        }
        ensure!(f.w.len() == k && f.mu.len() == k && f.cov.len() == k, "shape", "{} has {} weights, {} means, {} covariances", what(t), f.w.len(), f.mu.len(), f.cov.len());
        ensure!(f.w.iter().all(|v| *v >= 0.0) && (f.w.iter().sum::<f64>() - 1.0).abs() < 1e-9, "weights", "{} has the weights {:?}", what(t), f.w);
        ensure!(f.mu.iter().all(|r| r.len() == d && r.iter().all(|v| v.is_finite())), "means", "{} has the means {:?}", what(t), f.mu);
        for s in &f.cov {
            let ok = s.len() == d && (0..d).all(|i| s[i].len() == d && s[i][i] >= 0.0 && (0..d).all(|j| (s[i][j] - s[j][i]).abs() <= 1e-9 * (s[i][i] * s[j][j]).sqrt() + 1e-12 * size * size && s[i][j].is_finite()));
            ensure!(ok, "covariances", "{} has the covariance {:?}", what(t), s);
        }
        let own = likelihood(&f, &x, &spread);
        match &f.predict {
            Ok(p) => {
                ensure!(p.len() == pn, "answers", "{} gave {} answers for {} rows", what(t), p.len(), pn);
                for r in p {
                    ensure!(r.len() == k && r.iter().all(|v| *v >= 0.0 && *v <= 1.0 + 1e-9) && (r.iter().sum::<f64>() - 1.0).abs() < 1e-9, "not-a-distribution", "{} predicts {:?}", what(t), r);
                    for v in r {
                        c.see_f(*v);
                    }
                }
                if let Some((_, q)) = likelihood(&f, &probe, &spread) {
                    let far = p.iter().flatten().zip(q.iter().flatten()).any(|(a, b)| (a - b).abs() > 1e-5);
                    ensure!(!far, "not-posterior", "{} predicts {:?} where its parameters give {:?}", what(t), p, q);
                    c.hit("probe.posteriors");
                }
            }
            Err(e) => {
                ensure!(own.is_none(), "refuses", "{} answers predict with {}", what(t), e);
                c.hit("probe.singular");
            }
        }
        if t == 0 {
            // before the first iteration the means are rows
            let mut left = distinct.clone();
            for m in &f.mu {
                match left.iter().position(|r| *r == bits(m)) {
                    Some(p) => {
                        left.remove(p);
                    }
                    None => fail!("start", "{} has the means {:?}, not {} different rows", what(t), f.mu, k),
                }
            }
        }
        match (&own, cov) {
            (Some((ll, _)), Cov::Full) | (Some((ll, _)), Cov::Diag) => {
                // rounding may rule in between, where a component collapses
                let smooth = |from: &Fit, steps: usize| -> bool {
                    let mut at = em_step(from, &x, &spread, cov);
                    for _ in 1..steps {
                        at = match at {
                            Some(g) => em_step(&g, &x, &spread, cov),
                            None => return false,
                        };
                    }
                    at.map(|g| likelihood(&g, &x, &spread).is_some()).unwrap_or(false)
                };
                let fell = last.map(|was| *ll < was - 1e-6 * (1.0 + was.abs())).unwrap_or(false);
                if fell && !was.as_ref().map(|from| smooth(from, t - last_t)).unwrap_or(false) {
                    c.hit("probe.rounding_in_between");
                } else if let Some(was) = last {
                    ensure!(*ll >= was - 1e-6 * (1.0 + was.abs()), "likelihood-fell", "{}: the log-likelihood went from {} to {}", what(t), was, ll);
                    c.hit("probe.likelihoods_compared");
                    c.nontrivial |= k > 1 && n > 3;
                }
                last = Some(*ll);
            }
            _ => last = None,
        }
        if let (Some(old), true) = (&was, t <= limit && spread.iter().all(|v| *v > 1e-8 * size * size)) {
            if let Some(want) = em_step(old, &x, &spread, cov) {
                // training may have ended before this iteration
                let stopped = apart(old, &f, &spread) < 1e-9;
                let far = apart(&want, &f, &spread);
                if stopped {
                    ensure!(far < 1e-4, "stopped-early", "{} did nothing in the last iteration, an EM step would go from {:?} to {:?}", what(t), (&old.w, &old.mu), (&want.w, &want.mu));
                } else {
                    ensure!(far < 1e-4, "not-em", "{}: the last iteration ended in {:?}, an EM step ends in {:?}", what(t), (&f.w, &f.mu, &f.cov), (&want.w, &want.mu, &want.cov));
                    c.hit("probe.em_steps");
                }
            }
        }
        was = Some(f);
        last_t = t;
    }
    c.sample = Some(format!("{} components, {:?}, {}x{} data ({}), 0..{} and 60 iterations", k, cov, n, d, style, limit));
    Ok(())
}
