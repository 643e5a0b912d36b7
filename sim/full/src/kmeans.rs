//! C13, C14: k-means from any start, under any stream.
use crate::util::*;
use dst::prng::{mix2, Prng};
use dst::{ensure, fail, stat, step, Caught, Ctx, Plan, Stream, Verdict};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::{LearningResult, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Init {
    Forgy,
    Plus,
    Part,
}
const INITS: [Init; 3] = [Init::Forgy, Init::Plus, Init::Part];

fn init(i: Init, k: usize, x: &Matrix<f64>, plan: &Plan) -> (Result<Result<Vec<Vec<f64>>, (String, String)>, Caught>, u64, u64) {
    let op = step(plan, || match i {
        Init::Forgy => Forgy.init_centroids(k, x),
        Init::Plus => KPlusPlus.init_centroids(k, x),
        Init::Part => RandomPartition.init_centroids(k, x),
    });
    let r = op.res.map(|r| match r {
        Ok(m) => Ok(if m.rows() == k && m.cols() == x.cols() { rows(&m) } else { vec![vec![f64::NAN; m.cols()]; m.rows()] }),
        Err(e) => Err(err_key(&e)),
    });
    (r, op.fired, op.points[0])
}

fn key(r: &[f64]) -> Vec<u64> {
    // +0 and -0 are the same point
    r.iter().map(|x| canon(*x + 0.0)).collect()
}

fn data(c: &mut Ctx) -> (Matrix<f64>, &'static str) {
    let n = match c.below(5) {
        0 => c.urange(1, 3),
        4 => c.urange(10, 60),
        _ => c.urange(3, 12),
    };
    let d = width(c, 4);
    let style = *c.pick(&["normal", "lattice", "repeated", "far", "line", "small", "large", "pair"]);
    let mut b = c.bulk();
    let m = c.urange(1, 4);
    let v: Vec<f64> = (0..n)
        .flat_map(|i| (0..d).map(move |j| (i, j)))
        .map(|(i, j)| match style {
            "normal" => b.normal(),
            "lattice" => b.below(4) as f64,
            "repeated" => ((i % m) * 3 + j) as f64,
            "far" => if i == 0 { 1e6 } else { b.normal() },
            "line" => i as f64 * (j + 1) as f64,
            "small" => b.normal() * 1e-3,
            // two rows far away, and far apart from each other
            "pair" => if i < 2 { 1e5 + 4e4 * i as f64 } else { b.normal() },
            _ => 1e9 + 1e5 * b.normal(),
        })
        .collect();
    (Matrix::new(n, d, v), style)
}

// ------------------------------------------------------------------- C13

pub fn starts(c: &mut Ctx) -> Verdict {
    if c.chance(1, 160) {
        return match c.below(3) {
            0 => forgy_law(c),
            1 => plus_law(c),
            _ => partition_law(c),
        };
    }
    if c.chance(1, 10) {
        return partition(c);
    }
    if c.chance(1, 20) {
        return unusable(c);
    }
    let (x, style) = data(c);
    let n = x.rows();
    let times = c.urange(1, 3);
    for _ in 0..times {
        let i = *c.pick(&INITS);
        let k = match c.below(8) {
            0 => n,
            1 => n + c.urange(1, 3),
            _ => c.urange(1, n),
        };
        let mut plan = Plan::new(stream(c));
        draw_fault(c, &mut plan, k as u64);
        c.case(mix2(mix2(n as u64, k as u64), mix2(plan.stream.seed, i as u64)));
        c.note(|| format!("{:?} picks {} of {} rows ({}), {:?} {:?}", i, k, n, style, plan.stream, plan.faults));
        memory(c);
        let (r, fired, _) = init(i, k, &x, &plan);
        memory_off();
        note_fired(c, &plan, fired);
        let what = || format!("{:?} asked for {} of {} rows ({})", i, k, n, style);
        let all: Vec<Vec<u64>> = rows(&x).iter().map(|r| key(r)).collect();
        let mut distinct = all.clone();
        distinct.sort();
        distinct.dedup();
        c.see(dst::prng::hash_str(&format!("{:?}", r)));
        let got = match r {
            Ok(Ok(v)) => v,
            Ok(Err(_)) | Err(Caught::Injected) | Err(Caught::Panic(_)) if k > n || fired > 0 => {
                c.hit(if fired > 0 { "probe.failed_midway" } else { "probe.too_few_rows" });
                continue;
            }
            // fewer distinct rows than asked for: k-means++ can't do it
            Ok(Err(_)) | Err(Caught::Panic(_)) if i == Init::Plus && distinct.len() < k => {
                c.hit("probe.too_few_points");
                continue;
            }
            Ok(Err(e)) => fail!("refused", "{} gave an error: {:?}", what(), e),
            Err(e) => fail!("panic", "{} failed: {}", what(), caught(&e)),
        };
        ensure!(k <= n, "made-up", "{} made up centroids {:?}", what(), got);
        ensure!(got.len() == k && got.iter().all(|r| r.len() == x.cols() && r.iter().all(|v| v.is_finite())), "not-valid", "{} gave {:?}", what(), got);
        c.nontrivial |= n >= 3 && k >= 2;
        let g: Vec<Vec<u64>> = got.iter().map(|r| key(r)).collect();
        match i {
            Init::Forgy => {
                let mut left = all.clone();
                for r in &g {
                    match left.iter().position(|l| l == r) {
                        Some(p) => {
                            left.swap_remove(p);
                        }
                        None => fail!("not-rows", "{} gave {:?}, which are not {} different rows", what(), got, k),
                    }
                }
            }
            Init::Plus => {
                let mut s = g.clone();
                s.sort();
                s.dedup();
                ensure!(g.iter().all(|r| all.contains(r)), "not-rows", "{} gave {:?}, not all rows of the data", what(), got);
                ensure!(s.len() == k || distinct.len() < k, "repeated-point", "{} gave {:?}, not {} different points", what(), got, k);
            }
            Init::Part => {
                for j in 0..x.cols() {
                    let col: Vec<f64> = rows(&x).iter().map(|r| r[j]).collect();
                    let (lo, hi) = col.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), v| (a.min(*v), b.max(*v)));
                    let slack = 1e-9 * (lo.abs() + hi.abs());
                    ensure!(got.iter().all(|r| r[j] >= lo - slack && r[j] <= hi + slack), "outside", "{} gave {:?}, outside the data in column {}", what(), got, j);
                }
            }
        }
    }
    c.sample = Some(format!("{} initializations on {} rows ({})", times, n, style));
    Ok(())
}

/// RandomPartition's points are the means of a partition of all rows.
fn partition(c: &mut Ctx) -> Verdict {
    let n = c.urange(2, 9);
    let k = c.urange(1, n);
    let mut b = c.bulk();
    let v: Vec<f64> = (0..n).map(|_| b.normal()).collect();
    let x = Matrix::new(n, 1, v.clone());
    let plan = Plan::new(stream(c));
    c.case(mix2(mix2(n as u64, k as u64), plan.stream.seed));
    c.note(|| format!("RandomPartition of {:?} in {}, {:?}", v, k, plan.stream));
    memory(c);
    let (r, _, _) = init(Init::Part, k, &x, &plan);
    memory_off();
    let got = match r {
        Ok(Ok(v)) => v,
        o => fail!("panic", "RandomPartition of {} rows in {} failed: {:?}", n, k, o.map_err(|e| caught(&e))),
    };
    let mut seen = 0usize;
    let mut total = 0.0;
    for r in &got {
        let hit: Vec<usize> = (1..1usize << n)
            .filter(|s| {
                let (mut t, mut m) = (0.0, 0.0);
                for i in 0..n {
                    if s >> i & 1 == 1 {
                        t += v[i];
                        m += 1.0;
                    }
                }
                (t / m - r[0]).abs() < 1e-12
            })
            .collect();
        ensure!(!hit.is_empty(), "not-a-mean", "RandomPartition of {:?} in {} gave {:?}; {} is not the mean of any rows", v, k, got, r[0]);
        total += r[0];
        if hit.len() == 1 {
            ensure!(seen & hit[0] == 0, "not-a-partition", "RandomPartition of {:?} in {} gave {:?}: a row is in two groups", v, k, got);
            seen |= hit[0];
        } else {
            // indistinguishable means: give up on this case
            return Ok(());
        }
    }
    ensure!(seen == (1 << n) - 1, "not-a-partition", "RandomPartition of {:?} in {} gave {:?}: some row is in no group", v, k, got);
    c.see_f(total);
    c.nontrivial = n >= 3;
    c.hit("probe.partitions");
    Ok(())
}

/// Rows whose squared distances overflow or are undefined.
fn unusable(c: &mut Ctx) -> Verdict {
    let n = c.urange(2, 8);
    let d = c.urange(1, 3);
    let k = c.urange(2, n);
    let (at, col) = (c.urange(0, n - 1), c.urange(0, d - 1));
    let bad = *c.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e200, -1e160]);
    let mut b = c.bulk();
    let mut x = normal_matrix(&mut b, n, d, 1.0);
    x[[at, col]] = bad;
    let plan = Plan::new(stream(c));
    c.case(mix2(mix2((n * 64 + k * 8 + d) as u64, at as u64), plan.stream.seed));
    c.note(|| format!("KPlusPlus for {} of {} rows, row {} has {} in column {}, {:?}", k, n, at, bad, col, plan.stream));
    memory(c);
    let (r, _, _) = init(Init::Plus, k, &x, &plan);
    memory_off();
    match r {
        Ok(Err(_)) => c.hit("probe.unusable_data"),
        o => fail!("unusable-data", "KPlusPlus for {} of {} rows, one of which holds {}, gave {:?} instead of an error", k, n, bad, o.map_err(|e| caught(&e))),
    }
    c.nontrivial = true;
    Ok(())
}

/// Which rows (powers of two in column 0) have this mean?
fn group_of(r: &[f64], second: &[f64]) -> Option<u64> {
    let n = second.len();
    for m in 1..=n {
        let t = r[0] * m as f64;
        let s = t.round();
        if !(s >= 1.0 && s < (1u64 << n) as f64) || (t - s).abs() > 1e-6 * t.abs().min(1e3) {
            continue;
        }
        let set = s as u64;
        if set.count_ones() as usize != m {
            continue;
        }
        let mean = (0..n).filter(|i| set >> i & 1 == 1).map(|i| second[i]).sum::<f64>() / m as f64;
        if (mean - r[1]).abs() < 1e-9 {
            return Some(set);
        }
    }
    None
}

/// Each row after the first k goes to every group equally often,
/// independently of the others.
fn partition_law(c: &mut Ctx) -> Verdict {
    let n = c.urange(3, 30);
    let k = c.urange(2, 5.min(n - 1));
    let mut b = c.bulk();
    let second: Vec<f64> = (0..n).map(|_| b.normal()).collect();
    let x = Matrix::new(n, 2, (0..n).flat_map(|i| vec![(1u64 << i) as f64, second[i]]).collect::<Vec<_>>());
    let m = if c.thorough { 8000 } else { 1500 };
    let seed = c.below(1 << 40);
    c.case(mix2(mix2(n as u64, k as u64), seed));
    c.note(|| format!("RandomPartition law, {} rows in {}, {} trials from {}", n, k, m, seed));
    c.hit("experiments");
    c.add("trials", m);
    c.nontrivial = true;
    let mut counts = vec![vec![0u64; k]; n];
    let (p1, p2) = (c.urange(k, n - 1), c.urange(k, n - 1));
    let mut joint = vec![0u64; k * k];
    for t in 0..m {
        let plan = Plan::new(Stream::plain(mix2(seed, t)));
        let v = match init(Init::Part, k, &x, &plan).0 {
            Ok(Ok(v)) => v,
            o => fail!("panic", "RandomPartition failed: {:?}", o.map_err(|e| caught(&e))),
        };
        let mut of = vec![k; n];
        for (j, r) in v.iter().enumerate() {
            let set = match group_of(r, &second) {
                Some(s) => s,
                None => fail!("not-a-mean", "RandomPartition of {} rows in {} gave {:?}, which is not the mean of any rows", n, k, r),
            };
            for (i, o) in of.iter_mut().enumerate() {
                if set >> i & 1 == 1 {
                    ensure!(*o == k, "not-a-partition", "RandomPartition of {} rows in {}: row {} is in two groups", n, k, i);
                    *o = j;
                }
            }
        }
        for i in 0..n {
            ensure!(of[i] < k, "not-a-partition", "RandomPartition of {} rows in {}: row {} is in no group", n, k, i);
            counts[i][of[i]] += 1;
        }
        joint[of[p1] * k + of[p2]] += 1;
    }
    let e = vec![m as f64 / k as f64; k];
    let mut x2 = 0.0;
    for i in k..n {
        x2 += stat::chi2_test(&counts[i], &e, 1.0).0;
    }
    let df = (n - k) * (k - 1);
    let p = stat::chi2_p(x2, df);
    c.see(x2.to_bits());
    ensure!(p > P, "biased-partition", "RandomPartition of {} rows in {}: the rows after the first {} do not go to each group equally often (chi2={:.1}, df={}, p={:e}): {:?}", n, k, k, x2, df, p, counts);
    if p1 != p2 {
        let (x2, p, df) = stat::chi2_test(&joint, &vec![m as f64 / (k * k) as f64; k * k], 1.0);
        ensure!(p > P, "biased-partition", "RandomPartition of {} rows in {}: the groups of rows {} and {} are related (chi2={:.1}, df={}, p={:e}): {:?}", n, k, p1, p2, x2, df, p, joint);
    }
    c.sample = Some(format!("RandomPartition law, {} rows in {}, {} trials, p={:.3e}", n, k, m, p));
    Ok(())
}

fn distinct_rows(c: &mut Ctx, n: usize) -> Matrix<f64> {
    let mut b = c.bulk();
    normal_matrix(&mut b, n, 2, 1.0)
}

fn which(x: &[Vec<f64>], r: &[f64]) -> usize {
    x.iter().position(|y| key(y) == key(r)).unwrap_or(x.len())
}

fn forgy_law(c: &mut Ctx) -> Verdict {
    let many = c.chance(1, 3);
    let n = if many { c.urange(8, 130) } else { c.urange(2, 7) };
    let k = c.urange(1, n - 1);
    let x = distinct_rows(c, n);
    let rs = rows(&x);
    let m = if c.thorough { 20000 } else { 4000 };
    let seed = c.below(1 << 40);
    c.case(mix2(mix2(n as u64, k as u64), seed));
    c.hit("experiments");
    c.add("trials", m);
    c.nontrivial = true;
    let mut seen: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    for t in 0..m {
        let plan = Plan::new(Stream::plain(mix2(seed, t)));
        match init(Init::Forgy, k, &x, &plan).0 {
            Ok(Ok(v)) => {
                let mut s: Vec<usize> = v.iter().map(|r| which(&rs, r)).collect();
                s.sort();
                s.dedup();
                ensure!(s.len() == k && s[k - 1] < n, "not-rows", "Forgy gave {:?} for {} of {} rows", v, k, n);
                *seen.entry(s).or_insert(0) += 1;
            }
            o => fail!("panic", "Forgy failed: {:?}", o.map_err(|e| caught(&e))),
        }
    }
    if many {
        // how often each row is chosen
        let mut o = vec![0u64; n];
        for (s, q) in &seen {
            for i in s {
                o[*i] += q;
            }
        }
        let e = m as f64 * k as f64 / n as f64;
        let x2 = o.iter().map(|v| (*v as f64 - e).powi(2) / e).sum::<f64>() * (n - 1) as f64 / (n - k) as f64;
        let p = stat::chi2_p(x2, n - 1);
        c.see(x2.to_bits());
        ensure!(p > P, "biased-forgy", "Forgy choosing {} of {} rows does not choose them equally often (chi2={:.1}, df={}, p={:e}): {:?}", k, n, x2, n - 1, p, o);
        c.sample = Some(format!("Forgy law, {} of {} rows, {} trials, p={:.3e}", k, n, m, p));
        return Ok(());
    }
    let cells = fact(n) / fact(k) / fact(n - k);
    let mut counts: Vec<u64> = seen.values().cloned().collect();
    counts.resize(cells, 0);
    let (x2, p, df) = stat::chi2_test(&counts, &vec![m as f64 / cells as f64; cells], 1.0);
    c.see(x2.to_bits());
    ensure!(p > P, "biased-forgy", "Forgy does not choose every set of {} of {} rows equally often (chi2={:.1}, df={}, p={:e}): {:?}", k, n, x2, df, p, seen);
    c.sample = Some(format!("Forgy law, {} of {} rows, {} trials, p={:.3e}", k, n, m, p));
    Ok(())
}

fn d2(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}

fn plus_law(c: &mut Ctx) -> Verdict {
    let many = c.chance(1, 3);
    let n = if many { c.urange(15, 130) } else { c.urange(2, 14) };
    // of many rows: the first, or the second given the first
    let k = if many { c.urange(1, 2) } else { c.urange(1, if n > 6 { 2 } else { 3.min(n) }) };
    let x = distinct_rows(c, n);
    let rs = rows(&x);
    let m = if many { 100 * n as u64 } else if c.thorough { 20000 } else { 4000 };
    let seed = c.below(1 << 40);
    c.case(mix2(mix2(n as u64, k as u64), seed));
    c.hit("experiments");
    c.add("trials", m);
    c.nontrivial = true;
    let mut counts = vec![0u64; n.pow(k as u32)];
    for t in 0..m {
        let plan = Plan::new(Stream::plain(mix2(seed, t)));
        match init(Init::Plus, k, &x, &plan).0 {
            Ok(Ok(v)) => {
                let mut cell = 0;
                for r in &v {
                    let i = which(&rs, r);
                    ensure!(i < n, "not-rows", "KPlusPlus gave {:?}, not rows of the data", v);
                    cell = cell * n + i;
                }
                counts[cell] += 1;
            }
            o => fail!("panic", "KPlusPlus failed: {:?}", o.map_err(|e| caught(&e))),
        }
    }
    if many {
        // the first row; the second, given the first, by its place and by
        // how near it is
        let first: Vec<u64> = (0..n).map(|i| if k == 1 { counts[i] } else { counts[i * n..(i + 1) * n].iter().sum() }).collect();
        let mut tests = vec![("first row", first.clone(), vec![m as f64 / n as f64; n])];
        if k == 2 {
            let (mut o, mut e) = (vec![0u64; n], vec![0.0; n]);
            let (mut oo, mut ee) = (vec![0u64; n], vec![0.0; n]);
            for f in 0..n {
                let near: Vec<f64> = rs.iter().map(|r| d2(r, &rs[f])).collect();
                let all: f64 = near.iter().sum();
                let mut order: Vec<usize> = (0..n).collect();
                order.sort_by(|a, b| near[*a].partial_cmp(&near[*b]).unwrap_or(std::cmp::Ordering::Equal));
                ensure!(counts[f * n + f] == 0, "repeated-point", "KPlusPlus chose a row twice");
                for (r, i) in order.iter().enumerate() {
                    let (q, w) = (counts[f * n + i], first[f] as f64 * near[*i] / all);
                    o[*i] += q;
                    e[*i] += w;
                    oo[r] += q;
                    ee[r] += w;
                }
            }
            tests.push(("second row", o, e));
            tests.push(("nearness of the second row", oo, ee));
        }
        for (what, o, e) in tests {
            let (x2, p, df) = stat::chi2_test(&o, &e, 25.0);
            c.see(x2.to_bits());
            ensure!(p > P, "biased-kplusplus", "KPlusPlus choosing {} of {} rows: the {} does not follow the squared-distance law (chi2={:.1}, df={}, p={:e}): {:?} for {:?}", k, n, what, x2, df, p, o, e);
        }
        c.sample = Some(format!("KPlusPlus law, {} of {} rows, {} trials", k, n, m));
        return Ok(());
    }
    // the law, choice by choice
    let mut exp = vec![0.0; counts.len()];
    for cell in 0..counts.len() {
        let mut ix = Vec::new();
        let mut v = cell;
        for _ in 0..k {
            ix.insert(0, v % n);
            v /= n;
        }
        let mut p = 1.0 / n as f64;
        for t in 1..k {
            let near: Vec<f64> = (0..n).map(|i| ix[..t].iter().map(|j| d2(&rs[i], &rs[*j])).fold(f64::INFINITY, f64::min)).collect();
            p *= near[ix[t]] / near.iter().sum::<f64>();
        }
        exp[cell] = p * m as f64;
    }
    for (cell, e) in exp.iter().enumerate() {
        ensure!(*e > 0.0 || counts[cell] == 0, "repeated-point", "KPlusPlus chose a row twice");
    }
    let live: Vec<usize> = (0..exp.len()).filter(|i| exp[*i] > 0.0).collect();
    let (o, e): (Vec<u64>, Vec<f64>) = live.iter().map(|i| (counts[*i], exp[*i])).unzip();
    if e.len() > 1 {
        let (x2, p, df) = stat::chi2_test(&o, &e, 5.0);
        c.see(x2.to_bits());
        ensure!(p > P, "biased-kplusplus", "KPlusPlus choosing {} of {} rows does not follow the squared-distance law (chi2={:.1}, df={}, p={:e}): {:?} for {:?}", k, n, x2, df, p, o, e);
        c.sample = Some(format!("KPlusPlus law, {} of {} rows, {} trials, p={:.3e}", k, n, m, p));
    }
    Ok(())
}

// ------------------------------------------------------------------- C14

/// Starts where it is told to.
#[derive(Clone, Debug)]
struct From(Matrix<f64>);
impl Initializer for From {
    fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Ok(self.0.clone())
    }
}

struct Assigned {
    label: Vec<usize>,
    sse: f64,
    /// some row is about as close to two centroids that are not the same point
    tie: bool,
}
fn assign(cs: &[Vec<f64>], x: &[Vec<f64>]) -> Assigned {
    let mut a = Assigned { label: vec![], sse: 0.0, tie: false };
    let size = |r: &[f64]| r.iter().map(|v| v * v).sum::<f64>();
    let of: Vec<f64> = cs.iter().map(|c| size(c)).collect();
    for r in x {
        let d: Vec<f64> = cs.iter().map(|c| d2(c, r)).collect();
        let m = d.iter().cloned().fold(f64::INFINITY, f64::min);
        let at = d.iter().position(|v| *v == m).unwrap_or(0);
        // rounding, however the distances are computed
        let slop = |j: usize| 2e-9 * (size(r) + of[j] + of[at]);
        a.tie |= (0..d.len()).any(|j| j != at && d[j] <= m + slop(j));
        a.label.push(at);
        a.sse += m;
    }
    a
}

enum Trained {
    Ok { cs: Vec<Vec<f64>>, label: Vec<usize> },
    Failed(String),
    Injected,
}

/// Train with the given starts (or a built-in initializer) and limit.
fn train(how: &Result<Matrix<f64>, Init>, k: usize, iters: usize, x: &Matrix<f64>, probe: &Matrix<f64>, plan: &Plan) -> (Trained, u64) {
    fn go<I: Initializer>(mut m: KMeansClassifier<I>, x: &Matrix<f64>, probe: &Matrix<f64>, plan: &Plan) -> (Trained, u64) {
        let op = step(plan, || -> LearningResult<_> {
            m.train(x)?;
            let l = m.predict(probe)?;
            Ok(l)
        });
        let t = match op.res {
            Ok(Ok(l)) => match m.centroids() {
                Some(c) => Trained::Ok { cs: rows(c), label: l.into_vec() },
                None => Trained::Failed("it has no centroids after training".into()),
            },
            Ok(Err(e)) => Trained::Failed(format!("error {}", e)),
            Err(Caught::Injected) => Trained::Injected,
            Err(e) => Trained::Failed(caught(&e)),
        };
        (t, op.fired)
    }
    match how {
        Ok(m) => go(KMeansClassifier::new_specified(k, iters, From(m.clone())), x, probe, plan),
        Err(Init::Forgy) => go(KMeansClassifier::new_specified(k, iters, Forgy), x, probe, plan),
        Err(Init::Plus) => go(KMeansClassifier::new_specified(k, iters, KPlusPlus), x, probe, plan),
        Err(Init::Part) => go(KMeansClassifier::new_specified(k, iters, RandomPartition), x, probe, plan),
    }
}

/// Many rows and a bad start: hundreds of iterations, the last of which move
/// single rows between clusters.
fn long(c: &mut Ctx) -> Verdict {
    let (n, d, k) = (c.urange(100, 400), c.urange(1, 2), c.urange(2, 4));
    let shape = c.below(3);
    let mut b = c.bulk();
    let v: Vec<f64> = (0..n * d)
        .map(|i| match shape {
            // nothing to separate: the slowest to settle
            0 => b.f64(),
            1 => b.normal(),
            _ => if i % d == 0 { (1.0 + i as f64).ln() + 1e-3 * b.normal() } else { 0.01 * b.normal() },
        })
        .collect();
    let x = Matrix::new(n, d, v);
    let xs = rows(&x);
    let mut start = Vec::new();
    for i in 0..k {
        for j in 0..d {
            start.push(if j == 0 { xs[0][0] + 1e-3 * i as f64 } else { xs[0][j] });
        }
    }
    let how = Ok(Matrix::new(k, d, start));
    let mut plan = Plan::new(Stream::plain(1));
    plan.limit = 4_000_000_000;
    let probe = Matrix::new(1, d, xs[0].clone());
    let scale = xs.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    c.case(mix2(mix2(n as u64, k as u64), mix2(xs[0][0].to_bits(), shape)));
    c.note(|| format!("{} clusters of {}x{} (shape {}), from {:?}", k, n, d, shape, how));
    let (tr, _) = train(&how, k, 2000, &x, &probe, &plan);
    let cs = match tr {
        Trained::Ok { cs, .. } => cs,
        Trained::Injected => return Ok(()),
        Trained::Failed(e) => fail!("failed", "k-means with k={} on {}x{} data: {}", k, n, d, e),
    };
    let a = assign(&cs, &xs);
    c.see_f(a.sse);
    c.nontrivial = true;
    if !a.tie {
        for j in 0..k {
            let m: Vec<&Vec<f64>> = (0..n).filter(|i| a.label[*i] == j).map(|i| &xs[i]).collect();
            for q in 0..d {
                if !m.is_empty() {
                    let mean = m.iter().map(|r| r[q]).sum::<f64>() / m.len() as f64;
                    ensure!((mean - cs[j][q]).abs() <= 1e-8 * scale, "not-converged", "k-means with k={} on {}x{} data (shape {}) limited to 2000 iterations: centroid {} is {:?} where the mean of its rows is {} in column {}", k, n, d, shape, j, cs[j], mean, q);
                }
            }
        }
        c.hit("probe.converged_from_afar");
    }
    c.sample = Some(format!("{} clusters of {}x{} (shape {}) from a bad start within 2000 iterations", k, n, d, shape));
    Ok(())
}

pub fn clustering(c: &mut Ctx) -> Verdict {
    if c.chance(1, 150) {
        return long(c);
    }
    let (x, style) = data(c);
    let (n, d) = (x.rows(), x.cols());
    let k = c.urange(1, n.min(5));
    let xs = rows(&x);
    let mut distinct: Vec<Vec<u64>> = xs.iter().map(|r| key(r)).collect();
    distinct.sort();
    distinct.dedup();
    let how = match c.below(4) {
        0 => {
            let i = *c.pick(&INITS);
            if i == Init::Plus && distinct.len() < k { Err(Init::Forgy) } else { Err(i) }
        }
        s => {
            let mut b = c.bulk();
            let far = c.below(3);
            let v: Vec<f64> = (0..k)
                .flat_map(|i| (0..d).map(move |j| (i, j)))
                .map(|(i, j)| {
                    let row = xs[(i * 7 + 3) % n][j];
                    match s {
                        // one cluster for the two, and some for the others
                        _ if style == "pair" && n > 4 => xs[if i == 0 { 0 } else { 2 + b.below(n as u64 - 2) as usize }][j],
                        // rows, maybe the same one twice
                        1 => xs[b.below(n as u64) as usize][j],
                        // anywhere: clusters may be empty
                        2 => row + b.normal() * [0.1, 3.0, 30.0][far as usize],
                        _ => xs[0][j] + if i == 0 { 0.0 } else { 1e3 * i as f64 },
                    }
                })
                .collect();
            Ok(Matrix::new(k, d, v))
        }
    };
    let st = stream(c);
    let mut plan = Plan::new(st);
    if how.is_err() {
        draw_fault(c, &mut plan, k as u64);
    }
    let limit = c.urange(0, 6);
    c.case(mix2(mix2(n as u64, k as u64), mix2(xs[0][0].to_bits(), st.seed)));
    c.note(|| format!("{} clusters of {}x{} ({}), start {:?}, {:?} {:?}", k, n, d, style, how, plan.stream, plan.faults));
    let pn = c.urange(1, 4);
    let mut b = c.bulk();
    let sd = if style == "large" { 1e5 } else { 1.0 };
    let probe = Matrix::new(pn, d, (0..pn * d).map(|i| xs[i % n][i % d] + b.normal() * sd).collect::<Vec<_>>());
    let mut scale = xs.iter().flatten().chain(probe.data()).fold(0.0f64, |m, v| m.max(v.abs()));
    if let Ok(m) = &how {
        scale = m.data().iter().fold(scale, |m, v| m.max(v.abs()));
    }
    let what = |t: usize| format!("k-means with k={} on {}x{} data ({}) limited to {} iterations from {:?}", k, n, d, style, t, how);
    let mut last: Option<(Vec<Vec<f64>>, f64, bool)> = None;
    let mut settled = false;
    // rounding in a sum of squared distances
    let slop = 1e-9 * scale * scale * n as f64 * d as f64;
    let list: Vec<usize> = (0..=limit).chain(vec![400]).collect();
    for &t in &list {
        memory(c);
        let (tr, fired) = train(&how, k, t, &x, &probe, &plan);
        memory_off();
        let (cs, label) = match tr {
            Trained::Ok { cs, label } => (cs, label),
            Trained::Injected => {
                note_fired(c, &plan, fired);
                c.hit("probe.failed_midway");
                return Ok(());
            }
            Trained::Failed(e) => fail!("failed", "{}: {}", what(t), e),
        };
        ensure!(cs.len() == k && cs.iter().all(|r| r.len() == d && r.iter().all(|v| v.is_finite())), "not-finite", "{} has the centroids {:?}", what(t), cs);
        ensure!(label.len() == pn, "label-count", "{} gave {} labels for {} rows", what(t), label.len(), pn);
        for (r, l) in rows(&probe).iter().zip(&label) {
            let all: Vec<f64> = cs.iter().map(|y| d2(y, r)).collect();
            let m = all.iter().cloned().fold(f64::INFINITY, f64::min);
            ensure!(*l < k && all[*l] <= m + 1e-9 * scale * scale * d as f64, "not-nearest", "{} labels {:?} with {}, at squared distances {:?} from the centroids", what(t), r, l, all);
            c.see(*l as u64);
        }
        let a = assign(&cs, &xs);
        c.see_f(a.sse);
        if let (0, Ok(m)) = (t, &how) {
            ensure!(rows(m) == cs, "wrong-start", "{} has the centroids {:?}", what(t), cs);
        }
        if let Some((was, sse, tie)) = &last {
            ensure!(a.sse <= *sse + slop, "worse", "{}: the squared distances add up to {} after {} before the last iteration", what(t), a.sse, sse);
            if !*tie {
                // the next iteration, from the centroids before it
                let before = assign(was, &xs);
                let mut want = was.clone();
                for j in 0..k {
                    let m: Vec<&Vec<f64>> = (0..n).filter(|i| before.label[*i] == j).map(|i| &xs[i]).collect();
                    if !m.is_empty() {
                        want[j] = (0..d).map(|q| m.iter().map(|r| r[q]).sum::<f64>() / m.len() as f64).collect();
                    }
                }
                let same = |a: &Vec<Vec<f64>>, b: &Vec<Vec<f64>>| a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x - y).abs() <= 1e-9 * scale);
                // empty clusters' centroids may go anywhere finite
                let filled: Vec<usize> = (0..k).filter(|j| before.label.contains(j)).collect();
                let pick = |v: &Vec<Vec<f64>>| filled.iter().map(|j| v[*j].clone()).collect::<Vec<_>>();
                if t <= limit {
                    let moved = !same(&pick(&want), &pick(was));
                    // a small step may not show in a large cost
                    let lost = style == "pair" && same(&cs, was) && (*sse - assign(&want, &xs).sse).abs() <= 1e-12 * *sse;
                    if lost {
                        c.hit("probe.lost_in_the_cost");
                    } else if settled {
                        ensure!(same(&pick(&cs), &pick(was)), "not-means", "{}: moved on after it had settled: {:?} to {:?}", what(t), was, cs);
                    } else {
                        ensure!(same(&pick(&cs), &pick(&want)), "not-means", "{}: the iteration took {:?} to {:?}, the means are {:?}", what(t), was, cs, want);
                    }
                    settled |= !moved && filled.len() == k;
                    c.hit("probe.iterations");
                }
            }
        }
        if t == 400 && !a.tie && !settled_early(style) {
            for j in 0..k {
                let m: Vec<&Vec<f64>> = (0..n).filter(|i| a.label[*i] == j).map(|i| &xs[i]).collect();
                if !m.is_empty() {
                    for q in 0..d {
                        let mean = m.iter().map(|r| r[q]).sum::<f64>() / m.len() as f64;
                        ensure!((mean - cs[j][q]).abs() <= 1e-8 * scale, "not-converged", "{}: centroid {} is {:?} where the mean of its rows is {} in column {}", what(t), j, cs[j], mean, q);
                    }
                }
            }
            c.hit("probe.converged");
        }
        last = Some((cs, a.sse, a.tie));
    }
    c.nontrivial = n >= 3 && k >= 2;
    c.sample = Some(format!("{} clusters of {}x{} ({}) within 0..{} and 400 iterations", k, n, d, style, limit));
    Ok(())
}

/// Costs are compared with an absolute tolerance, so that training on data
/// of little spread may end before it has converged.
fn settled_early(style: &str) -> bool {
    style == "small" || style == "pair"
}
