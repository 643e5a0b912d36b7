use crate::elems::{Elem, Wide};
use crate::shuffle::{gen_contents, gen_len, gen_memory, gen_plan, short, sorted, P};
use dst::prng::{hash_str, mix2, Prng};
use dst::{alloc, ensure, fail, stat, step, Caught, Ctx, Plan, Stream, Verdict};
use std::sync::atomic::Ordering::SeqCst;
use sut::learning::toolkit::rand_utils::reservoir_sample;

fn gen_k(c: &mut Ctx, n: usize) -> usize {
    match c.below(12) {
        0 => 0,
        1 => 1,
        2 => n,
        3 => n.saturating_sub(1),
        4 => n / 2,
        5 => n + 1,
        6 => n + c.urange(1, 40),
        7 => {
            if c.chance(1, 4) {
                usize::MAX
            } else {
                n.saturating_sub(2)
            }
        }
        8 => n.min(c.urange(2, 8)),
        _ => c.urange(0, n),
    }
}

fn valid_t<T: Elem>(c: &mut Ctx) -> Verdict {
    let n = gen_len(c);
    let k = gen_k(c, n);
    let vals = gen_contents(c, n, T::KINDS);
    let plan = gen_plan(c, n.saturating_sub(k));
    gen_memory(c);
    let pad = c.urange(0, 2);
    let mut buf: Vec<T> = Vec::new();
    for i in 0..pad {
        buf.push(T::make(1000 + i as u64));
    }
    buf.extend(vals.iter().map(|i| T::make(*i)));
    for i in 0..pad {
        buf.push(T::make(2000 + i as u64));
    }
    let before: Vec<u64> = buf.iter().map(|x| x.key()).collect();
    let pool = &buf[pad..pad + n];
    c.note(|| format!("reservoir_sample::<{}> pool of {} ({}), k={} stream={:?} faults={:?} memory-pattern={}", T::NAME, n, short(&vals), k, plan.stream, plan.faults, alloc::PATTERN.load(SeqCst)));
    c.case(mix2(n as u64, mix2(k as u64, hash_str(T::NAME))));
    c.case(mix2(plan.stream.seed, plan.faults.len() as u64));
    c.nontrivial |= n >= 2 && k >= 1;
    let op = step(&plan, || reservoir_sample(pool, k));
    alloc::PATTERN.store(0, SeqCst);
    c.add("draws", op.points[0]);
    if op.fired > 0 {
        c.hit("fault.rng_failure_fired");
    }
    let out: Result<Vec<u64>, Caught> = op.res.map(|v| v.iter().map(|x| x.key()).collect());
    let after: Vec<u64> = buf.iter().map(|x| x.key()).collect();
    ensure!(after == before, "pool-changed", "reservoir_sample::<{}> changed its pool", T::NAME);
    match out {
        Ok(v) => {
            ensure!(k <= n, "no-panic", "reservoir_sample of {} out of {} returned {} entries instead of panicking", k, n, v.len());
            ensure!(v.len() == k, "wrong-size", "reservoir_sample of {} out of {} returned {} entries", k, n, v.len());
            // As a multiset the sample must fit into the pool: with distinct
            // entries this says that positions are distinct.
            let s = sorted(v.clone());
            let p = sorted(before[pad..pad + n].to_vec());
            let mut j = 0;
            for x in &s {
                while j < p.len() && p[j] < *x {
                    j += 1;
                }
                ensure!(j < p.len() && p[j] == *x, "not-from-pool",
                    "reservoir_sample::<{}> of {} out of {} returned {}: an entry is not in the pool, or is used more often than it occurs ({})",
                    T::NAME, k, n, short(&v), short(&before[pad..pad + n]));
                j += 1;
            }
            for x in &v {
                c.see(*x);
            }
            c.hit("probe.samples");
        }
        Err(Caught::Injected) => c.hit("probe.failed_midway"),
        Err(Caught::Panic(m)) => {
            ensure!(k > n, "panic", "reservoir_sample::<{}> of {} out of {} panicked: {}", T::NAME, k, n, m);
            c.hit("probe.too_few");
        }
    }
    Ok(())
}

pub fn valid(c: &mut Ctx) -> Verdict {
    let ops = c.range(1, 4);
    for _ in 0..ops {
        match c.below(12) {
            0 | 1 => valid_t::<u64>(c)?,
            2 => valid_t::<u8>(c)?,
            3 => valid_t::<u16>(c)?,
            4 => valid_t::<i32>(c)?,
            5 => valid_t::<f64>(c)?,
            6 => valid_t::<()>(c)?,
            7 => valid_t::<[u8; 3]>(c)?,
            8 => valid_t::<Wide>(c)?,
            9 => valid_t::<&'static str>(c)?,
            10 => valid_t::<u128>(c)?,
            _ => valid_t::<usize>(c)?,
        }
    }
    let e = c.event;
    c.sample = Some(format!("{} samples, event hash {:x}", ops, e));
    Ok(())
}

fn choose(n: usize, k: usize) -> usize {
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}

fn sample(n: usize, k: usize, base: &[u64], seed: u64) -> Result<Vec<u64>, dst::Violation> {
    let plan = Plan::new(Stream::plain(seed));
    match step(&plan, || reservoir_sample(base, k)).res {
        Ok(v) => {
            if v.len() != k || v.iter().any(|x| *x >= n as u64) {
                return Err(dst::Violation { class: "not-from-pool".into(), msg: format!("k={} n={} gave {:?}", k, n, v) });
            }
            Ok(v)
        }
        Err(e) => Err(dst::Violation { class: "panic".into(), msg: format!("reservoir_sample of {} out of {}: {:?}", k, n, e) }),
    }
}

fn subset_index(n: usize, v: &[u64]) -> Option<u64> {
    let mut m = 0u64;
    for x in v {
        if m >> x & 1 == 1 {
            return None;
        }
        m |= 1 << x;
    }
    let _ = n;
    Some(m)
}

pub fn unbiased(c: &mut Ctx) -> Verdict {
    let kind = c.below(5);
    let seed = c.below(1 << 40);
    let mut src = Prng::new(seed);
    let mul = if c.thorough { 4 } else { 1 };
    c.case(mix2(kind, seed));
    c.nontrivial = true;
    match kind {
        0 | 1 => {
            // every subset
            let n = c.urange(2, 9);
            let k = c.urange(1, n - 1);
            let cells = choose(n, k);
            let m = (cells * 250).max(3000) * mul;
            let base: Vec<u64> = (0..n as u64).collect();
            let mut counts = std::collections::BTreeMap::new();
            for _ in 0..m {
                let v = sample(n, k, &base, src.next())?;
                match subset_index(n, &v) {
                    Some(i) => *counts.entry(i).or_insert(0u64) += 1,
                    None => fail!("repeated-position", "k={} n={} gave {:?}", k, n, v),
                }
            }
            let mut o: Vec<u64> = counts.values().cloned().collect();
            o.resize(cells.max(o.len()), 0);
            let (x2, p, df) = stat::chi2_test(&o, &vec![m as f64 / cells as f64; o.len()], 1.0);
            c.add("trials", m as u64);
            for x in &o {
                c.see(*x);
            }
            c.note(|| format!("n={} k={} trials={} {:?}", n, k, m, counts));
            c.sample = Some(format!("all {} subsets of n={} k={}, {} trials, p={:.3e}", cells, n, k, m, p));
            ensure!(p > P, "biased-subsets", "subsets of {} out of {} are not equally likely (chi2={:.1}, df={}, p={:e}, {} trials)", k, n, x2, df, p, m);
        }
        2 => {
            // successive samples are independent
            let n = c.urange(2, 5);
            let k = c.urange(1, n - 1);
            let f = choose(n, k);
            let m = (f * f * 120).max(4000) * mul;
            let base: Vec<u64> = (0..n as u64).collect();
            let mut idx = std::collections::BTreeMap::new();
            let mut joint = vec![0u64; f * f];
            for _ in 0..m {
                let mut two = [0; 2];
                for t in two.iter_mut() {
                    let v = sample(n, k, &base, src.next())?;
                    let i = match subset_index(n, &v) {
                        Some(i) => i,
                        None => fail!("repeated-position", "k={} n={} gave {:?}", k, n, v),
                    };
                    let l = idx.len();
                    *t = *idx.entry(i).or_insert(l);
                }
                joint[two[0] * f + two[1]] += 1;
            }
            let (x2, p, df) = stat::chi2_test(&joint, &vec![m as f64 / (f * f) as f64; f * f], 1.0);
            c.add("trials", 2 * m as u64);
            c.see(x2.to_bits());
            c.sample = Some(format!("{} consecutive pairs of samples, n={} k={}, p={:.3e}", m, n, k, p));
            ensure!(p > P, "dependent-samples", "successive samples of {} out of {} are not independent and uniform (chi2={:.1}, df={}, p={:e})", k, n, x2, df, p);
        }
        _ => {
            // inclusion of every position and pair inclusion, larger pools
            let n = match c.below(8) {
                0..=2 => c.urange(8, 60),
                3 | 4 => c.urange(50, 400),
                5 => *c.pick(&[64, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025]),
                6 => c.urange(400, 3000),
                _ => *c.pick(&[4097, 10_000, 65_537]),
            };
            let k = match c.below(5) {
                0 => c.urange(1, 8.min(n - 1)),
                1 => n / 2,
                2 => n - 1,
                3 => n - c.urange(1, n.min(9) - 1),
                _ => c.urange(1, n - 1),
            };
            let work = if c.thorough { 10_000_000 } else { 2_000_000 };
            let m = (work / n).clamp(40, 30_000);
            let base: Vec<u64> = (0..n as u64).collect();
            let mut inc = vec![0u64; n];
            // pairs of positions watched together
            let ps: Vec<usize> = vec![0, 1, k - 1, k.min(n - 1), (k + 1).min(n - 1), n / 2, n - 2, n - 1, src.below(n as u64) as usize, src.below(n as u64) as usize];
            let mut pair = vec![0u64; ps.len() * ps.len()];
            let mut adj = 0u64;
            let mut inside = vec![false; n];
            for _ in 0..m {
                let v = sample(n, k, &base, src.next())?;
                inside.iter_mut().for_each(|b| *b = false);
                for x in &v {
                    ensure!(!inside[*x as usize], "repeated-position", "k={} n={}: position {} twice", k, n, x);
                    inside[*x as usize] = true;
                    inc[*x as usize] += 1;
                }
                for (a, i) in ps.iter().enumerate() {
                    for (b, j) in ps.iter().enumerate() {
                        pair[a * ps.len() + b] += (inside[*i] && inside[*j]) as u64;
                    }
                }
                for i in 1..n {
                    adj += (inside[i - 1] && inside[i]) as u64;
                }
            }
            let (mf, nf, kf) = (m as f64, n as f64, k as f64);
            let p1 = kf / nf;
            c.add("trials", m as u64);
            c.sample = Some(format!("inclusion and pair inclusion, n={} k={}, {} trials", n, k, m));
            c.note(|| format!("n={} k={} trials={} first positions {:?}", n, k, m, &inc[..n.min(12)]));
            for (i, o) in inc.iter().enumerate() {
                let p = stat::binom_p(*o, m as u64, p1);
                ensure!(p > P, "biased-inclusion", "sampling {} out of {}: position {} was chosen {} times in {} trials, expected {:.1} (p={:e})", k, n, i, o, m, mf * p1, p);
            }
            // all positions together, and in blocks
            let e = mf * p1 * (1.0 - p1);
            if e > 5.0 {
                let x2: f64 = inc.iter().map(|o| (*o as f64 - mf * p1).powi(2) / e).sum::<f64>() * (nf - 1.0) / nf;
                let p = stat::chi2_p(x2, n - 1);
                ensure!(p > P, "biased-inclusion", "sampling {} out of {}: positions are not equally likely (chi2={:.1}, p={:e}, {} trials)", k, n, x2, p, m);
            }
            for nb in [2usize, 4, 8, 16] {
                for b in 0..nb {
                    let (lo, hi) = (b * n / nb, (b + 1) * n / nb);
                    let w = (hi - lo) as f64;
                    let o: u64 = inc[lo..hi].iter().sum();
                    let var = kf * (w / nf) * (1.0 - w / nf) * (nf - kf) / (nf - 1.0);
                    if mf * var > 30.0 {
                        let z = (o as f64 - mf * kf * w / nf) / (mf * var).sqrt();
                        ensure!(stat::z_p(z) > P, "biased-inclusion", "sampling {} out of {}: positions {}..{} chosen {} times in {} trials (z={:.1})", k, n, lo, hi, o, m, z);
                    }
                }
            }
            // the pool's first k against the rest
            let o: u64 = inc[..k].iter().sum();
            let var = kf * (kf / nf) * (1.0 - kf / nf) * (nf - kf) / (nf - 1.0);
            if mf * var > 30.0 {
                let z = (o as f64 - mf * kf * kf / nf) / (mf * var).sqrt();
                ensure!(stat::z_p(z) > P, "biased-inclusion", "sampling {} out of {}: the first {} chosen {} times in {} trials (z={:.1})", k, n, k, o, m, z);
            }
            let p2 = kf * (kf - 1.0) / (nf * (nf - 1.0));
            for (a, i) in ps.iter().enumerate() {
                for (b, j) in ps.iter().enumerate() {
                    if i != j {
                        let o = pair[a * ps.len() + b];
                        let p = stat::binom_p(o, m as u64, p2);
                        ensure!(p > P, "biased-pairs", "sampling {} out of {}: positions {} and {} were chosen together {} times in {} trials, expected {:.1} (p={:e})", k, n, i, j, o, m, mf * p2, p);
                    }
                }
            }
            let ea = mf * (nf - 1.0) * p2;
            let ka = adj as f64;
            let kl = if ka > 0.0 { ka * (ka / ea.max(1e-9)).ln() - ka + ea } else { ea };
            if k > 1 && p1 < 0.5 {
                ensure!((-kl * 0.5).exp() > P, "biased-pairs", "sampling {} out of {}: {} neighbouring pairs in {} trials, expected {:.1}", k, n, adj, m, ea);
            }
            c.see(adj);
        }
    }
    Ok(())
}
