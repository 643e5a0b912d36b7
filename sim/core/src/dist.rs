use crate::shuffle::P;
use dst::prng::{mix2, Prng};
use dst::stream::FastRng;
use dst::{ensure, fail, stat, step, Ctx, Plan, SimRng, Stream, Verdict};
use rand::distributions::{IndependentSample, Sample};
use sut::stats::dist::{Distribution, Exponential, Gaussian};

#[derive(Clone, Copy, Debug)]
enum D {
    G { d: Gaussian, mean: f64, sd: f64 },
    E { d: Exponential, rate: f64 },
}

fn decade(c: &mut Ctx, span: i64) -> f64 {
    let e = c.below(2 * span as u64 + 1) as i64 - span;
    let m = 1.0 + c.below(900) as f64 / 100.0;
    m * 10f64.powi(e as i32)
}

fn gen_dist(c: &mut Ctx) -> (D, String) {
    if c.chance(2, 5) {
        let rate = match c.below(6) {
            0 => 1.0,
            1 => 0.5,
            2 => decade(c, 60),
            _ => decade(c, 6),
        };
        let d = if rate == 1.0 && c.chance(1, 2) { Exponential::default() } else { Exponential::new(rate) };
        (D::E { d, rate }, format!("Exponential(rate={})", rate))
    } else {
        let sd = match c.below(6) {
            0 => 1.0,
            1 => 3.0,
            2 => decade(c, 60),
            _ => decade(c, 5),
        };
        let mean = match c.below(6) {
            0 | 1 => 0.0,
            2 => decade(c, 3).min(1e6 * sd),
            3 => -decade(c, 3).min(1e6 * sd),
            4 => sd * (c.below(200) as f64 - 100.0),
            _ => -sd * 3.5,
        };
        let how = c.below(4);
        let (d, name) = match how {
            0 if sd == 1.0 && mean == 0.0 => (Gaussian::default(), "default"),
            0 | 1 => (Gaussian::from_std_dev(mean, sd), "from_std_dev"),
            _ => (Gaussian::new(mean, sd * sd), "new"),
        };
        let d = if c.chance(1, 4) { d.clone() } else { d };
        (D::G { d, mean, sd }, format!("Gaussian::{}(mean={}, sd={})", name, mean, sd))
    }
}

impl D {
    fn draw<R: rand::Rng>(&self, r: &mut R) -> f64 {
        match self {
            D::G { d, .. } => d.ind_sample(r),
            D::E { d, .. } => d.ind_sample(r),
        }
    }
    fn draw_mut<R: rand::Rng>(&mut self, r: &mut R) -> f64 {
        match self {
            D::G { d, .. } => d.sample(r),
            D::E { d, .. } => d.sample(r),
        }
    }
    fn pdf(&self, x: f64) -> f64 {
        match self {
            D::G { d, .. } => d.pdf(x),
            D::E { d, .. } => d.pdf(x),
        }
    }
    fn logpdf(&self, x: f64) -> f64 {
        match self {
            D::G { d, .. } => d.logpdf(x),
            D::E { d, .. } => d.logpdf(x),
        }
    }
    fn cdf(&self, x: f64) -> f64 {
        match self {
            D::G { d, .. } => d.cdf(x),
            D::E { d, .. } => d.cdf(x),
        }
    }
    fn true_cdf(&self, x: f64) -> f64 {
        match self {
            D::G { mean, sd, .. } => stat::phi((x - mean) / sd),
            D::E { rate, .. } => -(-x * rate).exp_m1(),
        }
    }
    fn true_logpdf(&self, x: f64) -> f64 {
        match self {
            D::G { mean, sd, .. } => {
                let z = (x - mean) / sd;
                -0.5 * z * z - sd.ln() - 0.918938533204672741780329736405617639861
            }
            D::E { rate, .. } => rate.ln() - rate * x,
        }
    }
    /// (x - location) / scale
    fn standard(&self, x: f64) -> f64 {
        match self {
            D::G { mean, sd, .. } => (x - mean) / sd,
            D::E { rate, .. } => x * rate,
        }
    }
    /// What a rounding of the parameters may move a standardised draw by.
    fn slack(&self, z: f64) -> f64 {
        match self {
            D::G { mean, sd, .. } => 1e-9 * z.abs() + 8.0 * f64::EPSILON * (mean.abs() / sd) + 1e-12,
            D::E { .. } => 1e-9 * z.abs() + 1e-300,
        }
    }
    fn base(&self) -> D {
        match self {
            D::G { .. } => D::G { d: Gaussian::default(), mean: 0.0, sd: 1.0 },
            D::E { .. } => D::E { d: Exponential::default(), rate: 1.0 },
        }
    }
    fn in_support(&self, x: f64) -> bool {
        match self {
            D::G { .. } => x.is_finite(),
            D::E { .. } => !x.is_nan() && x >= 0.0,
        }
    }
}

fn law(c: &mut Ctx, d: D, name: &str) -> Verdict {
    let seed = c.below(1 << 40);
    let mut src = Prng::new(seed);
    let m = match c.below(12) {
        0 => 200_000,
        1..=3 => 40_000,
        _ => 8_000,
    } * if c.thorough { 5 } else { 1 };
    let by_mut = c.chance(1, 3);
    // One generator throughout, or a fresh one every few draws.
    let per = *c.pick(&[1usize, 2, 3, 7, 1_000_000]);
    let mut dm = d;
    let plan = Plan { limit: 4_000_000_000, ..Plan::new(Stream::plain(seed)) };
    let op = step(&plan, || {
        let mut v = Vec::with_capacity(m);
        let mut r = FastRng(Prng::new(src.next()));
        for i in 0..m {
            if i % per == 0 && i > 0 {
                r = FastRng(Prng::new(src.next()));
            }
            v.push(if by_mut { dm.draw_mut(&mut r) } else { d.draw(&mut r) });
        }
        v
    });
    let v = match op.res {
        Ok(v) => v,
        Err(e) => fail!("panic", "{} panicked while drawing: {:?}", name, e),
    };
    c.add("draws", m as u64);
    c.note(|| format!("{}: {} draws, first {:?}", name, m, &v[..5]));
    ensure!(v.iter().all(|x| d.in_support(*x)), "support", "{} drew a value outside its support", name);
    let mut u: Vec<f64> = v.iter().map(|x| d.true_cdf(*x)).collect();
    // consecutive draws are independent: 4x4 quartile table, disjoint pairs
    for lag in [1usize, 2] {
        let mut t = [0u64; 16];
        let mut i = 0;
        while i + lag < m {
            let q = |x: f64| ((x * 4.0) as usize).min(3);
            t[q(u[i]) * 4 + q(u[i + lag])] += 1;
            i += if lag == 1 { 2 } else if i % 4 == 0 { 1 } else { 3 };
        }
        let n: u64 = t.iter().sum();
        let (x2, p, _) = stat::chi2_test(&t, &[n as f64 / 16.0; 16], 1.0);
        ensure!(p > P, "dependent-draws", "{}: draws {} apart are not independent and correctly distributed (chi2={:.1}, p={:e}, {} pairs)", name, lag, x2, p, n);
    }
    // equally wide cells of probability, and the tails
    let mut cells = [0u64; 50];
    for x in &u {
        cells[((x * 50.0) as usize).min(49)] += 1;
    }
    let (x2, p, _) = stat::chi2_test(&cells, &[m as f64 / 50.0; 50], 1.0);
    ensure!(p > P, "wrong-law", "{}: draws do not follow the stated law (chi2={:.1} over 50 cells, p={:e}, {} draws)", name, x2, p, m);
    for t in [0.1f64, 0.02, 0.005, 1e-3, 2e-4, 5e-5, 1e-5, 1e-6] {
        let lo = u.iter().filter(|x| **x < t).count() as u64;
        // upper tail from the standardised value, to keep precision
        let hi = match d {
            D::G { .. } => {
                let z = -quantile(t);
                v.iter().filter(|x| d.standard(**x) > z).count() as u64
            }
            D::E { .. } => v.iter().filter(|x| d.standard(**x) > -t.ln()).count() as u64,
        };
        for (k, side) in [(lo, "lower"), (hi, "upper")] {
            let p = stat::binom_p(k, m as u64, t);
            ensure!(p > P, "wrong-tail", "{}: {} of {} draws in the {} tail of probability {} (p={:e})", name, k, m, side, t, p);
        }
    }
    // the object's own cdf and pdf describe these draws
    let tol = match d {
        D::G { .. } => 0.0035,
        D::E { .. } => 1e-9,
    };
    let eps = (-(P / 2.0).ln() / (2.0 * m as f64)).sqrt();
    for i in 0..40.min(m) {
        let x = v[i * (m / 40)];
        if !x.is_finite() {
            continue;
        }
        let emp = v.iter().filter(|y| **y <= x).count() as f64 / m as f64;
        let cdf = d.cdf(x);
        ensure!((cdf - emp).abs() <= tol + eps, "cdf-mismatch", "{}: cdf({})={} but {} of the draws are below", name, x, cdf, emp);
    }
    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (dist, p) = stat::ks_p(&u);
    ensure!(p > P, "wrong-law", "{}: Kolmogorov-Smirnov distance {} over {} draws (p={:e})", name, dist, m, p);
    c.see(dist.to_bits());
    c.sample = Some(format!("{}: {} draws, KS distance {:.5}", name, m, dist));
    Ok(())
}

/// Lower quantile of the standard normal, by bisection.
fn quantile(p: f64) -> f64 {
    let (mut lo, mut hi) = (-40.0, 40.0);
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if stat::phi(mid) < p {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo
}

/// pdf, logpdf and cdf at drawn values and at chosen quantiles.
fn describes(c: &mut Ctx, d: D, name: &str) -> Verdict {
    let stream = Stream::gen(c);
    let mut r = SimRng::new(stream);
    let m = c.urange(5, 60);
    let spread = *c.pick(&[1.0f64, 1.0, 3.0, 6.0]);
    let plan = Plan::new(stream);
    let op = step(&plan, || {
        let mut v = Vec::new();
        for _ in 0..m {
            let x = d.draw(&mut r);
            // stretch some away from the centre, staying in the support
            v.push(match d {
                D::G { mean, .. } => mean + (x - mean) * spread,
                D::E { .. } => x * spread,
            });
        }
        match d {
            D::G { mean, .. } => v.push(mean),
            D::E { .. } => v.push(0.0),
        }
        v.retain(|x| x.is_finite());
        v.into_iter().map(|x| (x, d.pdf(x), d.logpdf(x), d.cdf(x))).collect::<Vec<_>>()
    });
    let mut v = match op.res {
        Ok(v) => v,
        Err(e) => fail!("panic", "{} panicked: {:?}", name, e),
    };
    c.add("evaluations", v.len() as u64);
    for (x, pdf, lp, cdf) in &v {
        let want = d.true_logpdf(*x);
        // x - mean cancels: what rounding of x itself may change
        let z = d.standard(*x);
        let slack = 1e-9 * (1.0 + want.abs()) + z.abs() * d.slack(z) * 4.0;
        if !(slack < 1e-3) {
            continue;
        }
        ensure!((lp - want).abs() <= slack, "logpdf-mismatch", "{}: logpdf({})={}, the law's is {}", name, x, lp, want);
        let wp = want.exp();
        if wp > 1e-290 && wp < 1e290 {
            ensure!((pdf - wp).abs() <= wp * (slack * 2.0 + 1e-9), "pdf-mismatch", "{}: pdf({})={}, the law's is {}", name, x, pdf, wp);
        }
        let wc = d.true_cdf(*x);
        let tol = match d {
            D::G { .. } => 0.0035 + d.slack(z),
            D::E { .. } => 1e-9,
        };
        ensure!((cdf - wc).abs() <= tol, "cdf-mismatch", "{}: cdf({})={}, the law's is {}", name, x, cdf, wc);
        ensure!(*cdf >= 0.0 && *cdf <= 1.0, "cdf-range", "{}: cdf({})={}", name, x, cdf);
        c.see_f(*pdf);
        c.see_f(*cdf);
    }
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    for w in v.windows(2) {
        ensure!(w[0].3 <= w[1].3 + 1e-9, "cdf-monotone", "{}: cdf({})={} > cdf({})={}", name, w[0].0, w[0].3, w[1].0, w[1].3);
    }
    if let D::E { d, rate } = d {
        ensure!(d.lambda() == rate, "lambda", "lambda() is {} for rate {}", d.lambda(), rate);
    }
    c.sample = Some(format!("{}: pdf/logpdf/cdf at {} drawn points", name, v.len()));
    Ok(())
}

/// Draws are a function of parameters and generator state alone, and only
/// shift and scale with the parameters.
fn functional(c: &mut Ctx, d: D, name: &str) -> Verdict {
    let stream = Stream::gen(c);
    let m = c.urange(1, 60);
    let other = gen_dist(c).0;
    let other_seed = c.below(1 << 32);
    let plan = Plan::new(stream);
    let base = d.base();
    c.note(|| format!("{} {:?} {} draws, other {:?}", name, stream, m, other));
    let op = step(&plan, || {
        let mut r = SimRng::new(stream);
        let a: Vec<f64> = (0..m).map(|_| d.draw(&mut r)).collect();
        let pos_a = r.pos;
        // the &mut interface, with unrelated draws in between
        let mut r = SimRng::new(stream);
        let mut o = SimRng::new(Stream::plain(other_seed));
        let mut dm = d;
        let mut om = other;
        let b: Vec<f64> = (0..m)
            .map(|i| {
                if i % 3 == 1 {
                    om.draw_mut(&mut o);
                }
                let x = dm.draw_mut(&mut r);
                if i % 2 == 0 {
                    other.draw(&mut o);
                }
                x
            })
            .collect();
        let pos_b = r.pos;
        // a generator that was cloned half-way
        let mut r = SimRng::new(stream);
        let mut e: Vec<f64> = (0..m / 2).map(|_| d.draw(&mut r)).collect();
        let mut r2 = r.clone();
        e.extend((m / 2..m).map(|_| dm.draw(&mut r2)));
        // the standard member of the family on the same stream
        let mut r = SimRng::new(stream);
        let s: Vec<f64> = (0..m).map(|_| base.draw(&mut r)).collect();
        let mut r = SimRng::new(stream);
        let exp1: Vec<f64> = (0..m).map(|_| { let rand::distributions::exponential::Exp1(x) = rand::Rng::gen(&mut r); x }).collect();
        (a, b, e, s, pos_a, pos_b, exp1)
    });
    let (a, b, e, s, pa, pb, exp1) = match op.res {
        Ok(v) => v,
        Err(x) => fail!("panic", "{} panicked: {:?}", name, x),
    };
    c.add("draws", 4 * m as u64);
    let same = |x: f64, y: f64| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
    for i in 0..m {
        ensure!(d.in_support(a[i]), "support", "{}: draw {} is {} under {:?}", name, i, a[i], stream);
        // rand's own Exp1 can be infinite (it takes the logarithm of a uniform
        // that may be 0); nothing else may be.
        ensure!(!a[i].is_infinite() || exp1[i].is_infinite(), "support", "{}: draw {} is {} under {:?}, where rand's Exp1 draws {}", name, i, a[i], stream, exp1[i]);
        ensure!(same(a[i], b[i]), "not-repeatable", "{}: draw {} is {} through ind_sample but {} through sample, interleaved with other draws, from the same generator state", name, i, a[i], b[i]);
        ensure!(same(a[i], e[i]), "not-repeatable", "{}: draw {} is {} first and {} when repeated from the same generator state", name, i, a[i], e[i]);
        if s[i].is_finite() {
            let z = d.standard(a[i]);
            ensure!((z - s[i]).abs() <= d.slack(s[i]), "not-scaled", "{}: draw {} is {}, which is {} standardised, but the standard member drew {} from the same generator state", name, i, a[i], z, s[i]);
        }
        c.see_f(a[i]);
    }
    ensure!(pa == pb, "not-repeatable", "{}: sample and ind_sample used {} and {} words for the same draws", name, pb, pa);
    c.sample = Some(format!("{}: {} draws repeated, interleaved and rescaled under {:?}", name, m, stream.mode));
    Ok(())
}

pub fn follows(c: &mut Ctx) -> Verdict {
    let kind = c.below(5);
    let (d, name) = gen_dist(c);
    c.case(mix2(kind, dst::prng::hash_str(&name)));
    c.nontrivial = true;
    let r = match kind {
        0 | 1 => functional(c, d, &name),
        2 | 3 => describes(c, d, &name),
        _ => law(c, d, &name),
    };
    let e = c.event;
    c.case(e);
    r
}
