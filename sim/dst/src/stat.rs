//! Tail probabilities for the statistical oracles.

pub fn ln_gamma(x: f64) -> f64 {
    // Lanczos, g = 7
    const C: [f64; 9] = [
        0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
        -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    if x < 0.5 {
        return (std::f64::consts::PI / (std::f64::consts::PI * x).sin()).ln() - ln_gamma(1.0 - x);
    }
    let x = x - 1.0;
    let mut a = C[0];
    let t = x + 7.5;
    for (i, c) in C.iter().enumerate().skip(1) {
        a += c / (x + i as f64);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Upper regularised incomplete gamma Q(a, x).
pub fn gamma_q(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    let pre = (-x + a * x.ln() - ln_gamma(a)).exp();
    if x < a + 1.0 {
        let mut sum = 1.0 / a;
        let mut del = sum;
        let mut ap = a;
        for _ in 0..100_000 {
            ap += 1.0;
            del *= x / ap;
            sum += del;
            if del.abs() < sum.abs() * 1e-16 {
                break;
            }
        }
        (1.0 - sum * pre).max(0.0)
    } else {
        let tiny = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / tiny;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..100_000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-15 {
                break;
            }
        }
        pre * h
    }
}

pub fn chi2_p(stat: f64, df: usize) -> f64 {
    gamma_q(df as f64 / 2.0, stat / 2.0)
}

/// p-value of observed counts against expected ones; cells expected to hold
/// fewer than `min` are merged into the smallest ones' pool.
pub fn chi2_test(obs: &[u64], exp: &[f64], min: f64) -> (f64, f64, usize) {
    let mut stat = 0.0;
    let mut cells = 0usize;
    let (mut po, mut pe) = (0.0, 0.0);
    for (o, e) in obs.iter().zip(exp) {
        if *e < min {
            po += *o as f64;
            pe += *e;
        } else {
            stat += (*o as f64 - e).powi(2) / e;
            cells += 1;
        }
    }
    if pe >= min {
        stat += (po - pe).powi(2) / pe;
        cells += 1;
    } else if pe == 0.0 && po > 0.0 {
        return (f64::INFINITY, 0.0, 1); // impossible outcomes were seen
    }
    if cells < 2 {
        return (0.0, 1.0, 1);
    }
    (stat, chi2_p(stat, cells - 1), cells - 1)
}

/// erfc with about 1e-15 relative accuracy (through the incomplete gamma).
pub fn erfc(x: f64) -> f64 {
    if x >= 0.0 {
        gamma_q(0.5, x * x)
    } else {
        2.0 - gamma_q(0.5, x * x)
    }
}

/// Standard normal cdf.
pub fn phi(z: f64) -> f64 {
    0.5 * erfc(-z / std::f64::consts::SQRT_2)
}

/// Two-sided p-value of a z score.
pub fn z_p(z: f64) -> f64 {
    erfc(z.abs() / std::f64::consts::SQRT_2)
}

/// A bound on the two-sided p-value of k successes in n trials of probability
/// p (Chernoff: valid for every n and p).
pub fn binom_p(k: u64, n: u64, p: f64) -> f64 {
    if n == 0 {
        return 1.0;
    }
    if p <= 0.0 {
        return if k == 0 { 1.0 } else { 0.0 };
    }
    if p >= 1.0 {
        return if k == n { 1.0 } else { 0.0 };
    }
    let q = k as f64 / n as f64;
    let mut kl = 0.0;
    if q > 0.0 {
        kl += q * (q / p).ln();
    }
    if q < 1.0 {
        kl += (1.0 - q) * ((1.0 - q) / (1.0 - p)).ln();
    }
    (2.0 * (-(n as f64) * kl).exp()).min(1.0)
}

/// Bound on the p-value of the Kolmogorov-Smirnov distance (DKW-Massart).
pub fn ks_p(sorted_u: &[f64]) -> (f64, f64) {
    let n = sorted_u.len() as f64;
    let mut d: f64 = 0.0;
    for (i, u) in sorted_u.iter().enumerate() {
        d = d.max((u - i as f64 / n).abs()).max(((i + 1) as f64 / n - u).abs());
    }
    (d, (2.0 * (-2.0 * n * d * d).exp()).min(1.0))
}
