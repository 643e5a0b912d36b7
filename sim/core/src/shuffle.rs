use crate::elems::{Elem, Wide};
use dst::prng::{mix2, Prng};
use dst::{alloc, ensure, fail, stat, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use std::cell::Cell;
use std::sync::atomic::Ordering::SeqCst;
use sut::learning::toolkit::rand_utils::{fisher_yates, in_place_fisher_yates};

pub fn gen_len(c: &mut Ctx) -> usize {
    match c.below(40) {
        0..=11 => c.urange(0, 6),
        12..=21 => c.urange(0, 20),
        22..=29 => c.urange(2, 70),
        30..=34 => *c.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]),
        35..=37 => c.urange(70, 1100),
        38 => *c.pick(&[511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000]),
        _ => {
            if c.chance(1, 12) {
                *c.pick(&[10_000, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000, 131_073])
            } else {
                c.urange(0, 3000)
            }
        }
    }
}

/// Indices into the element values: which value stands at each position.
pub fn gen_contents(c: &mut Ctx, n: usize, kinds: u64) -> Vec<u64> {
    let n64 = n as u64;
    match c.below(6) {
        0 | 1 => (0..n64).collect(),
        2 => (0..n64).rev().collect(),
        3 => vec![c.below(7).min(kinds - 1); n],
        4 => {
            let mut b = c.bulk();
            let k = c.range(1, 4);
            (0..n).map(|_| b.below(k)).collect()
        }
        _ => {
            let mut b = c.bulk();
            let m = kinds.min(1 << 31);
            (0..n).map(|_| b.below(m)).collect()
        }
    }
}

/// Maybe fail one of the draws.
pub fn gen_fault(c: &mut Ctx, n: usize) -> Option<Fault> {
    if !c.chance(1, 4) {
        return None;
    }
    let at = match c.below(3) {
        0 => c.below(n as u64 + 2),
        1 => c.below(4),
        _ => (n as u64).saturating_sub(c.below(3)),
    };
    Some(Fault { kind: Kind::Draw, at, act: Act::Panic })
}

pub fn gen_plan(c: &mut Ctx, n: usize) -> Plan {
    let stream = Stream::gen(c);
    let mut p = Plan::new(stream);
    if let Some(f) = gen_fault(c, n) {
        c.hit("configured.rng_failure");
        p.faults.push(f);
    }
    p
}

pub fn gen_memory(c: &mut Ctx) {
    let m = c.below(6);
    alloc::PATTERN.store(m, SeqCst);
}

pub fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}

pub fn short(v: &[u64]) -> String {
    if v.len() <= 24 {
        format!("{:?}", v)
    } else {
        format!("{:?}.. ({} elements)", &v[..12], v.len())
    }
}

fn conserve_copy<T: Elem>(c: &mut Ctx) -> Verdict {
    let n = gen_len(c);
    let vals = gen_contents(c, n, T::KINDS);
    let plan = gen_plan(c, n);
    gen_memory(c);
    // The slice sits inside a larger buffer whose rest must stay untouched.
    let pad = c.urange(0, 3);
    let mut buf: Vec<T> = Vec::with_capacity(n + 2 * pad);
    for i in 0..pad {
        buf.push(T::make(i as u64));
    }
    buf.extend(vals.iter().map(|i| T::make(*i)));
    for i in 0..pad {
        buf.push(T::make(i as u64 + 3));
    }
    let before: Vec<u64> = buf.iter().map(|x| x.key()).collect();
    let want = sorted(before[pad..pad + n].to_vec());
    let in_place = c.chance(1, 2);
    let name = if in_place { "in_place_fisher_yates" } else { "fisher_yates" };
    c.note(|| format!("{}::<{}> n={} contents={} stream={:?} faults={:?} memory-pattern={}", name, T::NAME, n, short(&vals), plan.stream, plan.faults, alloc::PATTERN.load(SeqCst)));
    c.case(mix2(n as u64, mix2(in_place as u64, dst::prng::hash_str(T::NAME))));
    c.case(mix2(plan.stream.seed, plan.faults.len() as u64));
    c.nontrivial |= n >= 2;
    let res: Result<Vec<u64>, Caught>;
    let fired;
    if in_place {
        let op = step(&plan, || in_place_fisher_yates(&mut buf[pad..pad + n]));
        fired = op.fired;
        c.add("draws", op.points[0]);
        res = op.res.map(|_| Vec::new());
    } else {
        let op = step(&plan, || fisher_yates(&buf[pad..pad + n]));
        fired = op.fired;
        c.add("draws", op.points[0]);
        res = op.res.map(|v| v.iter().map(|x| x.key()).collect());
    }
    alloc::PATTERN.store(0, SeqCst);
    if fired > 0 {
        c.hit("fault.rng_failure_fired");
    }
    let after: Vec<u64> = buf.iter().map(|x| x.key()).collect();
    ensure!(after[..pad] == before[..pad] && after[pad + n..] == before[pad + n..], "neighbour-memory",
        "{}::<{}> of {} elements changed memory next to the slice", name, T::NAME, n);
    match res {
        Ok(out) => {
            if in_place {
                ensure!(sorted(after[pad..pad + n].to_vec()) == want, "not-a-rearrangement",
                    "{}::<{}> of {} elements left {} from {}", name, T::NAME, n, short(&after[pad..pad + n]), short(&before[pad..pad + n]));
                for k in &after {
                    c.see(*k);
                }
            } else {
                ensure!(after == before, "input-changed", "fisher_yates::<{}> changed its input", T::NAME);
                ensure!(out.len() == n, "wrong-length", "fisher_yates::<{}> returned {} elements for {}", T::NAME, out.len(), n);
                ensure!(sorted(out.clone()) == want, "not-a-rearrangement",
                    "fisher_yates::<{}> of {} elements returned {} from {}", T::NAME, n, short(&out), short(&before[pad..pad + n]));
                for k in &out {
                    c.see(*k);
                }
            }
            if out != before && n > 1 {
                c.hit("probe.completed_shuffles");
            }
        }
        Err(Caught::Injected) => {
            if in_place {
                ensure!(sorted(after[pad..pad + n].to_vec()) == want, "lost-on-failure",
                    "{}::<{}> of {} elements: after the generator failed the slice holds {} instead of a rearrangement of {}",
                    name, T::NAME, n, short(&after[pad..pad + n]), short(&before[pad..pad + n]));
                c.hit("probe.failed_midway");
            } else {
                ensure!(after == before, "input-changed", "fisher_yates::<{}> changed its input", T::NAME);
            }
        }
        Err(Caught::Panic(m)) => fail!("panic", "{}::<{}> of {} elements panicked: {}", name, T::NAME, n, m),
    }
    Ok(())
}

thread_local! {
    static MADE: Cell<i64> = const { Cell::new(0) };
}

/// An element that owns memory and reports being dropped twice.
struct Owned {
    id: u64,
    mem: Box<(u64, Cell<bool>)>,
}
impl Owned {
    fn new(id: u64) -> Owned {
        MADE.with(|m| m.set(m.get() + 1));
        Owned { id, mem: Box::new((id, Cell::new(true))) }
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        MADE.with(|m| m.set(m.get() - 1));
        self.mem.1.set(false);
    }
}

fn conserve_owned(c: &mut Ctx) -> Verdict {
    let n = gen_len(c).min(3000);
    let plan = gen_plan(c, n);
    gen_memory(c);
    MADE.with(|m| m.set(0));
    let mut v: Vec<Owned> = (0..n as u64).map(Owned::new).collect();
    c.note(|| format!("in_place_fisher_yates::<Owned> n={} stream={:?} faults={:?}", n, plan.stream, plan.faults));
    c.case(mix2(n as u64, 77));
    c.case(mix2(plan.stream.seed, plan.faults.len() as u64));
    c.nontrivial |= n >= 2;
    let op = step(&plan, || in_place_fisher_yates(&mut v));
    alloc::PATTERN.store(0, SeqCst);
    if op.fired > 0 {
        c.hit("fault.rng_failure_fired");
    }
    if let Err(Caught::Panic(m)) = &op.res {
        fail!("panic", "in_place_fisher_yates::<Owned> of {} elements panicked: {}", n, m);
    }
    // Were any dropped during the shuffle? Look before touching what they own.
    let alive = MADE.with(|m| m.get());
    if alive != n as i64 {
        std::mem::forget(v);
        fail!("ownership", "in_place_fisher_yates dropped or duplicated owned elements: {} of {} alive", alive, n);
    }
    let ids: Vec<u64> = v.iter().map(|o| o.id).collect();
    let class = if op.res.is_ok() { "not-a-rearrangement" } else { "lost-on-failure" };
    if sorted(ids.clone()) != (0..n as u64).collect::<Vec<_>>() {
        std::mem::forget(v);
        fail!(class, "in_place_fisher_yates::<Owned> of {} elements left {}", n, short(&ids));
    }
    for o in &v {
        ensure!(o.mem.0 == o.id && o.mem.1.get(), "ownership", "element {} owns the wrong memory", o.id);
        c.see(o.id);
    }
    drop(v);
    let left = MADE.with(|m| m.get());
    ensure!(left == 0, "ownership", "{} owned elements not dropped exactly once", left);
    c.hit("probe.owned_elements");
    Ok(())
}

pub fn conserve(c: &mut Ctx) -> Verdict {
    let ops = c.range(1, 4);
    for _ in 0..ops {
        match c.below(14) {
            0 | 1 => conserve_copy::<u64>(c)?,
            2 => conserve_copy::<u8>(c)?,
            3 => conserve_copy::<u16>(c)?,
            4 => conserve_copy::<i32>(c)?,
            5 => conserve_copy::<f64>(c)?,
            6 => conserve_copy::<()>(c)?,
            7 => conserve_copy::<[u8; 3]>(c)?,
            8 => conserve_copy::<Wide>(c)?,
            9 => conserve_copy::<&'static str>(c)?,
            10 => conserve_copy::<u128>(c)?,
            11 => conserve_copy::<bool>(c)?,
            12 => conserve_copy::<usize>(c)?,
            _ => conserve_owned(c)?,
        }
    }
    let t = c.tape.len();
    let e = c.event;
    c.sample = Some(format!("{} shuffles, {} choices, event hash {:x}", ops, t, e));
    Ok(())
}

// ------------------------------------------------------------------ fairness

/// Below this an experiment is a violation. One quick run makes about 1e4
/// tests, so the chance of a false alarm per fresh seed is about 1e-9.
pub const P: f64 = 1e-13;

fn perm<T: Elem>(in_place: bool, base: &[T], plan: &Plan, out: &mut Vec<u64>) -> Result<(), Caught> {
    out.clear();
    if in_place {
        let mut v = base.to_vec();
        step(plan, || in_place_fisher_yates(&mut v)).res?;
        out.extend(v.iter().map(|x| x.key()));
    } else {
        let v = step(plan, || fisher_yates(base)).res?;
        out.extend(v.iter().map(|x| x.key()));
    }
    Ok(())
}

fn rank(p: &[u64]) -> usize {
    // Lehmer code
    let mut r = 0;
    for i in 0..p.len() {
        let less = p[i + 1..].iter().filter(|x| **x < p[i]).count();
        r = r * (p.len() - i) + less;
    }
    r
}

fn fact(n: usize) -> usize {
    (1..=n).product()
}

fn unbiased_t<T: Elem>(c: &mut Ctx) -> Verdict {
    let in_place = c.chance(1, 2);
    let name = if in_place { "in_place_fisher_yates" } else { "fisher_yates" };
    let kind = c.below(6);
    let seed = c.below(1 << 40);
    c.case(mix2(kind, mix2(in_place as u64, seed)));
    let mut src = Prng::new(seed);
    let mut out = Vec::new();
    let boom = |e: Caught| dst::Violation { class: "panic".into(), msg: format!("{} panicked: {:?}", name, e) };
    let mul = if c.thorough { 4 } else { 1 };
    match kind {
        // every ordering, small n
        0 | 1 => {
            let n = c.urange(2, 6);
            let base: Vec<T> = (0..n as u64).map(T::make).collect();
            let keys: Vec<u64> = base.iter().map(|x| x.key()).collect();
            let cells = fact(n);
            let m = (cells * if n == 6 { 60 } else { 200 }).max(2000) * mul;
            let mut counts = vec![0u64; cells];
            for _ in 0..m {
                let plan = Plan::new(Stream::plain(src.next()));
                perm(in_place, &base, &plan, &mut out).map_err(boom)?;
                let idx: Vec<u64> = out.iter().map(|k| keys.iter().position(|x| x == k).unwrap_or(99) as u64).collect();
                let r = rank(&idx);
                ensure!(r < cells, "not-a-rearrangement", "{} n={} gave {:?}", name, n, out);
                counts[r] += 1;
            }
            let e = vec![m as f64 / cells as f64; cells];
            let (x2, p, df) = stat::chi2_test(&counts, &e, 1.0);
            c.add("trials", m as u64);
            c.note(|| format!("{}::<{}> n={}: {} trials over {} orderings, chi2={:.1} df={} p={:e}", name, T::NAME, n, m, cells, x2, df, p));
            c.sample = Some(format!("{}::<{}> n={}, {} trials over all orderings, p={:.3e}", name, T::NAME, n, m, p));
            for k in &counts {
                c.see(*k);
            }
            ensure!(p > P, "biased-orderings", "{} of {} elements: orderings are not equally likely (chi2={:.1}, df={}, p={:e}, {} trials)", name, n, x2, df, p, m);
        }
        // successive shuffles are independent
        2 => {
            let n = c.urange(2, 4);
            let f = fact(n);
            let base: Vec<T> = (0..n as u64).map(T::make).collect();
            let keys: Vec<u64> = base.iter().map(|x| x.key()).collect();
            let m = (f * f * 100).max(4000) * mul;
            let mut counts = vec![0u64; f * f];
            let mut last: Option<usize> = None;
            for _ in 0..m {
                let plan = Plan::new(Stream::plain(src.next()));
                perm(in_place, &base, &plan, &mut out).map_err(boom)?;
                let idx: Vec<u64> = out.iter().map(|k| keys.iter().position(|x| x == k).unwrap_or(99) as u64).collect();
                let r = rank(&idx);
                ensure!(r < f, "not-a-rearrangement", "{} n={} gave {:?}", name, n, out);
                if let Some(l) = last {
                    counts[l * f + r] += 1;
                    last = None;
                } else {
                    last = Some(r);
                }
            }
            let t: u64 = counts.iter().sum();
            let (x2, p, df) = stat::chi2_test(&counts, &vec![t as f64 / (f * f) as f64; f * f], 1.0);
            c.add("trials", m as u64);
            c.see(x2.to_bits());
            c.sample = Some(format!("{} n={}, {} consecutive pairs, p={:.3e}", name, n, t, p));
            ensure!(p > P, "dependent-shuffles", "{} of {} elements: successive shuffles are not independent and uniform (chi2={:.1}, df={}, p={:e})", name, n, x2, df, p);
        }
        // where every element lands, medium n
        3 => {
            let n = if T::KINDS < 70 { c.urange(2, 8) } else { c.urange(5, 48) };
            let base: Vec<T> = (0..n as u64).map(T::make).collect();
            let keys: Vec<u64> = base.iter().map(|x| x.key()).collect();
            let m = (60 * n).max(1500) * mul;
            let mut counts = vec![0u64; n * n];
            for _ in 0..m {
                let plan = Plan::new(Stream::plain(src.next()));
                perm(in_place, &base, &plan, &mut out).map_err(boom)?;
                for (pos, k) in out.iter().enumerate() {
                    let s = keys.iter().position(|x| x == k);
                    ensure!(s.is_some(), "not-a-rearrangement", "{} n={} gave {:?}", name, n, out);
                    counts[s.unwrap() * n + pos] += 1;
                }
            }
            let e = vec![m as f64 / n as f64; n];
            let mut worst: f64 = 1.0;
            let mut total = 0.0;
            for s in 0..n {
                let (x2, p, df) = stat::chi2_test(&counts[s * n..(s + 1) * n], &e, 1.0);
                total += x2;
                worst = worst.min(p);
                ensure!(p > P, "biased-positions", "{} of {} elements: element {} is not equally likely to land anywhere (chi2={:.1}, df={}, p={:e}, {} trials)", name, n, s, x2, df, p, m);
            }
            // all cells together: (n-1)/n * X2 is chi-squared with (n-1)^2 degrees
            let t = total * (n - 1) as f64 / n as f64;
            let p = stat::chi2_p(t, (n - 1) * (n - 1));
            c.add("trials", m as u64);
            c.see(total.to_bits());
            c.sample = Some(format!("{}::<{}> n={}, {} trials, position matrix p={:.3e}", name, T::NAME, n, m, p));
            ensure!(p > P, "biased-positions", "{} of {} elements: landing positions are not uniform (chi2={:.1}, p={:e}, {} trials)", name, n, t, p, m);
        }
        _ => large::<T>(c, in_place, name, &mut src)?,
    }
    c.nontrivial = true;
    Ok(())
}

/// Long slices: landing position of chosen elements, fixed points, kept
/// neighbours, crossing of the middle, runs of the cycle structure.
fn large<T: Elem>(c: &mut Ctx, in_place: bool, name: &str, src: &mut Prng) -> Verdict {
    let n = match c.below(10) {
        0..=3 => c.urange(20, 130),
        4..=6 => c.urange(100, 700),
        7 => *c.pick(&[64, 128, 255, 256, 257, 512, 513, 1000, 1024, 1025]),
        8 => c.urange(700, 5000),
        _ => *c.pick(&[4096, 5000, 10_000, 65_537]),
    };
    let work = if c.thorough { 12_000_000 } else { 2_500_000 };
    let m = (work / n).clamp(30, 20_000);
    let base: Vec<u64> = (0..n as u64).collect();
    let watch = [0, 1, n / 4, n / 2, n / 2 + 1, n - 2, n - 1, src.below(n as u64) as usize];
    let nb = if m >= 1500 { 16 } else if m >= 400 { 4 } else { 2 };
    let mut bucket = vec![vec![0u64; nb]; watch.len()];
    let mut stays = [0u64; 8];
    // to the ends, from the ends
    let mut first_from = vec![0u64; nb];
    let mut last_from = vec![0u64; nb];
    let (mut fixed, mut next_to, mut prev_to, mut ascents) = (0u64, 0u64, 0u64, 0u64);
    let mut half: i64 = 0;
    let mut parity = 0u64;
    let mut disp = 0f64;
    let mut pos = vec![0usize; n];
    for _ in 0..m {
        let plan = Plan::new(Stream::plain(src.next()));
        let mut v: Vec<u64>;
        if in_place {
            v = base.clone();
            match step(&plan, || in_place_fisher_yates(&mut v)).res {
                Ok(()) => {}
                Err(e) => fail!("panic", "{} of {} elements: {:?}", name, n, e),
            }
        } else {
            match step(&plan, || fisher_yates(&base)).res {
                Ok(x) => v = x,
                Err(e) => fail!("panic", "{} of {} elements: {:?}", name, n, e),
            }
        }
        ensure!(v.len() == n && v.iter().all(|x| *x < n as u64), "not-a-rearrangement", "{} of {} elements", name, n);
        for (p, x) in v.iter().enumerate() {
            pos[*x as usize] = p;
        }
        for (i, w) in watch.iter().enumerate() {
            bucket[i][pos[*w] * nb / n] += 1;
            stays[i] += (pos[*w] == *w) as u64;
        }
        first_from[v[0] as usize * nb / n] += 1;
        last_from[v[n - 1] as usize * nb / n] += 1;
        for i in 0..n {
            fixed += (v[i] == i as u64) as u64;
            disp += (v[i] as f64 - i as f64).abs();
            if i + 1 < n {
                next_to += (v[i] + 1 == v[i + 1]) as u64;
                prev_to += (v[i] == v[i + 1] + 1) as u64;
                ascents += (v[i] < v[i + 1]) as u64;
            }
            if i < n / 2 && v[i] < (n / 2) as u64 {
                half += 1;
            }
        }
        // parity of the permutation from its cycles
        let mut seen = vec![false; n];
        let mut cyc = 0;
        for i in 0..n {
            if !seen[i] {
                cyc += 1;
                let mut j = i;
                while !seen[j] {
                    seen[j] = true;
                    j = v[j] as usize;
                    if j >= n {
                        break;
                    }
                }
            }
        }
        parity += ((n - cyc) % 2) as u64;
    }
    let (mf, nf) = (m as f64, n as f64);
    c.add("trials", m as u64);
    c.note(|| format!("{} n={} trials={} fixed={} next={} half={} parity={}", name, n, m, fixed, next_to, half, parity));
    c.sample = Some(format!("{} n={}, {} trials: {} fixed points, {} kept neighbours, parity {}", name, n, m, fixed, next_to, parity));
    // bucket widths differ by rounding: expected counts follow the widths
    let width = |b: usize| (0..n).filter(|p| p * nb / n == b).count() as f64;
    let exp: Vec<f64> = (0..nb).map(|b| width(b) * mf / nf).collect();
    let test = |what: String, o: &[u64]| -> Verdict {
        let (x2, p, df) = stat::chi2_test(o, &exp, 1.0);
        ensure!(p > P, "biased-positions", "{} of {} elements: {} is not uniform (chi2={:.1}, df={}, p={:e}, {} trials)", name, n, what, x2, df, p, m);
        Ok(())
    };
    for (i, w) in watch.iter().enumerate() {
        test(format!("the landing position of element {}", w), &bucket[i])?;
        let p = stat::binom_p(stays[i], m as u64, 1.0 / nf);
        ensure!(p > P, "biased-positions", "{} of {} elements: element {} stayed in place {} times in {} trials (p={:e})", name, n, w, stays[i], m, p);
    }
    test("the element landing first".into(), &first_from)?;
    test("the element landing last".into(), &last_from)?;
    // Sums of rare indicators are close to Poisson. Within one trial they are
    // weakly dependent, so a wider threshold on a Chernoff bound.
    let pois = |what: &str, k: u64, lam: f64| -> Verdict {
        let k = k as f64;
        let kl = if k > 0.0 { k * (k / lam).ln() - k + lam } else { lam };
        ensure!((-kl * 0.7).exp() > P, "biased-structure", "{} of {} elements: {} {} in {} trials, expected about {:.1}", name, n, k, what, m, lam);
        Ok(())
    };
    pois("fixed points", fixed, mf)?;
    pois("elements still followed by their successor", next_to, mf * (nf - 1.0) / nf)?;
    pois("elements preceded by their successor", prev_to, mf * (nf - 1.0) / nf)?;
    let z = (ascents as f64 - mf * (nf - 1.0) / 2.0) / (mf * (nf + 1.0) / 12.0).sqrt();
    ensure!(stat::z_p(z) > P, "biased-structure", "{} of {} elements: {} ascents in {} trials (z={:.1})", name, n, ascents, m, z);
    // |i - sigma(i)| sums to (n^2-1)/3 on average, with variance about 2n^3/45
    let zd = (disp - mf * (nf * nf - 1.0) / 3.0) / (mf * (nf + 1.0) * (2.0 * nf * nf + 7.0) / 45.0).sqrt();
    ensure!(stat::z_p(zd) > P, "biased-structure", "{} of {} elements: total displacement z={:.1}", name, n, zd);
    let h = (n / 2) as f64;
    let mean = h * h / nf;
    let var = h * (h / nf) * (1.0 - h / nf) * (nf - h) / (nf - 1.0);
    let zh = (half as f64 - mf * mean) / (mf * var).sqrt();
    ensure!(stat::z_p(zh) > P, "biased-structure", "{} of {} elements: elements staying in the first half z={:.1}", name, n, zh);
    let pp = stat::binom_p(parity, m as u64, 0.5);
    ensure!(pp > P, "biased-structure", "{} of {} elements: {} of {} permutations are odd (p={:e})", name, n, parity, m, pp);
    c.see(disp.to_bits());
    c.see(fixed);
    Ok(())
}

pub fn unbiased(c: &mut Ctx) -> Verdict {
    match c.below(6) {
        0 => unbiased_t::<u8>(c),
        1 => unbiased_t::<Wide>(c),
        2 => unbiased_t::<f64>(c),
        3 => unbiased_t::<&'static str>(c),
        _ => unbiased_t::<u64>(c),
    }
}
