//! C07: the Shuffler transformer.
use crate::elems::{Elem, Wide};
use crate::util::*;
use dst::prng::{mix2, Prng};
use dst::{ensure, fail, sched, stat, step, Act, Caught, Ctx, Fault, Kind, Plan, Stream, Verdict};
use rand::Rng;
use rusty_machine::data::transforms::{Shuffler, Transformer};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::Cell;
use std::rc::Rc;

/// A caller's generator whose position the caller keeps an eye on.
struct Watched {
    stream: Stream,
    pos: Rc<Cell<u64>>,
}
impl Rng for Watched {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        sched::draw_point();
        let p = self.pos.get();
        self.pos.set(p + 1);
        self.stream.word(p)
    }
}

fn dims(c: &mut Ctx) -> (usize, usize) {
    let r = match c.below(8) {
        0 => c.urange(0, 2),
        1..=4 => c.urange(2, 9),
        5 | 6 => c.urange(5, 60),
        _ => *c.pick(&[31, 32, 33, 64, 100, 128, 200, 300, 513]),
    };
    let k = match c.below(6) {
        0 => c.urange(0, 1),
        5 => c.urange(2, 20),
        _ => c.urange(1, 5),
    };
    (r, k)
}

/// How the rows' contents relate: all different, or with equal rows.
fn fill<T: Elem>(style: u64, r: usize, k: usize) -> Vec<T> {
    (0..r * k)
        .map(|i| {
            let (row, col) = ((i / k.max(1)) as u64, (i % k.max(1)) as u64);
            T::make(match style {
                0 => i as u64,
                1 => row % 3 * 7 + col,
                2 => (r as u64 - row) * 11 + (k as u64 - col) * 3,
                _ => row,
            })
        })
        .collect()
}

fn keys<T: Elem>(m: &Matrix<T>) -> Vec<Vec<u64>> {
    let k = m.cols();
    (0..m.rows()).map(|i| m.data()[i * k..(i + 1) * k].iter().map(|x| x.key()).collect()).collect()
}

/// The order in which rows 0..r came out of a shuffle of row numbers.
fn order_of(rng: Watched, r: usize) -> Result<Vec<u64>, String> {
    let plan = Plan::new(Stream::plain(5));
    let mut s = Shuffler::new(rng);
    match step(&plan, || s.transform(Matrix::new(r, 1, (0..r as u64).collect::<Vec<_>>()))).res {
        Ok(Ok(m)) => Ok(m.into_vec()),
        Ok(Err(e)) => Err(format!("{}", e)),
        Err(e) => Err(caught(&e)),
    }
}

fn rows_t<T: Elem>(c: &mut Ctx) -> Verdict {
    let st = Stream::gen(c);
    let pos = Rc::new(Cell::new(0));
    let mut s = Shuffler::new(Watched { stream: st, pos: pos.clone() });
    let times = c.urange(1, 4);
    for _ in 0..times {
        let (r, k) = dims(c);
        let style = c.below(4);
        let data = fill::<T>(style, r, k);
        let m = Matrix::new(r, k, data);
        let before = keys(&m);
        let start = pos.get();
        // the thread's own generator must not matter
        let mut plan = Plan::new(Stream::plain(c.below(1 << 20)));
        let mut at = None;
        if c.chance(1, 6) {
            let f = c.below(r as u64 + 2);
            plan.faults.push(Fault { kind: Kind::Draw, at: f, act: Act::Panic });
            at = Some(f);
        }
        memory(c);
        c.case(mix2(mix2(r as u64, k as u64), mix2(st.seed, style)));
        c.note(|| format!("transform {}x{} of {} (style {}), stream {:?} from word {}, failing draw {:?}", r, k, T::NAME, style, st, start, at));
        c.nontrivial |= r >= 2 && k >= 1;
        let op = step(&plan, || s.transform(m));
        memory_off();
        c.add("draws", op.points[0]);
        note_fired(c, &plan, op.fired);
        match op.res {
            Ok(Ok(out)) => {
                ensure!(out.rows() == r && out.cols() == k, "shape", "a {}x{} matrix came back as {}x{}", r, k, out.rows(), out.cols());
                let after = keys(&out);
                let (mut a, mut b) = (before.clone(), after.clone());
                a.sort();
                b.sort();
                ensure!(a == b, "rows-broken", "shuffling a {}x{} matrix of {} did not give the same rows back: {:?} became {:?}", r, k, T::NAME, short(&before), short(&after));
                for row in &after {
                    for x in row {
                        c.see(*x);
                    }
                }
                if op.fired == 0 {
                    // The same generator state gives the same order, whatever
                    // is in the rows and wherever the state came from.
                    let p2 = Rc::new(Cell::new(start));
                    memory(c);
                    let o = order_of(Watched { stream: st, pos: p2.clone() }, r);
                    memory_off();
                    match o {
                        Ok(o) => {
                            let want: Vec<Vec<u64>> = o.iter().map(|i| before[*i as usize].clone()).collect();
                            ensure!(want == after, "not-repeatable", "{} rows shuffled with the same generator state came out as {:?} and as {:?}", r, short(&after), short(&want));
                            ensure!(p2.get() == pos.get(), "not-repeatable", "the generator was left at word {} and at word {}", pos.get(), p2.get());
                        }
                        Err(e) => fail!("panic", "shuffling {} rows failed: {}", r, e),
                    }
                    c.hit("probe.replayed_orders");
                }
            }
            Ok(Err(e)) => fail!("error", "shuffling a {}x{} matrix gave an error: {}", r, k, e),
            Err(Caught::Injected) => c.hit("probe.failed_midway"),
            Err(Caught::Panic(m)) => fail!("panic", "shuffling a {}x{} matrix panicked: {}", r, k, m),
        }
    }
    let e = c.event;
    c.sample = Some(format!("{} transforms of {} by one Shuffler, event hash {:x}", times, T::NAME, e));
    Ok(())
}

fn short(v: &[Vec<u64>]) -> String {
    if v.len() <= 8 { format!("{:?}", v) } else { format!("{:?}.. ({} rows)", &v[..8], v.len()) }
}

enum Which {
    Own(Shuffler<dst::stream::FastRng>),
    Thread,
}

fn shuffled(w: &mut Which, src: &mut Prng, r: usize, k: usize) -> Result<Vec<usize>, dst::Violation> {
    let plan = Plan::new(Stream::plain(src.next()));
    let data: Vec<u32> = (0..r * k).map(|i| (i / k) as u32).collect();
    let m = Matrix::new(r, k, data);
    let op = step(&plan, || match w {
        Which::Own(s) => s.transform(m),
        Which::Thread => Shuffler::default().transform(m),
    });
    match op.res {
        Ok(Ok(m)) if m.rows() == r && m.cols() == k => Ok((0..r).map(|i| m.data()[i * k] as usize).collect()),
        Ok(_) => fail!("error", "shuffling a {}x{} matrix failed", r, k),
        Err(e) => fail!("panic", "shuffling a {}x{} matrix: {}", r, k, caught(&e)),
    }
}

fn uniform(c: &mut Ctx) -> Verdict {
    let seed = c.below(1 << 40);
    let mut src = Prng::new(seed);
    let own = c.chance(2, 3);
    let mut w = if own { Which::Own(Shuffler::new(dst::stream::FastRng(Prng::new(mix2(seed, 9))))) } else { Which::Thread };
    let mul = if c.thorough { 4 } else { 1 };
    let k = c.urange(1, 3);
    c.case(mix2(seed, own as u64));
    c.nontrivial = true;
    c.hit("probe.uniformity_experiments");
    if c.chance(1, 2) {
        let n = c.urange(2, 5);
        let f = fact(n);
        let m = (f * 120).max(1500) * mul;
        // pairs of successive orders for tiny n, single orders otherwise
        let pairs = n <= 3;
        let cells = if pairs { f * f } else { f };
        let mut counts = vec![0u64; cells];
        let mut last = None;
        for _ in 0..m {
            let o = shuffled(&mut w, &mut src, n, k)?;
            ensure!({ let mut s = o.clone(); s.sort(); s == (0..n).collect::<Vec<_>>() }, "rows-broken", "{} rows came out as {:?}", n, o);
            let r = rank(&o);
            if !pairs {
                counts[r] += 1;
            } else if let Some(l) = last.take() {
                let l: usize = l;
                counts[l * f + r] += 1;
            } else {
                last = Some(r);
            }
        }
        let t: u64 = counts.iter().sum();
        let (x2, p, df) = stat::chi2_test(&counts, &vec![t as f64 / cells as f64; cells], 1.0);
        c.add("trials", m as u64);
        c.see(x2.to_bits());
        c.sample = Some(format!("{} rows, {} shuffles over {} cells, p={:.3e}", n, m, cells, p));
        ensure!(p > P, "biased-orders", "orders of {} rows{} are not equally likely (chi2={:.1}, df={}, p={:e}, {} trials)", n, if pairs { " in successive transforms" } else { "" }, x2, df, p, m);
    } else {
        let n = if c.chance(1, 3) { c.urange(40, 300) } else { c.urange(5, 40) };
        let m = (if n > 40 { 400 } else { 40 * n }).max(600) * mul;
        let watch = [0, n / 2, n - 1, src.below(n as u64) as usize];
        let nb = n.min(16);
        let mut counts = vec![vec![0u64; nb]; watch.len()];
        let mut from = vec![vec![0u64; nb]; 2];
        let (mut fixed, mut next) = (0u64, 0u64);
        for _ in 0..m {
            let o = shuffled(&mut w, &mut src, n, k)?;
            for (i, x) in o.iter().enumerate() {
                ensure!(*x < n, "rows-broken", "{} rows came out as {:?}", n, o);
                if let Some(j) = watch.iter().position(|w| w == x) {
                    counts[j][i * nb / n] += 1;
                }
                fixed += (*x == i) as u64;
                next += (i + 1 < n && x + 1 == o[i + 1]) as u64;
            }
            from[0][o[0] * nb / n] += 1;
            from[1][o[n - 1] * nb / n] += 1;
        }
        let width = |b: usize| (0..n).filter(|p| p * nb / n == b).count() as f64;
        let exp: Vec<f64> = (0..nb).map(|b| width(b) * m as f64 / n as f64).collect();
        c.add("trials", m as u64);
        c.see(mix2(fixed, next));
        c.sample = Some(format!("{} rows, {} shuffles: {} fixed, {} neighbours kept", n, m, fixed, next));
        for (j, cs) in counts.iter().enumerate() {
            if watch[..j].contains(&watch[j]) {
                continue;
            }
            let (x2, p, _) = stat::chi2_test(cs, &exp, 1.0);
            ensure!(p > P, "biased-orders", "row {} of {} is not equally likely to land anywhere (chi2={:.1}, p={:e}, {} trials: {:?})", watch[j], n, x2, p, m, cs);
        }
        for (j, cs) in from.iter().enumerate() {
            let (x2, p, _) = stat::chi2_test(cs, &exp, 1.0);
            ensure!(p > P, "biased-orders", "the {} of {} rows is not uniform (chi2={:.1}, p={:e}, {} trials: {:?})", ["first", "last"][j], n, x2, p, m, cs);
        }
        let pois = |k: u64, lam: f64| {
            let k = k as f64;
            (-0.7 * if k > 0.0 { k * (k / lam).ln() - k + lam } else { lam }).exp()
        };
        ensure!(pois(fixed, m as f64) > P, "biased-orders", "{} rows: {} stayed in place in {} shuffles", n, fixed, m);
        ensure!(pois(next, m as f64 * (n - 1) as f64 / n as f64) > P, "biased-orders", "{} rows: {} neighbours kept in {} shuffles", n, next, m);
    }
    Ok(())
}

pub fn shuffler(c: &mut Ctx) -> Verdict {
    if c.chance(1, 60) {
        return uniform(c);
    }
    match c.below(7) {
        0 => rows_t::<u8>(c),
        1 => rows_t::<Wide>(c),
        2 => rows_t::<u64>(c),
        3 => rows_t::<&'static str>(c),
        4 => rows_t::<bool>(c),
        5 => rows_t::<[u8; 3]>(c),
        _ => rows_t::<f64>(c),
    }
}
