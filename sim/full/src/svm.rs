//! C33: training of a support vector machine is Pegasos, on any stream.
//!
//! The kernel is ours: while training it records which rows it is asked about
//! (which tells the row each step drew) and answers from a table; afterwards
//! it answers with whatever vector makes predict tell the learned weights.
use crate::util::{caught, draw_fault, memory, memory_off, note_fired, stream, P};
use dst::prng::{hash_str, mix2, Prng};
use dst::sched::{call_point, outside};
use dst::{ensure, fail, stat, step, Caught, Ctx, Kind, Plan, SimRng, Stream, Verdict};
use rand::Rng;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::{self, Kernel};
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};
use std::cell::RefCell;
use std::rc::Rc;

/// What the kernel is made of.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Table {
    /// any symmetric values
    Values,
    /// mostly small whole numbers: sums reach one exactly
    Whole,
    /// one on the diagonal only
    Identity,
    Gauss,
    Linear,
    Tanh,
}

#[derive(Default)]
struct State {
    /// rows in training, with their bias
    rows: Vec<Vec<f64>>,
    table: Vec<f64>,
    calls: Vec<(u32, u32)>,
    /// a question: what the kernel of question q and row j is
    ask: Option<Vec<Vec<f64>>>,
    broken: Option<String>,
}
const QUESTION: f64 = 1e6;

#[derive(Clone)]
struct Spy(Rc<RefCell<State>>);
impl Kernel for Spy {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        call_point();
        outside(|| {
            let mut s = self.0.borrow_mut();
            let n = s.rows.len();
            let find = |s: &State, r: &[f64]| -> Option<usize> {
                // rows are told apart by their last entry
                let i = *r.last()? as usize;
                if i < n && s.rows[i] == r { Some(i) } else { None }
            };
            if let Some(q) = &s.ask {
                let (x, j) = match (find(&s, a), find(&s, b)) {
                    (Some(j), None) => (b, j),
                    (None, Some(j)) => (a, j),
                    _ => {
                        s.broken = Some(format!("predict asked the kernel about {:?} and {:?}, which are not a question and a row of the training data", a, b));
                        return 0.0;
                    }
                };
                let k = (x.last().cloned().unwrap_or(0.0) - QUESTION) as usize;
                if x.len() != s.rows[j].len() || x[0] != 1.0 || k >= q.len() {
                    s.broken = Some(format!("predict asked the kernel about {:?}, which is no question with its bias", x));
                    return 0.0;
                }
                return q[k][j];
            }
            match (find(&s, a), find(&s, b)) {
                (Some(i), Some(j)) => {
                    s.calls.push((i as u32, j as u32));
                    s.table[i * n + j]
                }
                _ => {
                    s.broken = Some(format!("training asked the kernel about {:?} and {:?}, which are not rows of the data with their bias", a, b));
                    0.0
                }
            }
        })
    }
}

struct Set {
    x: Matrix<f64>,
    y: Vec<f64>,
    rows: Vec<Vec<f64>>,
    table: Vec<f64>,
}

fn gen_set(b: &mut Prng, n: usize, d: usize, t: Table) -> Set {
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut r = vec![1.0];
            r.extend((1..d).map(|_| b.normal()));
            r.push(i as f64);
            r
        })
        .collect();
    let x = Matrix::new(n, d, rows.iter().flat_map(|r| r[1..].to_vec()).collect::<Vec<_>>());
    let one_sided = b.below(8) == 0;
    let y = (0..n).map(|_| if one_sided || b.below(2) == 0 { 1.0 } else { -1.0 }).collect();
    let mut table = vec![0.0; n * n];
    let scale = [1.0, 0.05, 20.0][b.below(3) as usize];
    for i in 0..n {
        for j in 0..=i {
            let v = match t {
                Table::Values => scale * b.normal() + if i == j { scale } else { 0.0 },
                Table::Whole => b.below(4) as f64 - 1.0 + if i == j { 2.0 } else { 0.0 },
                Table::Identity => (i == j) as u64 as f64,
                Table::Gauss => kernel::SquaredExp::new(1.0 + scale, 1.0).kernel(&rows[i], &rows[j]),
                Table::Linear => kernel::Linear::new(0.5).kernel(&rows[i], &rows[j]),
                Table::Tanh => kernel::HyperTan::new(0.3, 0.1).kernel(&rows[i], &rows[j]),
            };
            table[i * n + j] = v;
            table[j * n + i] = v;
        }
    }
    Set { x, y, rows, table }
}

/// The rows drawn, as the kernel saw them: every step asks about its row and
/// all the others. None if the calls are made in another manner.
fn drawn(calls: &[(u32, u32)], n: usize, iters: usize) -> Option<Vec<usize>> {
    if n < 2 || calls.len() != n * iters {
        return None;
    }
    calls
        .chunks(n)
        .map(|b| {
            let f = b.iter().all(|c| c.0 == b[0].0);
            let g = b.iter().all(|c| c.1 == b[0].1);
            match (f, g) {
                (true, false) => Some(b[0].0 as usize),
                (false, true) => Some(b[0].1 as usize),
                _ => None,
            }
        })
        .collect()
}

pub fn pegasos(c: &mut Ctx) -> Verdict {
    if c.chance(1, 400) {
        return law(c);
    }
    if c.chance(1, 400) {
        return again(c);
    }
    let t = *c.pick(&[Table::Values, Table::Values, Table::Whole, Table::Identity, Table::Gauss, Table::Linear, Table::Tanh]);
    let lambda = if t == Table::Whole { *c.pick(&[0.5, 1.0, 0.25, 2.0]) } else { *c.pick(&[0.3, 0.01, 1.0, 5.0, 0.37]) };
    let state = Rc::new(RefCell::new(State::default()));
    let mut m = SVM::new(Spy(state.clone()), lambda);
    let rounds = c.urange(1, 3);
    for round in 0..rounds {
        // many rows, now and then: the weights of a sample of them are read
        let wide = round == 0 && c.chance(1, 120);
        let n = match c.below(6) {
            _ if wide => c.urange(100, if c.thorough { 1500 } else { 600 }),
            0 => c.urange(1, 3),
            5 => c.urange(12, if c.thorough { 60 } else { 30 }),
            _ => c.urange(2, 12),
        };
        let d = crate::util::width(c, 4);
        let mut b = c.bulk();
        let set = gen_set(&mut b, n, d, t);
        let iters = match c.below(6) {
            _ if wide => c.urange(n / 2, 3 * n),
            0 => 1,
            1 => c.urange(2, 5),
            2 if round == 0 => 100,
            5 => c.urange(100, if c.thorough { 1500 } else { 400 }),
            _ => c.urange(5, 60),
        };
        if !(round == 0 && iters == 100) {
            m.optim_iters = iters;
        }
        let st = stream(c);
        let mut plan = Plan::new(st);
        draw_fault(c, &mut plan, iters as u64);
        let what = format!("round {}: {:?} kernel, lambda {}, {} steps on {}x{} data, {:?} {:?}", round, t, lambda, iters, n, d, plan.stream, plan.faults);
        c.note(|| what.clone());
        c.case(mix2(hash_str(&what), set.table[0].to_bits()));
        *state.borrow_mut() = State { rows: set.rows.clone(), table: set.table.clone(), ..Default::default() };
        let y = Vector::new(set.y.clone());
        memory(c);
        let op = step(&plan, || m.train(&set.x, &y));
        memory_off();
        note_fired(c, &plan, op.fired);
        let calls = std::mem::take(&mut state.borrow_mut().calls);
        if let Some(e) = state.borrow_mut().broken.take() {
            fail!("wrong-rows", "{}: {}", what, e);
        }
        match op.res {
            Ok(Ok(())) => ensure!(op.fired == 0, "failure-lost", "{}: the generator failed but training reports success", what),
            Ok(Err(e)) => {
                ensure!(op.fired > 0, "refused", "{}: training failed: {}", what, e);
                continue;
            }
            Err(Caught::Injected) => continue,
            Err(e) => fail!("panic", "{}: {}", what, caught(&e)),
        }
        // ---- the rows drawn
        let rows = match drawn(&calls, n, iters) {
            Some(r) => {
                c.hit("probe.draws_seen_by_kernel");
                r
            }
            None => {
                let mut r = SimRng::new(st);
                dst::catch(|| (0..iters).map(|_| r.gen_range(0, n)).collect::<Vec<usize>>()).unwrap_or_default()
            }
        };
        ensure!(rows.len() == iters, "step-count", "{}: {} steps taken", what, rows.len());
        for r in &rows {
            c.see(*r as u64);
        }
        // ---- the weights they give
        let mut alpha = vec![0u64; n];
        let mut doubtful = false;
        for (k, &i) in rows.iter().enumerate() {
            let (mut s, mut size) = (0.0, 0.0);
            for j in 0..n {
                let v = alpha[j] as f64 * set.y[j] * set.table[i * n + j];
                s += v;
                size += v.abs();
            }
            let w = lambda * (k + 1) as f64;
            let margin = s * set.y[i] / w;
            let exact = t == Table::Whole && w.log2().fract() == 0.0;
            if !exact && (margin - 1.0).abs() <= 1e-10 * (1.0 + size / w) {
                doubtful = true;
                break;
            }
            if margin == 1.0 {
                c.hit("probe.margin_of_exactly_one");
            }
            if margin < 1.0 {
                alpha[i] += 1;
            } else {
                c.hit("probe.rows_outside_margin");
            }
        }
        if doubtful {
            c.hit("probe.margins_too_close_to_tell");
            continue;
        }
        // ---- what predict says about them
        let top = (0..n).max_by_key(|j| alpha[*j]).unwrap();
        let mut q: Vec<Vec<f64>> = Vec::new();
        let mut want: Vec<f64> = Vec::new();
        if wide {
            c.hit("probe.many_rows");
        }
        let first = b.below(n as u64) as usize;
        for j in (0..n).map(|k| (first + k) % n).take(if wide { 80 } else { n }) {
            for s in [1.0, -1.0] {
                let mut u = vec![0.0; n];
                let a = alpha[top] as f64;
                if j == top {
                    u[j] = s * set.y[j];
                    q.push(u);
                    want.push(s);
                } else if alpha[j] == 0 {
                    u[j] = s * set.y[j] * 1e6;
                    u[top] = -s * set.y[top];
                    q.push(u);
                    want.push(-s);
                } else {
                    for slip in [1e-9, -1e-9] {
                        let mut u = vec![0.0; n];
                        u[j] = s * set.y[j] / alpha[j] as f64 * (1.0 + slip);
                        u[top] = -s * set.y[top] / a;
                        q.push(u);
                        want.push(if slip > 0.0 { s } else { -s });
                    }
                }
            }
        }
        for _ in 0..c.below(6) {
            let u: Vec<f64> = (0..n).map(|_| b.normal()).collect();
            let s: f64 = (0..n).map(|j| alpha[j] as f64 * set.y[j] * u[j]).sum();
            if s.abs() > 1e-6 {
                q.push(u);
                want.push(s.signum());
            }
        }
        let m_rows = q.len();
        let px = Matrix::new(m_rows, d, (0..m_rows).flat_map(|k| (0..d).map(move |j| if j + 1 == d { QUESTION + k as f64 } else { 0.5 * j as f64 })).collect::<Vec<_>>());
        let asked = q.clone();
        state.borrow_mut().ask = Some(q);
        memory(c);
        let op = step(&Plan::new(Stream::plain(5)), || m.predict(&px));
        memory_off();
        let broken = state.borrow_mut().broken.take();
        if let Some(e) = broken {
            fail!("wrong-rows", "{}: {}", what, e);
        }
        let p = match op.res {
            Ok(Ok(p)) => p.into_vec(),
            Ok(Err(e)) => fail!("refused", "{}: predict failed: {}", what, e),
            Err(e) => fail!("panic", "{}: predict: {}", what, caught(&e)),
        };
        ensure!(p.len() == m_rows, "answer-count", "{}: {} answers to {} questions", what, p.len(), m_rows);
        for k in 0..m_rows {
            ensure!(p[k] == want[k], "wrong-weights", "{}: the rows drawn were {:?}, so that they count {:?} times (targets {:?}); asked about a row whose kernel with them is {:?} predict says {}, not {}", what,
                &rows[..rows.len().min(60)], alpha, set.y, asked[k], p[k], want[k]);
        }
        c.add("probe.weights_compared", n as u64);
        c.nontrivial |= n > 1 && iters > 1;
        c.sample = Some(format!("{}; weights {:?}", what, alpha));
    }
    Ok(())
}

/// Every step draws every row equally often, whatever it drew before.
fn law(c: &mut Ctx) -> Verdict {
    let n = if c.chance(1, 3) { c.urange(13, 200) } else { c.urange(2, 12) };
    let iters = (if c.thorough { 60000 } else { 20000 } / n).max(400).max(8 * n);
    let t = *c.pick(&[Table::Values, Table::Identity, Table::Gauss]);
    let mut b = c.bulk();
    let set = gen_set(&mut b, n, 2, t);
    let st = Stream::gen_plain(c);
    let state = Rc::new(RefCell::new(State { rows: set.rows.clone(), table: set.table.clone(), ..Default::default() }));
    let mut m = SVM::new(Spy(state.clone()), 0.3);
    m.optim_iters = iters;
    let y = Vector::new(set.y.clone());
    let op = step(&Plan::new(st), || m.train(&set.x, &y));
    c.case(mix2(hash_str("law"), mix2(n as u64, st.seed)));
    ensure!(matches!(op.res, Ok(Ok(()))), "refused", "training for {} steps on {} rows failed", iters, n);
    ensure!(op.points[Kind::Draw as usize] > 0, "no-draws", "training for {} steps on {} rows drew nothing", iters, n);
    let calls = std::mem::take(&mut state.borrow_mut().calls);
    let rows = match drawn(&calls, n, iters) {
        Some(r) => r,
        None => return Ok(()),
    };
    c.hit("probe.laws_of_draws");
    let mut one = vec![0u64; n];
    let mut two = vec![0u64; n * n];
    let mut far = vec![0u64; n * n];
    for k in 0..iters {
        one[rows[k]] += 1;
        if k > 0 {
            two[rows[k - 1] * n + rows[k]] += 1;
        }
        if k >= n {
            far[rows[k - n] * n + rows[k]] += 1;
        }
    }
    let blocks = n.min(8);
    let mut near = vec![0u64; blocks];
    let mut size = vec![0.0; blocks];
    for i in 0..n {
        near[i * blocks / n] += one[i];
        size[i * blocks / n] += iters as f64 / n as f64;
    }
    let (s, p, df) = stat::chi2_test(&near, &size, 5.0);
    ensure!(p > P, "law", "blocks of rows drawn over {} steps of training on {} rows: {:?}, chi2 {:.1} on {} ({:e})", iters, n, near, s, df, p);
    if n > 12 {
        // pairs of successive blocks
        let mut pairs = vec![0u64; blocks * blocks];
        let mut e = vec![0.0; blocks * blocks];
        for k in 1..iters {
            pairs[(rows[k - 1] * blocks / n) * blocks + rows[k] * blocks / n] += 1;
        }
        for i in 0..blocks * blocks {
            e[i] = size[i / blocks] * size[i % blocks] / (iters * iters) as f64 * (iters - 1) as f64;
        }
        let (s, p, df) = stat::chi2_test(&pairs, &e, 5.0);
        ensure!(p > P, "law", "successive blocks of rows drawn over {} steps of training on {} rows: {:?}, chi2 {:.1} on {} ({:e})", iters, n, pairs, s, df, p);
        // how many different rows n steps draw
        let f = n as f64;
        let (q1, q2) = ((1.0 - 1.0 / f).powf(f), (1.0 - 2.0 / f).powf(f));
        let (mean, var) = (f * (1.0 - q1), f * q1 + f * (f - 1.0) * q2 - f * f * q1 * q1);
        let mut all = 0.0;
        let windows = iters / n;
        for w in 0..windows {
            let mut seen = vec![false; n];
            rows[w * n..(w + 1) * n].iter().for_each(|r| seen[*r] = true);
            all += seen.iter().filter(|s| **s).count() as f64;
        }
        let z = (all - mean * windows as f64) / (var * windows as f64).sqrt();
        c.hit("probe.laws_of_many_rows");
        ensure!(z.abs() < 9.0, "law", "{} steps of training on {} rows draw {:.1} different rows in every {}, where {:.1} are expected ({:.1} standard errors)", iters, n, all / windows as f64, n, mean, z);
        c.nontrivial = true;
        return Ok(());
    }
    for (name, o) in [("rows drawn", &one), ("pairs of successive rows", &two), ("pairs of rows a pass apart", &far)] {
        let all: u64 = o.iter().sum();
        let e = vec![all as f64 / o.len() as f64; o.len()];
        let (s, p, df) = stat::chi2_test(o, &e, 5.0);
        ensure!(p > P, "law", "{} over {} steps of training on {} rows: {:?}, chi2 {:.1} on {} ({:e})", name, iters, n, o, s, df, p);
    }
    c.nontrivial = true;
    c.sample = Some(format!("law of {} draws over {} rows", iters, n));
    Ok(())
}

/// The same training over and over: no step has a row of its own.
fn again(c: &mut Ctx) -> Verdict {
    let n = if c.chance(1, 3) { c.urange(2, 12) } else { c.urange(13, 140) };
    // with the number of steps it comes with, too
    let iters = if c.chance(1, 3) { c.urange(1, 99) } else if c.chance(1, 2) { 100 } else { c.urange(101, 300) };
    let times = if c.thorough { 120 } else { 60 };
    let mut b = c.bulk();
    let set = gen_set(&mut b, n, 2, Table::Values);
    let seed = c.below(1 << 40);
    c.case(mix2(hash_str("again"), mix2(n as u64, seed)));
    let state = Rc::new(RefCell::new(State { rows: set.rows.clone(), table: set.table.clone(), ..Default::default() }));
    let mut m = SVM::new(Spy(state.clone()), 0.3);
    if iters != 100 {
        m.optim_iters = iters;
    }
    let y = Vector::new(set.y.clone());
    let mut at = vec![0u32; iters * n];
    for t in 0..times {
        let op = step(&Plan::new(Stream::plain(mix2(seed, t))), || m.train(&set.x, &y));
        ensure!(matches!(op.res, Ok(Ok(()))), "refused", "training for {} steps on {} rows failed", iters, n);
        let calls = std::mem::take(&mut state.borrow_mut().calls);
        match drawn(&calls, n, iters) {
            Some(r) => r.iter().enumerate().for_each(|(k, r)| at[k * n + r] += 1),
            None => return Ok(()),
        }
    }
    c.hit("probe.trained_again_and_again");
    // the chance that some step meets some row more than this often
    let (f, m) = (1.0 / n as f64, times as usize);
    let mut term = f.powi(m as i32);
    let mut tail = term;
    let mut most = m;
    // tail: of `most` times or more
    while most > 0 && tail * (n * iters) as f64 <= 1e-12 {
        // from P(most) to P(most - 1)
        term *= most as f64 / (m - most + 1) as f64 * (1.0 - f) / f;
        most -= 1;
        tail += term;
    }
    for k in 0..iters {
        for r in 0..n {
            ensure!(at[k * n + r] as usize <= most, "law", "{} times out of {}, step {} of training on {} rows drew row {}", at[k * n + r], times, k, n, r);
        }
    }
    // and all steps alike meet all rows
    c.nontrivial = true;
    c.sample = Some(format!("{} steps on {} rows, {} times", iters, n, times));
    Ok(())
}
