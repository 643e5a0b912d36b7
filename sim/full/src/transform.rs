//! C21: histories of scalers: fits, batches, rejected batches, inverses.
use crate::util::{caught, memory, memory_off, note_fired, stream};
use dst::prng::{hash_str, mix2, Prng};
use dst::sched::{call_point, outside};
use dst::{ensure, fail, step, Act, Caught, Ctx, Fault, Kind, Plan, Verdict};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Which {
    MinMax(f64, f64),
    Standard(f64, f64),
    /// 1, 2, 3, infinity norms, and one of the user's
    Norm(u8),
}

fn size_of_row(w: Which, row: &[f64], top: f64) -> f64 {
    match w {
        Which::Norm(1) => top * row.iter().map(|v| (v / top).powi(2)).sum::<f64>().sqrt(),
        Which::Norm(2) => top * row.iter().map(|v| (v / top).abs().powi(3)).sum::<f64>().powf(1.0 / 3.0),
        Which::Norm(3) => top,
        _ => row.iter().map(|v| v.abs()).sum::<f64>(),
    }
}

macro_rules! scalers {
    ($m:ident, $t:ty, $eps:expr) => {
        mod $m {
            use super::*;
            use rusty_machine::data::transforms::minmax::{MinMaxFitter, MinMaxScaler};
            use rusty_machine::data::transforms::normalize::Normalizer;
            use rusty_machine::data::transforms::standardize::{Standardizer, StandardizerFitter};
            use rusty_machine::data::transforms::{Invertible, TransformFitter, Transformer};
            use rusty_machine::learning::LearningResult;
            use rusty_machine::linalg::norm::{Euclidean, Lp, MatrixNorm};
            use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice};

            const EPS: f64 = $eps;

            /// Sum of absolute values, and may fail.
            struct Mine;
            impl<'a> MatrixNorm<$t, MatrixSlice<'a, $t>> for Mine {
                fn norm(&self, m: &MatrixSlice<'a, $t>) -> $t {
                    match call_point() {
                        Some(Act::Nan) | Some(Act::Err) => <$t>::NAN,
                        Some(Act::Inf) => <$t>::INFINITY,
                        _ => outside(|| {
                            let mut s = 0.0;
                            for i in 0..m.rows() {
                                for j in 0..m.cols() {
                                    s += m[[i, j]].abs();
                                }
                            }
                            s
                        }),
                    }
                }
            }

            enum Tr {
                M(MinMaxScaler<$t>),
                S(Standardizer<$t>),
                E(Normalizer<$t, Euclidean>),
                L(Normalizer<$t, Lp<$t>>),
                U(Normalizer<$t, Mine>),
            }
            impl Tr {
                fn transform(&mut self, x: Matrix<$t>) -> LearningResult<Matrix<$t>> {
                    match self {
                        Tr::M(t) => t.transform(x),
                        Tr::S(t) => t.transform(x),
                        Tr::E(t) => t.transform(x),
                        Tr::L(t) => t.transform(x),
                        Tr::U(t) => t.transform(x),
                    }
                }
                fn inverse(&self, x: Matrix<$t>) -> Option<LearningResult<Matrix<$t>>> {
                    match self {
                        Tr::M(t) => Some(t.inv_transform(x)),
                        Tr::S(t) => Some(t.inv_transform(x)),
                        _ => None,
                    }
                }
            }

            fn fit(w: Which, x: &Matrix<$t>) -> LearningResult<Tr> {
                match w {
                    Which::MinMax(a, b) => {
                        let f = if (a, b) == (0.0, 1.0) { MinMaxFitter::default() } else { MinMaxFitter::new(a as $t, b as $t) };
                        f.fit(x).map(Tr::M)
                    }
                    Which::Standard(a, b) => {
                        let f = if (a, b) == (0.0, 1.0) { StandardizerFitter::default() } else { StandardizerFitter::new(a as $t, b as $t) };
                        f.fit(x).map(Tr::S)
                    }
                    Which::Norm(0) => Ok(Tr::L(Normalizer::new(Lp::Integer(1)))),
                    Which::Norm(1) => Ok(Tr::E(Normalizer::default())),
                    Which::Norm(2) => Ok(Tr::L(Normalizer::new(Lp::Integer(3)))),
                    Which::Norm(3) => Ok(Tr::L(Normalizer::new(Lp::Infinity))),
                    Which::Norm(_) => Ok(Tr::U(Normalizer::new(Mine))),
                }
            }

            fn bits(m: &Matrix<$t>) -> Vec<u64> {
                m.data().iter().map(|v| if v.is_nan() { 1 << 60 } else { v.to_bits() as u64 }).collect()
            }
            fn get(m: &Matrix<$t>, i: usize, j: usize) -> f64 {
                m.data()[i * m.cols() + j] as f64
            }

            struct Col {
                mean: f64,
                sd: f64,
                min: f64,
                max: f64,
                size: f64,
            }
            fn cols(x: &Matrix<$t>) -> Vec<Col> {
                let n = x.rows();
                (0..x.cols())
                    .map(|j| {
                        let v: Vec<f64> = (0..n).map(|i| get(x, i, j)).collect();
                        let mean = v.iter().sum::<f64>() / n as f64;
                        let var = v.iter().map(|a| (a - mean).powi(2)).sum::<f64>() / (n as f64 - 1.0);
                        Col {
                            mean,
                            sd: var.sqrt(),
                            min: v.iter().cloned().fold(f64::INFINITY, f64::min),
                            max: v.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
                            size: v.iter().fold(0.0, |a, b| a.max(b.abs())),
                        }
                    })
                    .collect()
            }

            fn batch(b: &mut Prng, n: usize, d: usize, style: &str) -> Matrix<$t> {
                let v: Vec<$t> = (0..n * d)
                    .map(|i| {
                        let j = i % d.max(1);
                        (match style {
                            "offset" => 1e3 * (j + 1) as f64 + b.normal(),
                            "tiny" => 1e-8 * b.normal(),
                            "big" => 1e9 * b.normal(),
                            "mixed" => b.normal() * [1e-6, 1.0, 1e6][j % 3],
                            "whole" => b.below(9) as f64 - 4.0,
                            _ => b.normal(),
                        }) as $t
                    })
                    .collect();
                Matrix::new(n, d, v)
            }

            type Res = Result<LearningResult<Matrix<$t>>, Caught>;

            pub fn history(c: &mut Ctx) -> Verdict {
                let w = match c.below(5) {
                    0 => Which::MinMax(0.0, 1.0),
                    1 => *c.pick(&[Which::MinMax(-1.0, 1.0), Which::MinMax(5.0, 105.0), Which::MinMax(1.0, -1.0)]),
                    2 => Which::Standard(0.0, 1.0),
                    3 => *c.pick(&[Which::Standard(10.0, 2.0), Which::Standard(-1.0, 0.1)]),
                    _ => Which::Norm(c.below(5) as u8),
                };
                let style = *c.pick(&["normal", "offset", "tiny", "big", "mixed", "whole"]);
                let d = crate::util::width(c, 5);
                let n = if c.chance(1, 5) { c.urange(10, 40) } else { c.urange(2, 9) };
                let mut b = c.bulk();
                let x = batch(&mut b, n, d, style);
                let st = stream(c);
                c.case(mix2(hash_str(&format!("{:?} {}", w, style)), mix2((n * 8 + d) as u64, x.data()[0].to_bits() as u64)));
                c.note(|| format!("{:?} of {} fitted to {}x{} data ({}) {:?}", w, stringify!($t), n, d, style, if n * d < 30 { x.data().clone() } else { vec![] }));
                let is_norm = matches!(w, Which::Norm(_));
                // ---- data that cannot be fitted
                if !is_norm && c.chance(1, 3) {
                    let how = *c.pick(&["no rows", "one row", "a constant column", "not finite", "too wide a range"]);
                    let j = c.urange(0, d - 1);
                    let mut y = x.clone();
                    match how {
                        "no rows" => y = Matrix::new(0, d, vec![]),
                        "one row" => y = Matrix::new(1, d, x.data()[..d].to_vec()),
                        "a constant column" => {
                            for i in 0..n {
                                y[[i, j]] = 3.0;
                            }
                        }
                        "not finite" => y[[c.urange(0, n - 1), j]] = *c.pick(&[<$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY]),
                        _ => {
                            y[[0, j]] = <$t>::MAX;
                            y[[1, j]] = -<$t>::MAX;
                        }
                    }
                    memory(c);
                    let op = step(&Plan::new(st), || fit(w, &y));
                    memory_off();
                    match op.res {
                        Ok(Err(_)) => c.hit("probe.fits_rejected"),
                        Ok(Ok(_)) => fail!("accepted", "{:?} ({}) was fitted to data with {} (column {})", w, stringify!($t), how, j),
                        Err(e) => fail!("panic", "fitting {:?} ({}) to data with {}: {}", w, stringify!($t), how, caught(&e)),
                    }
                }
                memory(c);
                let op = step(&Plan::new(st), || fit(w, &x));
                memory_off();
                let cs = cols(&x);
                let constant = cs.iter().any(|q| q.max - q.min <= 1e-300 || q.sd <= 1e-300);
                let mut t = match op.res {
                    Ok(Ok(t)) => t,
                    Ok(Err(_)) if constant && !is_norm => {
                        c.hit("probe.fits_rejected");
                        return Ok(());
                    }
                    Ok(Err(e)) => fail!("refused", "{:?} ({}) cannot be fitted to {}x{} data ({}): {}", w, stringify!($t), n, d, style, e),
                    Err(e) => fail!("panic", "fitting {:?} ({}): {}", w, stringify!($t), caught(&e)),
                };
                // ---- a history of batches
                let mut batches = vec![x.clone()];
                for _ in 0..c.urange(1, 3) {
                    let r = if c.chance(1, 6) { c.urange(7, 40) } else { c.urange(1, 6) };
                    let mut y = batch(&mut b, r, d, style);
                    match c.below(6) {
                        // rows that are almost, but not quite, scaled already
                        0 if is_norm => {
                            for i in 0..r {
                                let near = (1.0 + [0.0, 1.0, -1.0][b.below(3) as usize] * 10f64.powi(-(b.below(if EPS < 1e-10 { 14 } else { 6 }) as i32))) as $t;
                                let row: Vec<f64> = (0..d).map(|j| get(&y, i, j)).collect();
                                let top = row.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                                let norm = size_of_row(w, &row, top);
                                if norm > 0.0 {
                                    for j in 0..d {
                                        y[[i, j]] = (row[j] / norm) as $t * near;
                                    }
                                }
                            }
                            c.hit("probe.rows_almost_scaled");
                        }
                        // rows made of the training data's own values, alone or repeated
                        1 => {
                            let same = b.below(n as u64) as usize;
                            for i in 0..r {
                                for j in 0..d {
                                    let k = if b.below(3) == 0 { same } else { b.below(n as u64) as usize };
                                    y[[i, j]] = x[[k, j]];
                                }
                            }
                        }
                        // around the ends of the training data's columns, and beyond
                        2 if !is_norm => {
                            let cs = cols(&x);
                            for i in 0..r {
                                for j in 0..d {
                                    let q = &cs[j];
                                    let v = if b.below(2) == 0 { q.min } else { q.max };
                                    let f = [0.0, 1e-7, -1e-7, 0.5, -0.5, 3.0, -3.0][b.below(7) as usize];
                                    y[[i, j]] = (v + f * (q.max - q.min)) as $t;
                                }
                            }
                            c.hit("probe.rows_at_the_ends");
                        }
                        _ => {}
                    }
                    batches.push(y);
                }
                if is_norm && c.chance(1, 3) {
                    let k = c.urange(0, batches.len() - 1);
                    for j in 0..d {
                        batches[k][[0, j]] = 0.0;
                    }
                }
                let mut fwd: Vec<Option<Matrix<$t>>> = batches.iter().map(|_| None).collect();
                let mut back: Vec<Option<Vec<u64>>> = batches.iter().map(|_| None).collect();
                let steps = c.urange(3, 9);
                let mut rejected = 0;
                for s in 0..steps {
                    let what = || format!("step {} of a history of {:?} ({}) fitted to {}x{} data ({})", s, w, stringify!($t), n, d, style);
                    let k = c.urange(0, batches.len() - 1);
                    memory(c);
                    match c.below(6) {
                        0 if !is_norm => {
                            // wrong width, either way
                            let y = batch(&mut b, 2, if c.chance(1, 2) && d > 1 { d - 1 } else { d + 1 }, style);
                            let inv = c.chance(1, 2);
                            let op = step(&Plan::new(st), || if inv { t.inverse(y.clone()).unwrap_or_else(|| Ok(y.clone())) } else { t.transform(y.clone()) });
                            match op.res {
                                Ok(Err(_)) => rejected += 1,
                                Ok(Ok(m)) => fail!("accepted", "{}: a batch with {} columns was not rejected but gave {:?}", what(), y.cols(), m),
                                Err(e) => fail!("panic", "{}: a batch with {} columns: {}", what(), y.cols(), caught(&e)),
                            }
                        }
                        1 => {
                            // values that are not finite
                            let mut y = batches[k].clone();
                            let (i, j) = (c.urange(0, y.rows() - 1), c.urange(0, d - 1));
                            // the infinity norm does not see a NaN
                            y[[i, j]] = if w == Which::Norm(3) { <$t>::INFINITY } else { *c.pick(&[<$t>::NAN, <$t>::INFINITY]) };
                            let op = step(&Plan::new(st), || t.transform(y.clone()));
                            match op.res {
                                Ok(Err(_)) => rejected += 1,
                                Ok(Ok(m)) if is_norm => fail!("accepted", "{}: a row with {} was not rejected but gave {:?}", what(), y[[i, j]], m),
                                Ok(Ok(m)) => ensure!(!m[[i, j]].is_finite(), "invented", "{}: {} became {}", what(), y[[i, j]], m[[i, j]]),
                                Err(e) => fail!("panic", "{}: {}", what(), caught(&e)),
                            }
                        }
                        2 if w == Which::Norm(4) => {
                            // the user's norm fails
                            let act = *c.pick(&[Act::Panic, Act::Nan, Act::Inf]);
                            let plan = Plan::new(st).with(Fault { kind: Kind::Call, at: c.below(batches[k].rows() as u64), act });
                            let y = batches[k].clone();
                            let op = step(&plan, || t.transform(y));
                            note_fired(c, &plan, op.fired);
                            match op.res {
                                Ok(Err(_)) | Err(Caught::Injected) => rejected += 1,
                                Ok(Ok(m)) => ensure!(op.fired == 0, "accepted", "{}: the norm failed ({:?}) but the batch gave {:?}", what(), act, m),
                                Err(e) => fail!("panic", "{}: {}", what(), caught(&e)),
                            }
                        }
                        3 if fwd[k].is_some() && !is_norm => {
                            let y = fwd[k].clone().unwrap_or_else(|| batches[k].clone());
                            let op: Res = step(&Plan::new(st), || t.inverse(y.clone()).unwrap_or_else(|| Ok(y.clone()))).res;
                            let r = match op {
                                Ok(Ok(r)) => r,
                                Ok(Err(e)) => fail!("refused", "{}: inv_transform of a transformed batch: {}", what(), e),
                                Err(e) => fail!("panic", "{}: inv_transform of a transformed batch: {}", what(), caught(&e)),
                            };
                            let x = &batches[k];
                            ensure!((r.rows(), r.cols()) == (x.rows(), d), "shape", "{}: inv_transform gave {}x{}", what(), r.rows(), r.cols());
                            for i in 0..x.rows() {
                                for j in 0..d {
                                    let (a, g, q) = (get(x, i, j), get(&r, i, j), &cs[j]);
                                    let unit = match w {
                                        Which::MinMax(lo, hi) => lo.abs().max(hi.abs()) * (q.max - q.min) / (hi - lo).abs() + q.size,
                                        Which::Standard(m, sd) => m.abs() * q.sd / sd + q.size,
                                        _ => 0.0,
                                    };
                                    ensure!((a - g).abs() <= 20.0 * EPS * (a.abs() + unit), "not-inverse", "{}: inv_transform(transform({})) = {} in row {}, column {}", what(), a, g, i, j);
                                }
                            }
                            match &back[k] {
                                Some(o) => ensure!(*o == bits(&r), "changed", "{}: inv_transform of the same batch gave something else before", what()),
                                None => back[k] = Some(bits(&r)),
                            }
                            c.hit("probe.inverses");
                        }
                        _ => {
                            let y = batches[k].clone();
                            let op: Res = step(&Plan::new(st), || t.transform(y)).res;
                            let r = match op {
                                Ok(Ok(r)) => r,
                                Ok(Err(e)) => fail!("refused", "{}: transform: {}", what(), e),
                                Err(e) => fail!("panic", "{}: transform: {}", what(), caught(&e)),
                            };
                            let x = &batches[k];
                            ensure!((r.rows(), r.cols()) == (x.rows(), d), "shape", "{}: transform gave {}x{}", what(), r.rows(), r.cols());
                            for i in 0..x.rows() {
                                let row: Vec<f64> = (0..d).map(|j| get(x, i, j)).collect();
                                let top = row.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                                let norm = size_of_row(w, &row, top);
                                for j in 0..d {
                                    let (a, g, q) = (row[j], get(&r, i, j), &cs[j]);
                                    c.see_f(g);
                                    let (want, tol) = match w {
                                        Which::MinMax(lo, hi) => {
                                            let s = (hi - lo) / (q.max - q.min);
                                            (lo + (a - q.min) * s, 20.0 * EPS * ((a * s).abs() + (q.size * s).abs() + lo.abs() + hi.abs()))
                                        }
                                        Which::Standard(m, sd) => {
                                            // the mean itself is known up to this
                                            let slip = 2.0 * n as f64 * EPS * q.size / q.sd;
                                            if slip > 1e-3 {
                                                continue;
                                            }
                                            let z = (a - q.mean) / q.sd;
                                            (m + z * sd, sd * (4.0 * slip + 20.0 * n as f64 * EPS * z.abs() + z.abs() * slip) + 20.0 * EPS * m.abs())
                                        }
                                        _ if norm == 0.0 || top == 0.0 => (0.0, 0.0),
                                        _ => (a / norm, 50.0 * EPS),
                                    };
                                    ensure!((g - want).abs() <= tol, "wrong-value", "{}: transform took {} to {} in row {}, column {}; {} expected", what(), a, g, i, j, want);
                                }
                            }
                            match &fwd[k] {
                                Some(o) => ensure!(bits(o) == bits(&r), "changed", "{}: transform of the same batch gave something else before", what()),
                                None => fwd[k] = Some(r),
                            }
                            c.hit("probe.transforms");
                        }
                    }
                    memory_off();
                }
                c.add("probe.rejected_batches", rejected);
                c.nontrivial = rejected > 0;
                c.sample = Some(format!("{:?} of {}, {}x{} data ({}), {} steps", w, stringify!($t), n, d, style, steps));
                Ok(())
            }
        }
    };
}
scalers!(double, f64, 2.3e-16);
scalers!(single, f32, 1.2e-7);

pub fn scalers(c: &mut Ctx) -> Verdict {
    if c.chance(1, 3) { single::history(c) } else { double::history(c) }
}
