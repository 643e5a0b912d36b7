//! Shared by the checks on the whole crate.
use dst::prng::{hash_str, Prng};
use dst::{alloc, Act, Caught, Ctx, Fault, Kind, Plan, Stream};
use rusty_machine::learning::error::Error;
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::sync::atomic::Ordering::SeqCst;

pub const P: f64 = 1e-13;

/// How many columns: a few, now and then many.
pub fn width(c: &mut Ctx, few: usize) -> usize {
    if c.chance(1, 10) {
        c.urange(few + 1, 20)
    } else {
        c.urange(1, few)
    }
}

pub fn rows(m: &Matrix<f64>) -> Vec<Vec<f64>> {
    (0..m.rows()).map(|i| m.data()[i * m.cols()..(i + 1) * m.cols()].to_vec()).collect()
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| canon(*x)).collect()
}

/// NaNs are one value: their sign and payload are not specified.
pub fn canon(x: f64) -> u64 {
    if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() }
}

pub fn err_key(e: &Error) -> (String, String) {
    (format!("{:?}", e.kind()), format!("{}", e))
}

pub fn memory(c: &mut Ctx) {
    let m = c.below(6);
    alloc::PATTERN.store(m, SeqCst);
}
pub fn memory_off() {
    alloc::PATTERN.store(0, SeqCst);
}

/// A stream, now and then a faulty one.
pub fn stream(c: &mut Ctx) -> Stream {
    if c.chance(1, 3) { Stream::gen(c) } else { Stream::gen_plain(c) }
}

/// Maybe a failing draw.
pub fn draw_fault(c: &mut Ctx, plan: &mut Plan, n: u64) {
    if c.chance(1, 5) {
        let at = match c.below(3) {
            0 => c.below(4),
            _ => c.below(n.max(1) + 2),
        };
        plan.faults.push(Fault { kind: Kind::Draw, at, act: Act::Panic });
        c.hit("configured.rng_failure");
    }
}

pub fn note_fired(c: &mut Ctx, plan: &Plan, fired: u64) {
    if fired > 0 {
        for f in &plan.faults {
            match (f.kind, f.act) {
                (Kind::Draw, _) => c.hit("fault.rng_failure"),
                (Kind::La, _) => c.hit("fault.linear_algebra_failure"),
                (Kind::Call, Act::Panic) => c.hit("fault.callback_panic"),
                (Kind::Call, Act::Err) => c.hit("fault.callback_error"),
                (Kind::Call, Act::Nan) => c.hit("fault.callback_nan"),
                (Kind::Call, Act::Inf) => c.hit("fault.callback_infinity"),
            }
        }
    }
}

pub fn caught(c: &Caught) -> String {
    match c {
        Caught::Injected => "injected failure".into(),
        Caught::Panic(m) => format!("panic: {}", m),
    }
}
pub fn caught_key(c: &Caught) -> u64 {
    match c {
        Caught::Injected => 1,
        Caught::Panic(m) => hash_str(m),
    }
}

pub fn normal_matrix(b: &mut Prng, n: usize, d: usize, scale: f64) -> Matrix<f64> {
    Matrix::new(n, d, (0..n * d).map(|_| b.normal() * scale).collect::<Vec<_>>())
}

pub fn brief(v: &[f64]) -> String {
    if v.len() <= 12 { format!("{:?}", v) } else { format!("{:?}.. ({})", &v[..12], v.len()) }
}

/// All orderings and their rank.
pub fn rank(p: &[usize]) -> usize {
    let mut r = 0;
    for i in 0..p.len() {
        let less = p[i + 1..].iter().filter(|x| **x < p[i]).count();
        r = r * (p.len() - i) + less;
    }
    r
}
pub fn fact(n: usize) -> usize {
    (1..=n).product()
}
