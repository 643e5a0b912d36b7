//! The tape every choice of a run comes from, and what the run reports.
use crate::prng::{mix2, Prng};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Verdict = Result<(), Violation>;

pub struct Ctx {
    pub tape: Vec<u64>,
    pub pos: usize,
    gen: Option<Prng>,
    /// How long the recorded tape may grow.
    pub thorough: bool,
    pub verbose: bool,
    pub counts: BTreeMap<&'static str, u64>,
    /// Hash of everything observed in the run, in order.
    pub event: u64,
    /// Signature of the case, for counting distinct ones.
    pub sig: u64,
    pub nontrivial: bool,
    pub inter: Vec<u64>,
    pub sample: Option<String>,
    pub known: Vec<String>,
}

impl Ctx {
    pub fn from_seed(seed: u64, thorough: bool) -> Ctx {
        Ctx::make(Vec::new(), Some(Prng::new(seed)), thorough)
    }
    pub fn from_tape(tape: Vec<u64>, thorough: bool) -> Ctx {
        Ctx::make(tape, None, thorough)
    }
    fn make(tape: Vec<u64>, gen: Option<Prng>, thorough: bool) -> Ctx {
        Ctx {
            tape,
            pos: 0,
            gen,
            thorough,
            verbose: false,
            counts: BTreeMap::new(),
            event: 0,
            sig: 0,
            nontrivial: false,
            inter: Vec::new(),
            sample: None,
            known: Vec::new(),
        }
    }

    /// A choice in 0..n; 0 is the simplest. An exhausted tape yields 0.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if let Some(g) = self.gen.as_mut() {
            let v = g.below(n);
            self.tape.push(v);
            v
        } else if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            if n == 0 { 0 } else { v % n }
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with chance num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// A generator for bulk data, one tape entry.
    pub fn bulk(&mut self) -> Prng {
        let s = self.below(1 << 32);
        Prng::new(s ^ 0xB01C)
    }

    pub fn hit(&mut self, name: &'static str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    /// Fold an observation into the event hash (and thus the determinism check).
    #[inline]
    pub fn see(&mut self, x: u64) {
        self.event = mix2(self.event, x);
    }
    pub fn see_f(&mut self, x: f64) {
        self.see(if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() })
    }
    pub fn case(&mut self, x: u64) {
        self.sig = mix2(self.sig, x);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            // at once: the run may not come back
            println!("LOG {}", f().replace('\n', "\\n"));
        }
    }
}
