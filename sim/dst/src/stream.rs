//! The words a random generator yields in a simulated run.
use crate::ctx::Ctx;
use crate::prng::{mix, mix2, Prng};
use crate::sched;

/// How the words deviate from independent uniform ones, for a finite while.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// Independent uniform words.
    Plain,
    /// Each of the first `len` words is an extreme value with chance p/16.
    Extreme { p: u64, len: u64 },
    /// Words from `start` on are stuck at one value for `len` words.
    Stuck { start: u64, len: u64, value: u64 },
    /// The first `len` words only take a few values.
    FewValues { len: u64, values: u64 },
    /// The first `len` words repeat with a short period.
    Periodic { len: u64, period: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stream {
    pub seed: u64,
    pub mode: Mode,
}

pub const EXTREMES: [u64; 16] = [
    0,
    u64::MAX,
    1,
    u64::MAX - 1,
    1 << 63,
    (1 << 63) - 1,
    u32::MAX as u64,
    1 << 32,
    0xFFFF_FFFF_0000_0000,
    0x7FF,
    0xFFFF_FFFF_FFFF_F800,
    0x8000_0000,
    0x5555_5555_5555_5555,
    0xAAAA_AAAA_AAAA_AAAA,
    255,
    2,
];

impl Stream {
    pub fn plain(seed: u64) -> Stream {
        Stream { seed, mode: Mode::Plain }
    }

    /// Draw a stream description from the tape.
    pub fn gen(c: &mut Ctx) -> Stream {
        let mode = match c.below(10) {
            0..=4 => Mode::Plain,
            5 | 6 => Mode::Extreme { p: c.range(1, 12), len: c.range(1, 200) },
            7 => Mode::Stuck {
                start: c.below(12),
                len: c.range(1, 40),
                value: EXTREMES[c.below(16) as usize],
            },
            8 => Mode::FewValues { len: c.range(1, 100), values: c.range(1, 4) },
            _ => Mode::Periodic { len: c.range(1, 100), period: c.range(1, 5) },
        };
        let seed = c.below(1 << 32);
        match mode {
            Mode::Plain => c.hit("stream.plain"),
            Mode::Extreme { .. } => c.hit("stream.extreme_words"),
            Mode::Stuck { .. } => c.hit("stream.stuck_words"),
            Mode::FewValues { .. } => c.hit("stream.few_values"),
            Mode::Periodic { .. } => c.hit("stream.periodic"),
        }
        Stream { seed, mode }
    }

    pub fn gen_plain(c: &mut Ctx) -> Stream {
        Stream::plain(c.below(1 << 40))
    }

    #[inline]
    pub fn word(&self, k: u64) -> u64 {
        let w = mix(mix(self.seed ^ 0x51_7c_c1).wrapping_add(k.wrapping_mul(0x9E3779B97F4A7C15)));
        match self.mode {
            Mode::Plain => w,
            Mode::Extreme { p, len } => {
                let h = mix2(self.seed ^ 0xE, k);
                if k < len && h % 16 < p {
                    EXTREMES[(h >> 32) as usize % 16]
                } else {
                    w
                }
            }
            Mode::Stuck { start, len, value } => {
                if k >= start && k - start < len {
                    value
                } else {
                    w
                }
            }
            Mode::FewValues { len, values } => {
                if k < len {
                    mix2(self.seed ^ 0xF, w % values)
                } else {
                    w
                }
            }
            Mode::Periodic { len, period } => {
                if k < len {
                    mix2(self.seed ^ 0xA, k % period)
                } else {
                    w
                }
            }
        }
    }
}

/// A generator handed to the code under test by a simulated caller.
#[derive(Clone, Debug)]
pub struct SimRng {
    pub stream: Stream,
    pub pos: u64,
}

impl SimRng {
    pub fn new(stream: Stream) -> SimRng {
        SimRng { stream, pos: 0 }
    }
}

impl rand::Rng for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        sched::draw_point();
        let w = self.stream.word(self.pos);
        self.pos += 1;
        w
    }
}

/// A seedable caller generator: a fast plain stream without scheduling
/// points, for statistical experiments.
#[derive(Clone, Debug)]
pub struct FastRng(pub Prng);

impl rand::Rng for FastRng {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
}
