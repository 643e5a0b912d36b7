//! Element types of different size, alignment and validity.
use dst::prng::mix;

pub trait Elem: Copy + Send + 'static {
    const NAME: &'static str;
    /// How many different values there are to tell elements apart.
    const KINDS: u64;
    fn make(i: u64) -> Self;
    fn key(&self) -> u64;
}

macro_rules! int_elem {
    ($($t:ty, $k:expr);*) => { $( impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        const KINDS: u64 = $k;
        fn make(i: u64) -> Self { i as $t }
        fn key(&self) -> u64 { *self as u64 }
    } )* };
}
int_elem!(u8, 256; u16, 65536; i32, 1 << 31; u64, u64::MAX; usize, u64::MAX; u128, u64::MAX);

impl Elem for bool {
    const NAME: &'static str = "bool";
    const KINDS: u64 = 2;
    fn make(i: u64) -> Self {
        i % 2 == 1
    }
    fn key(&self) -> u64 {
        // read as a byte: an element taken from uninitialised memory need not be 0 or 1
        unsafe { *(self as *const bool as *const u8) as u64 }
    }
}
impl Elem for f64 {
    const NAME: &'static str = "f64";
    const KINDS: u64 = 1 << 50;
    fn make(i: u64) -> Self {
        // includes NaNs with payloads, infinities, both zeros
        match i {
            0 => 0.0,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            i if i % 7 == 4 => f64::from_bits(0x7ff8_0000_0000_0000 | i),
            i => i as f64 * 0.5,
        }
    }
    fn key(&self) -> u64 {
        self.to_bits()
    }
}
impl Elem for () {
    const NAME: &'static str = "()";
    const KINDS: u64 = 1;
    fn make(_: u64) -> Self {}
    fn key(&self) -> u64 {
        0
    }
}
impl Elem for [u8; 3] {
    const NAME: &'static str = "[u8;3]";
    const KINDS: u64 = 1 << 24;
    fn make(i: u64) -> Self {
        [i as u8, (i >> 8) as u8, (i >> 16) as u8]
    }
    fn key(&self) -> u64 {
        self[0] as u64 | (self[1] as u64) << 8 | (self[2] as u64) << 16
    }
}
/// A large element whose parts must stay together.
#[derive(Clone, Copy)]
pub struct Wide([u64; 5]);
impl Elem for Wide {
    const NAME: &'static str = "Wide(40 bytes)";
    const KINDS: u64 = u64::MAX;
    fn make(i: u64) -> Self {
        Wide([i, mix(i), mix(i + 1), mix(i + 2), !i])
    }
    fn key(&self) -> u64 {
        let i = self.0[0];
        if self.0 == Wide::make(i).0 {
            i
        } else {
            mix(self.0.iter().fold(7, |a, b| mix(a ^ b))) | 1 << 63
        }
    }
}
static TEXT: [&str; 8] = ["", "a", "b", "ab", "ba", "aa", "abc", "é"];
impl Elem for &'static str {
    const NAME: &'static str = "&str";
    const KINDS: u64 = 8;
    fn make(i: u64) -> Self {
        TEXT[(i % 8) as usize]
    }
    fn key(&self) -> u64 {
        // by identity: the bytes of a wrong reference must not be followed
        TEXT.iter().position(|t| t.as_ptr() == self.as_ptr() && t.len() == self.len()).unwrap_or(99) as u64
    }
}
