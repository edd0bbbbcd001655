/// splitmix64-seeded xoshiro256**.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut x = seed.wrapping_mul(0xD1342543DE82EF95) ^ stream.wrapping_mul(0xA0761D6478BD642F) ^ 0x1234_5678;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        (lo as i128 + self.below((hi as i128 - lo as i128 + 1) as u64) as i128) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability num/den
    /// true with probability `x`
    pub fn p(&mut self, x: f64) -> bool {
        self.f01() < x
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.idx(i + 1);
            xs.swap(i, j);
        }
    }
    /// A size biased to small values and to the neighbourhood of `edge`.
    pub fn size_near(&mut self, edge: usize, max: usize) -> usize {
        match self.below(4) {
            0 => self.idx(4.min(max + 1)),
            1 | 2 => {
                let d = self.range(-2, 2);
                ((edge as i64 + d).max(0) as usize).min(max)
            }
            _ => self.idx(max + 1),
        }
    }
    /// i64 with boundary bias
    pub fn i64_edge(&mut self) -> i64 {
        match self.below(6) {
            0 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1]),
            1 => self.range(-10, 10),
            2 => 1i64 << self.below(63),
            3 => -(1i64 << self.below(63)),
            _ => self.u64() as i64,
        }
    }
    /// any f64, with boundary bias (may be non-finite when `nonfinite`)
    pub fn f64_edge(&mut self, nonfinite: bool) -> f64 {
        loop {
            let v = match self.below(7) {
                0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 5e-324, -5e-324, 0.1, 0.5, 2.0, 1e300, f64::EPSILON]),
                1 => self.range(-100, 100) as f64,
                2 => self.range(-1000, 1000) as f64 / 8.0,
                3 => self.f01() * 100.0,
                4 => *self.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                _ => f64::from_bits(self.u64()),
            };
            if nonfinite || v.is_finite() {
                return v;
            }
        }
    }
    /// text over an alphabet mixing ASCII, separators, controls and multi-byte characters
    pub fn text(&mut self, maxlen: usize) -> String {
        let n = self.idx(maxlen + 1);
        let mode = self.below(4);
        (0..n)
            .map(|_| match mode {
                0 => (b'a' + self.below(26) as u8) as char,
                1 => (0x20 + self.below(0x5f) as u8) as char,
                2 => *self.pick(&['%', ',', ';', '=', ' ', '"', '\\', '/', '-', '_', '.', '*', '@', '\t', '\n', '\u{0}', '\u{7f}', '+', '{', '}', ':', '&', '?', '#', '2', 'C', 'a', 'é', '中', '𝄞', '\u{80}', '\u{a0}', '\u{2028}']),
                _ => {
                    if self.chance(1, 4) {
                        char::from_u32(self.below(0x11_0000) as u32).unwrap_or('\u{fffd}')
                    } else {
                        (0x20 + self.below(0x5f) as u8) as char
                    }
                }
            })
            .collect()
    }
    pub fn ident(&mut self, maxlen: usize) -> String {
        let n = 1 + self.idx(maxlen);
        (0..n)
            .map(|i| {
                if i == 0 {
                    (b'a' + self.below(26) as u8) as char
                } else {
                    *self.pick(&['a', 'b', 'c', 'x', 'y', 'z', '0', '1', '9', '_', '.', '-'])
                }
            })
            .collect()
    }
}
