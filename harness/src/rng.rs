//! SplitMix64 and generators of operands.  A datum is (hi, lo).
pub type B = (u128, u128);

pub const P: u32 = 237;
pub const BIAS: i64 = 262143;
pub const EMAXB: i64 = 524286; // largest finite biased exponent
const FRHI: u128 = (1 << 108) - 1;

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

pub fn mk(sign: bool, biased: i64, frac: B) -> B {
    debug_assert!((0..=EMAXB + 1).contains(&biased));
    (((sign as u128) << 127) | ((biased as u128) << 108) | (frac.0 & FRHI), frac.1)
}
pub fn neg(x: B) -> B {
    (x.0 ^ (1 << 127), x.1)
}
pub fn abs(x: B) -> B {
    (x.0 & !(1 << 127), x.1)
}
pub fn biased(x: B) -> i64 {
    ((x.0 >> 108) & 0x7ffff) as i64
}
pub fn sign(x: B) -> bool {
    x.0 >> 127 == 1
}
pub fn shl(x: B, k: u32) -> B {
    match k {
        0 => x,
        1..=127 => ((x.0 << k) | (x.1 >> (128 - k)), x.1 << k),
        128 => (x.1, 0),
        129..=255 => (x.1 << (k - 128), 0),
        _ => (0, 0),
    }
}
pub fn shr(x: B, k: u32) -> B {
    match k {
        0 => x,
        1..=127 => (x.0 >> k, (x.1 >> k) | (x.0 << (128 - k))),
        128 => (0, x.0),
        129..=255 => (0, x.0 >> (k - 128)),
        _ => (0, 0),
    }
}
pub fn addb(x: B, d: i64) -> B {
    if d >= 0 {
        let (lo, c) = x.1.overflowing_add(d as u128);
        (x.0.wrapping_add(c as u128), lo)
    } else {
        let (lo, c) = x.1.overflowing_sub(-d as u128);
        (x.0.wrapping_sub(c as u128), lo)
    }
}
/// neighbour of x (by encoding of the absolute value), staying finite/inf
pub fn step(x: B, d: i64) -> B {
    let a = abs(x);
    if d < 0 && a.0 == 0 && a.1 < (-d) as u128 {
        return x;
    }
    let b = addb(a, d);
    if biased(b) > EMAXB || b.0 >> 127 == 1 {
        return x;
    }
    (b.0 | (x.0 & (1 << 127)), b.1)
}
fn or(x: B, y: B) -> B {
    (x.0 | y.0, x.1 | y.1)
}
fn not(x: B) -> B {
    (!x.0, !x.1)
}
fn ones(n: u32) -> B {
    if n == 0 { (0, 0) } else { shr((u128::MAX, u128::MAX), 256 - n) }
}

impl Rng {
    /// a 236-bit fraction with some structure
    pub fn frac(&mut self) -> B {
        let f = match self.below(20) {
            0 => (0, 0),
            1 => ones(236),
            2 => (0, 1),
            3 => (self.u128(), 0),
            4 => (0, self.u128()),
            5 => shl((0, 1), self.below(236) as u32),
            6 => or(shl((0, 1), self.below(236) as u32), shl((0, 1), self.below(236) as u32)),
            7 => not(shl((0, 1), self.below(236) as u32)),
            8 => {
                // run of ones
                let a = self.below(236) as u32;
                shl(ones(self.below(237 - a as u64) as u32), a)
            }
            9 => not({
                let a = self.below(236) as u32;
                shl(ones(self.below(237 - a as u64) as u32), a)
            }),
            10 => shl((self.u128(), self.u128()), self.below(236) as u32),
            11 => {
                // few leading bits
                let n = self.range(1, 64) as u32;
                shl((0, (self.next() >> (64 - n.min(64))) as u128), 236 - n)
            }
            12 => {
                let n = self.range(1, 128) as u32;
                (0, self.u128() >> (128 - n.min(127)))
            }
            13 => {
                // around a word or half-word boundary
                let p = self.pick(&[64u32, 107, 108, 109, 118, 119, 120, 127, 128, 129, 192, 235]);
                let d = self.range(-2, 2);
                addb(shl((0, 1), p), d)
            }
            _ => (self.u128(), self.u128()),
        };
        (f.0 & FRHI, f.1)
    }
    /// a biased exponent
    pub fn bexp(&mut self) -> i64 {
        match self.below(16) {
            0 => 0,
            1 => self.range(1, 4),
            2 => self.range(1, 500),
            3 => EMAXB - self.range(0, 3),
            4 => EMAXB - self.range(0, 500),
            5 => self.range(0, EMAXB),
            6 => BIAS,
            7 => BIAS + self.range(-2, 2),
            8 => BIAS + self.range(-240, 240),
            9 => BIAS + self.pick(&[-257, -256, -255, -238, -237, -236, -235, 107, 108, 127, 128, 235, 236, 237, 238]),
            10 => BIAS / 2 + self.range(-300, 300),
            11 => BIAS + BIAS / 2 + self.range(-300, 300),
            _ => BIAS + self.range(-80, 80),
        }
    }
    pub fn special(&mut self) -> B {
        let s = self.chance(1, 2);
        let one = mk(false, BIAS, (0, 0));
        let x = match self.below(15) {
            0 | 1 => (0, 0),
            2 | 3 => mk(false, EMAXB + 1, (0, 0)),
            4 => mk(false, EMAXB + 1, (1 << 107, 0)),
            5 => (0, 1),
            6 => mk(false, 0, ones(236)),
            7 => mk(false, 1, (0, 0)),
            8 => mk(false, EMAXB, ones(236)),
            9 => one,
            10 => step(one, 1),
            11 => step(one, -1),
            12 => mk(false, BIAS + 1, (0, 0)),
            13 => mk(false, BIAS - 1, (0, 0)),
            _ => {
                // another NaN
                let f = self.frac();
                if f == (0, 0) { mk(false, EMAXB + 1, (0, 1)) } else { mk(false, EMAXB + 1, f) }
            }
        };
        if s { neg(x) } else { x }
    }
    /// finite, non-zero unless by chance
    pub fn finite(&mut self) -> B {
        let e = self.bexp();
        let mut f = self.frac();
        if e == 0 && self.chance(1, 2) {
            f = shr(f, self.below(236) as u32);
        }
        mk(self.chance(1, 2), e, f)
    }
    pub fn any(&mut self) -> B {
        if self.chance(1, 16) { self.special() } else { self.finite() }
    }
    /// an exponent that stays in range, near e
    pub fn near_exp(&mut self, e: i64) -> i64 {
        let d = match self.below(8) {
            0 => 0,
            1 => 1,
            2 => self.range(0, 4),
            3 => self.pick(&[107, 108, 109, 117, 118, 119, 126, 127, 128, 129, 130]),
            4 => self.range(230, 245),
            5 => self.pick(&[255, 256, 257, 384, 473, 474, 475, 511, 512]),
            6 => self.range(0, 240),
            _ => self.range(0, 600),
        };
        let d = if self.chance(1, 2) { d } else { -d };
        (e + d).clamp(0, EMAXB)
    }
    /// an operand related to x
    pub fn related(&mut self, x: B) -> B {
        if biased(x) > EMAXB || self.chance(1, 10) {
            return self.any();
        }
        let y = match self.below(8) {
            0 => x,
            1 => step(x, self.range(-3, 3)),
            2 => {
                // same significand, other exponent
                (mk(false, self.near_exp(biased(x)), (x.0 & FRHI, x.1)).0, x.1)
            }
            3 => {
                let e = self.near_exp(biased(x));
                mk(false, e, (0, 0))
            }
            _ => {
                let e = self.near_exp(biased(x));
                let f = self.frac();
                mk(false, e, f)
            }
        };
        match self.below(4) {
            0 => neg(y),
            1 => if sign(x) { neg(abs(y)) } else { abs(y) },
            2 => if sign(x) { abs(y) } else { neg(abs(y)) },
            _ => y,
        }
    }
    /// |value| in about 2^lo .. 2^hi
    pub fn in_exp_range(&mut self, lo: i64, hi: i64) -> B {
        let e = BIAS + self.range(lo, hi);
        let f = self.frac();
        mk(self.chance(1, 2), e.clamp(0, EMAXB), f)
    }
}
