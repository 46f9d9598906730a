//! Runs one call of the public API of f256 and records it as an event.
use crate::fmt_table;
use crate::rng::B;
use core::cmp::Ordering;
use core::num::FpCategory;
use core::str::FromStr;
use ::f256::{consts, f256};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Default)]
pub struct Scn {
    pub op: String,
    pub a: Vec<B>,
    /// integers, as optional '-' and lower-case hex digits
    pub n: Vec<String>,
    pub s: Vec<u8>,
}

pub fn hex(x: B) -> String {
    format!("{:032x}{:032x}", x.0, x.1)
}
pub fn ih(v: i128) -> String {
    if v < 0 { format!("-{:x}", v.unsigned_abs()) } else { format!("{:x}", v) }
}
pub fn ihp(s: &str) -> i128 {
    match s.strip_prefix('-') {
        Some(t) => (u128::from_str_radix(t, 16).unwrap() as i128).wrapping_neg(),
        None => u128::from_str_radix(s, 16).unwrap() as i128,
    }
}
pub fn to(x: B) -> f256 {
    f256::from_bits(x)
}
fn h(x: f256) -> String {
    hex(x.to_bits())
}
fn bh(b: bool) -> String {
    (if b { "1" } else { "0" }).to_string()
}
fn bytes(b: &[u8; 32]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn ord(o: Option<Ordering>) -> String {
    match o {
        None => "N",
        Some(Ordering::Less) => "-1",
        Some(Ordering::Equal) => "0",
        Some(Ordering::Greater) => "1",
    }
    .to_string()
}
fn parsed<E: std::fmt::Display>(r: Result<f256, E>) -> String {
    match r {
        Ok(f) => h(f),
        Err(e) => {
            let e = e.to_string();
            if e.contains("empty") { "ERR:empty".into() } else { "ERR:invalid".into() }
        }
    }
}

macro_rules! forms {
    ($x:ident, $y:ident, $op:tt, $asg:tt) => {{
        let mut t = $x;
        t $asg $y;
        let mut u = $x;
        u $asg &$y;
        vec![h($x $op $y), h(&$x $op $y), h($x $op &$y), h(&$x $op &$y), h(t), h(u)]
    }};
}

pub const CONSTS: [(&str, f256); 32] = [
    ("PI", consts::PI),
    ("TAU", consts::TAU),
    ("FRAC_3_PI_2", consts::FRAC_3_PI_2),
    ("FRAC_PI_2", consts::FRAC_PI_2),
    ("FRAC_PI_3", consts::FRAC_PI_3),
    ("FRAC_PI_4", consts::FRAC_PI_4),
    ("FRAC_PI_6", consts::FRAC_PI_6),
    ("FRAC_PI_8", consts::FRAC_PI_8),
    ("FRAC_1_PI", consts::FRAC_1_PI),
    ("FRAC_2_PI", consts::FRAC_2_PI),
    ("SQRT_PI", consts::SQRT_PI),
    ("FRAC_2_SQRT_PI", consts::FRAC_2_SQRT_PI),
    ("SQRT_2", consts::SQRT_2),
    ("FRAC_1_SQRT_2", consts::FRAC_1_SQRT_2),
    ("SQRT_5", consts::SQRT_5),
    ("PHI", consts::PHI),
    ("GAMMA", consts::GAMMA),
    ("E", consts::E),
    ("EPSILON", f256::EPSILON),
    ("MAX", f256::MAX),
    ("MIN", f256::MIN),
    ("MIN_POSITIVE", f256::MIN_POSITIVE),
    ("MIN_GT_ZERO", f256::MIN_GT_ZERO),
    ("NAN", f256::NAN),
    ("INFINITY", f256::INFINITY),
    ("NEG_INFINITY", f256::NEG_INFINITY),
    ("ZERO", f256::ZERO),
    ("NEG_ZERO", f256::NEG_ZERO),
    ("ONE", f256::ONE),
    ("NEG_ONE", f256::NEG_ONE),
    ("TWO", f256::TWO),
    ("TEN", f256::TEN),
];

/// results, text output
fn call(c: &Scn) -> (Vec<String>, Vec<u32>) {
    let x = c.a.first().map(|b| to(*b)).unwrap_or(f256::ZERO);
    let y = c.a.get(1).map(|b| to(*b)).unwrap_or(f256::ZERO);
    let z = c.a.get(2).map(|b| to(*b)).unwrap_or(f256::ZERO);
    let n = |i: usize| ihp(&c.n[i]);
    let mut o: Vec<u32> = vec![];
    let r: Vec<String> = match c.op.as_str() {
        "add" => forms!(x, y, +, +=),
        "sub" => forms!(x, y, -, -=),
        "mul" => forms!(x, y, *, *=),
        "div" => forms!(x, y, /, /=),
        "rem" => forms!(x, y, %, %=),
        "fma" => vec![h(x.mul_add(y, z))],
        "sqadd" => vec![h(x.square_add(y))],
        "square" => vec![h(x.square())],
        "sos" => vec![h(x.sum_of_squares(y))],
        "sqrt" => vec![h(x.sqrt())],
        "recip" => vec![h(x.recip())],
        "deg" => vec![h(x.to_degrees())],
        "rad" => vec![h(x.to_radians())],
        "mul2" => vec![h(x.mul2())],
        "div2" => vec![h(x.div2())],
        "mulp2" => vec![h(x.mul_pow2(n(0) as u32))],
        "divp2" => vec![h(x.div_pow2(n(0) as u32))],
        "integral" => {
            let (i, f) = x.split();
            vec![h(x.trunc()), h(x.floor()), h(x.ceil()), h(x.round()), h(x.round_tie_even()), h(x.fract()), h(i), h(f)]
        }
        "neg" => vec![h(-x), h(-&x)],
        "abs" => vec![h(x.abs())],
        "cmp" => vec![
            bh(x == y),
            bh(x != y),
            bh(x < y),
            bh(x <= y),
            bh(x > y),
            bh(x >= y),
            ord(x.partial_cmp(&y)),
        ],
        "tcmp" => vec![ord(Some(x.total_cmp(&y)))],
        "minmax" => vec![h(x.min(y)), h(x.max(y))],
        "clamp" => vec![h(x.clamp(y, z))],
        "class" => vec![
            bh(x.is_nan()),
            bh(x.is_infinite()),
            bh(x.is_finite()),
            bh(x.is_subnormal()),
            bh(x.is_normal()),
            bh(x.is_sign_positive()),
            bh(x.is_sign_negative()),
            bh(x.eq_zero()),
            bh(x.is_special()),
            match x.classify() {
                FpCategory::Nan => "Nan",
                FpCategory::Infinite => "Infinite",
                FpCategory::Zero => "Zero",
                FpCategory::Subnormal => "Subnormal",
                FpCategory::Normal => "Normal",
            }
            .to_string(),
        ],
        "ulp" => vec![h(x.ulp())],
        "parts" => {
            let (s, t, c) = x.as_sign_exp_signif();
            vec![ih(s as i128), ih(t as i128), hex(c), h(f256::from_sign_exp_signif(s, t, c))]
        }
        "build" => vec![h(f256::from_sign_exp_signif(n(0) as u32, n(1) as i32, c.a[0]))],
        "bytes" => {
            let mut raw = [0u8; 32];
            raw[..16].copy_from_slice(&c.a[0].0.to_be_bytes());
            raw[16..].copy_from_slice(&c.a[0].1.to_be_bytes());
            vec![
                hex(x.to_bits()),
                bytes(&x.to_be_bytes()),
                bytes(&x.to_le_bytes()),
                h(f256::from_be_bytes(raw)),
                h({
                    raw.reverse();
                    f256::from_le_bytes(raw)
                }),
                h(f256::from_be_bytes(x.to_be_bytes())),
                h(f256::from_le_bytes(x.to_le_bytes())),
                h(f256::from_ne_bytes(x.to_ne_bytes())),
            ]
        }
        "fromint" => {
            let v = n(1);
            vec![h(match n(0) {
                8 => f256::from(v as u8),
                16 => f256::from(v as u16),
                32 => f256::from(v as u32),
                64 => f256::from(v as u64),
                128 => f256::from(v as u128),
                -8 => f256::from(v as i8),
                -16 => f256::from(v as i16),
                -32 => f256::from(v as i32),
                -64 => f256::from(v as i64),
                -128 => f256::from(v),
                _ => unreachable!(),
            })]
        }
        "fromf32" => vec![h(f256::from(f32::from_bits(n(0) as u32)))],
        "fromf64" => vec![h(f256::from(f64::from_bits(n(0) as u64)))],
        "parse" => {
            let s = std::str::from_utf8(&c.s).unwrap();
            vec![
                parsed(f256::from_str(s)),
                parsed(f256::try_from(s)),
                parsed(s.parse::<f256>()),
                parsed(<f256 as num_traits::Num>::from_str_radix(s, 10)),
            ]
        }
        "exact" => {
            let lit = exact_literal(c.a[0], n(0) == 1, n(1) as i32, n(2) as u32, n(3) as usize);
            vec![parsed(lit.parse::<f256>())]
        }
        "radix" => {
            let s = std::str::from_utf8(&c.s).unwrap();
            vec![if <f256 as num_traits::Num>::from_str_radix(s, n(0) as u32).is_err() { "ERR".into() } else { "OK".into() }]
        }
        "fmt" => {
            let w = if n(5) < 0 { None } else { Some(n(5) as usize) };
            let p = if n(6) < 0 { None } else { Some(n(6) as usize) };
            let t = fmt_table::fmt(&x, n(0) as u8, n(1) as u8, n(2) as u8, n(3) == 1, n(4) == 1, w, p);
            o = t.chars().map(|c| c as u32).collect();
            vec![]
        }
        "short" | "round" => {
            let t = match n(0) {
                0 => x.to_string(),
                1 => format!("{:e}", x),
                _ => format!("{:E}", x),
            };
            o = t.chars().map(|c| c as u32).collect();
            vec![if c.op == "round" { parsed(t.parse::<f256>()) } else { String::new() }]
        }
        "debug" => {
            o = format!("{:?}", x).chars().map(|c| c as u32).collect();
            vec![]
        }
        "ln1p" => vec![h(x.ln_1p())],
        "logb" => vec![h(x.log(y))],
        "ln" => vec![h(x.ln())],
        "log2" => vec![h(x.log2())],
        "log10" => vec![h(x.log10())],
        "sin" => vec![h(x.sin())],
        "cos" => vec![h(x.cos())],
        "tan" => vec![h(x.tan())],
        "sincos" => {
            let (s, c) = x.sin_cos();
            vec![h(s), h(c)]
        }
        "asin" => vec![h(x.asin())],
        "acos" => vec![h(x.acos())],
        "atan" => vec![h(x.atan())],
        "atan2" => vec![h(x.atan2(&y))],
        "const" => {
            let name = std::str::from_utf8(&c.s).unwrap();
            vec![h(CONSTS.iter().find(|c| c.0 == name).unwrap().1)]
        }
        "params" => [
            f256::RADIX as i128,
            f256::MANTISSA_DIGITS as i128,
            f256::SIGNIFICANT_DIGITS as i128,
            f256::DIGITS as i128,
            f256::MAX_EXP as i128,
            f256::MIN_EXP as i128,
            f256::MAX_10_EXP as i128,
            f256::MIN_10_EXP as i128,
        ]
        .iter()
        .map(|v| ih(*v))
        .collect(),
        "ntrait" => {
            use num_traits::{One, Zero};
            vec![
                h(<f256 as Zero>::zero()),
                h(<f256 as One>::one()),
                bh(Zero::is_zero(&x)),
                bh(One::is_one(&x)),
                h(f256::default()),
                h({
                    let mut t = x;
                    Zero::set_zero(&mut t);
                    t
                }),
                h({
                    let mut t = x;
                    One::set_one(&mut t);
                    t
                }),
            ]
        }
        other => panic!("unknown op {other}"),
    };
    (r, o)
}

fn strs(v: &[String]) -> String {
    let q: Vec<String> = v.iter().map(|s| format!("\"{}\"", s)).collect();
    format!("[{}]", q.join(","))
}
fn nums<T: ToString>(v: &[T]) -> String {
    let q: Vec<String> = v.iter().map(|s| s.to_string()).collect();
    format!("[{}]", q.join(","))
}
pub fn event(c: &Scn, r: &[String], o: &[u32]) -> String {
    let a: Vec<String> = c.a.iter().map(|x| hex(*x)).collect();
    format!(
        "{{\"op\":\"{}\",\"a\":{},\"n\":{},\"s\":{},\"r\":{},\"o\":{}}}",
        c.op,
        strs(&a),
        strs(&c.n),
        nums(&c.s),
        strs(r),
        nums(o)
    )
}
/// The complete decimal expansion of x, or (half) of the middle between x and its successor away from zero, spelled in
/// one of four ways; t = 1 / -1: a little more / less than that, by a digit behind `zeros` more places.
fn exact_literal(x: B, half: bool, t: i32, style: u32, zeros: usize) -> String {
    const BASE: u64 = 1_000_000_000;
    let (hi, lo) = (x.0 & ((1 << 127) - 1), x.1);
    let be = (hi >> 108) as i64;
    let frac = hi & ((1 << 108) - 1);
    let m = if be == 0 { frac } else { frac | 1 << 108 };
    // v = 2m + half, times 2^q
    let mut q = -262378 + if be == 0 { 0 } else { be - 1 } - 1;
    let mut limbs: Vec<u64> = Vec::new(); // little endian, base 10^9
    for b in (0..32).rev() {
        let d = if b >= 16 { (m >> (8 * (b - 16))) & 255 } else { (lo >> (8 * b)) & 255 };
        mul_add(&mut limbs, 256, d as u64, BASE);
    }
    mul_add(&mut limbs, 2, half as u64, BASE);
    let mut e = 0i64; // value = limbs * 10^e
    let even = |l: &Vec<u64>| l.is_empty() || l[0] % 2 == 0;
    while q < 0 && !limbs.is_empty() && even(&limbs) && q % 2 != 0 {
        halve(&mut limbs, BASE);
        q += 1;
    }
    while q < 0 {
        let k = q.unsigned_abs().min(12) as u32;
        mul_add(&mut limbs, 5u64.pow(k), 0, BASE);
        e -= k as i64;
        q += k as i64;
    }
    while q > 0 {
        let k = q.min(29) as u32;
        mul_add(&mut limbs, 1 << k, 0, BASE);
        q -= k as i64;
    }
    let mut d = String::new();
    for (i, l) in limbs.iter().rev().enumerate() {
        d += &if i == 0 { l.to_string() } else { format!("{:09}", l) };
    }
    if d.is_empty() {
        d.push('0');
    }
    if t > 0 {
        d += &"0".repeat(zeros);
        d.push('1');
        e -= zeros as i64 + 1;
    } else if t < 0 {
        let mut b = d.into_bytes();
        let mut i = b.len() - 1;
        while b[i] == b'0' {
            b[i] = b'9';
            i -= 1;
        }
        b[i] -= 1;
        d = String::from_utf8(b).unwrap() + &"9".repeat(zeros + 1);
        e -= zeros as i64 + 1;
    }
    let sign = if x.0 >> 127 == 1 { "-" } else { "" };
    let len = d.len() as i64;
    match style {
        0 => format!("{sign}{d}e{e}"),
        1 => format!("{sign}{}.{}E{:+}", &d[..1], &d[1..], e + len - 1),
        2 => format!("{sign}.{d}e{}", e + len),
        // no exponent
        _ if e >= 0 => format!("{sign}{d}{}", "0".repeat(e as usize)),
        _ if -e < len => format!("{sign}{}.{}", &d[..(len + e) as usize], &d[(len + e) as usize..]),
        _ => format!("{sign}0.{}{d}", "0".repeat((-e - len) as usize)),
    }
}
fn mul_add(l: &mut Vec<u64>, f: u64, a: u64, base: u64) {
    let mut c = a;
    for x in l.iter_mut() {
        let t = *x * f + c;
        *x = t % base;
        c = t / base;
    }
    while c > 0 {
        l.push(c % base);
        c /= base;
    }
}
fn halve(l: &mut Vec<u64>, base: u64) {
    let mut c = 0;
    for x in l.iter_mut().rev() {
        let t = *x + c * base;
        *x = t / 2;
        c = t % 2;
    }
    while l.last() == Some(&0) {
        l.pop();
    }
}

pub fn exec(c: &Scn) -> String {
    match catch_unwind(AssertUnwindSafe(|| call(c))) {
        Ok((r, o)) => event(c, &r, &o),
        Err(_) => event(c, &["PANIC".to_string()], &[]),
    }
}

/// op|a,a|n,n|hex of s
pub fn parse_scn(line: &str) -> Option<Scn> {
    let f: Vec<&str> = line.trim().split('|').collect();
    if f.len() != 4 || f[0].is_empty() {
        return None;
    }
    let list = |s: &str| -> Vec<String> { s.split(',').filter(|t| !t.is_empty()).map(|t| t.to_string()).collect() };
    let big = |t: &String| -> B {
        let t = format!("{:0>64}", t);
        (u128::from_str_radix(&t[..32], 16).unwrap(), u128::from_str_radix(&t[32..], 16).unwrap())
    };
    Some(Scn {
        op: f[0].to_string(),
        a: list(f[1]).iter().map(big).collect(),
        n: list(f[2]),
        s: (0..f[3].len() / 2).map(|i| u8::from_str_radix(&f[3][2 * i..2 * i + 2], 16).unwrap()).collect(),
    })
}
