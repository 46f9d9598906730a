//! Random and directed scenarios, one generator per family of operations.
use crate::exec::{ih, Scn, CONSTS};
use crate::rng::*;

/// Operands are sometimes made with the operations under test; what these do must not matter.
fn sut(f: impl FnOnce() -> f256::f256 + std::panic::UnwindSafe) -> B {
    std::panic::catch_unwind(f).map(|v| v.to_bits()).unwrap_or((0x3ffff << 108, 0))
}
fn sc(op: &str, a: &[B]) -> Scn {
    Scn { op: op.into(), a: a.to_vec(), ..Default::default() }
}
fn scn(op: &str, a: &[B], n: &[i128]) -> Scn {
    Scn { op: op.into(), a: a.to_vec(), n: n.iter().map(|v| ih(*v)).collect(), s: vec![] }
}
fn scs(op: &str, s: &str, n: &[i128]) -> Scn {
    Scn { op: op.into(), a: vec![], n: n.iter().map(|v| ih(*v)).collect(), s: s.as_bytes().to_vec() }
}

/// normal datum from an integer m < 2^237, times 2^e (exponent of the leading bit is chosen)
fn from_int(m: B, lead: i64, s: bool) -> B {
    let bl = if m.0 != 0 { 256 - m.0.leading_zeros() } else { 128 - m.1.leading_zeros() };
    let f = shl(m, 237 - bl);
    mk(s, (lead + BIAS).clamp(1, EMAXB), f)
}
/// odd integer with exactly k bits (k <= 237)
fn odd(r: &mut Rng, k: u32) -> B {
    let f = shr((r.u128(), r.u128()), 256 - k);
    let top = shl((0, 1), k - 1);
    (f.0 | top.0, f.1 | top.1 | 1)
}
/// exponents of two operands whose sum / difference is near a limit
fn lead_pair(r: &mut Rng, sum: i64) -> (i64, i64) {
    let lo = (sum - 262143).max(-262142);
    let hi = (sum + 262142).min(262143);
    let a = if lo >= hi { lo } else { r.range(lo, hi) };
    (a, (sum - a).clamp(-262378, 262143))
}
fn at_lead(r: &mut Rng, lead: i64) -> B {
    let s = r.chance(1, 2);
    if lead >= -262142 {
        let f = r.frac();
        mk(s, lead.min(262143) + BIAS, f)
    } else {
        // subnormal with that leading bit
        let k = (lead + 262378).max(0) as u32;
        let f = r.frac();
        let m = if k == 0 { (0, 1) } else { let t = shr(f, 236 - k); let b = shl((0, 1), k); (t.0 | b.0, t.1 | b.1) };
        mk(s, 0, m)
    }
}

/// w <= z as numbers (NaNs anywhere)
fn le(w: B, z: B) -> bool {
    match (sign(w), sign(z)) {
        (false, false) => w <= z,
        (true, true) => abs(w) >= abs(z),
        (s, _) => s,
    }
}
/// the content of a register: next to another one, moderate, special or anything
pub fn operand(r: &mut Rng, other: Option<B>) -> B {
    match (r.below(10), other) {
        (0..=3, Some(x)) => r.related(x),
        (0..=6, _) => r.in_exp_range(-60, 60),
        (7, _) => r.special(),
        _ => r.any(),
    }
}
pub fn specials() -> Vec<B> {
    let one = mk(false, BIAS, (0, 0));
    let base = vec![
        (0, 0),
        (0, 1),
        (0, 2),
        mk(false, 0, ((1 << 108) - 1, u128::MAX)),
        mk(false, 1, (0, 0)),
        mk(false, 1, (0, 1)),
        mk(false, 2, (0, 0)),
        step(one, -1),
        one,
        step(one, 1),
        mk(false, BIAS - 1, (0, 0)),
        mk(false, BIAS + 1, (0, 0)),
        mk(false, BIAS + 3, (1 << 106, 0)),
        mk(false, BIAS + 236, (0, 1)),
        mk(false, EMAXB, (0, 0)),
        mk(false, EMAXB, ((1 << 108) - 1, u128::MAX)),
        mk(false, EMAXB + 1, (0, 0)),
        mk(false, EMAXB + 1, (1 << 107, 0)),
        mk(false, EMAXB + 1, (0, 1)),
    ];
    let mut v = vec![];
    for b in base {
        v.push(b);
        v.push(neg(b));
    }
    v
}
fn pairs() -> Vec<(B, B)> {
    let s = specials();
    let mut v = vec![];
    for a in &s {
        for b in &s {
            v.push((*a, *b));
        }
    }
    v
}

fn addsub(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for (x, y) in pairs() {
        out.push(sc("add", &[x, y]));
        out.push(sc("sub", &[x, y]));
    }
    while out.len() < n {
        let x = r.any();
        let y = r.related(x);
        let op = r.pick(&["add", "sub"]);
        out.push(if r.chance(1, 2) { sc(op, &[x, y]) } else { sc(op, &[y, x]) });
    }
}
fn mul(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for (x, y) in pairs() {
        out.push(sc("mul", &[x, y]));
    }
    while out.len() < n {
        let (x, y) = match r.below(8) {
            0 => (r.any(), r.any()),
            1 => {
                let x = r.any();
                (x, r.related(x))
            }
            2 => {
                // exact ties: the product has 238 significant bits
                let k = r.range(2, 236) as u32;
                let e = r.range(-1000, 1000);
                (from_int(odd(r, k), e, r.chance(1, 2)), from_int(odd(r, 238 - k), -e + r.range(-3, 3), false))
            }
            3 | 4 => {
                // product near the underflow thresholds
                let t = r.pick(&[-262380i64, -262379, -262378, -262377, -262300, -262143, -262142, -262141, -262140])
                    + r.range(-2, 2);
                let (a, b) = lead_pair(r, t);
                (at_lead(r, a), at_lead(r, b))
            }
            5 => {
                let t = 262143 + r.range(-2, 2);
                let (a, b) = lead_pair(r, t);
                (at_lead(r, a), at_lead(r, b))
            }
            6 => {
                // ties in the subnormal range
                let k = r.range(1, 120) as u32;
                let l = r.range(1, 117) as u32;
                let lead = -262378 - 1 + r.range(0, (k + l) as i64);
                let (a, b) = lead_pair(r, lead);
                (from_int(odd(r, k), a.max(-262142), r.chance(1, 2)), from_int(odd(r, l), b.max(-262142), false))
            }
            _ => (r.in_exp_range(-10, 10), r.in_exp_range(-10, 10)),
        };
        out.push(sc("mul", &[x, y]));
        if r.chance(1, 20) {
            out.push(sc("square", &[x]));
        }
    }
}
fn div(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for (x, y) in pairs() {
        out.push(sc("div", &[x, y]));
    }
    for x in specials() {
        out.push(sc("recip", &[x]));
    }
    while out.len() < n {
        let (x, y) = match r.below(8) {
            0 => (r.any(), r.any()),
            1 => {
                let x = r.any();
                (x, r.related(x))
            }
            2 => {
                // exact quotients and their neighbours
                let k = r.range(1, 118) as u32;
                let y = from_int(odd(r, k), r.range(-20, 20), r.chance(1, 2));
                let q = { let k2 = r.range(1, 118) as u32; from_int(odd(r, k2), r.range(-20, 20), false) };
                let x = sut(move || (crate::exec::to(q) * crate::exec::to(y)));
                (if r.chance(1, 2) { x } else { step(x, r.range(-1, 1)) }, y)
            }
            3 | 4 => {
                // quotient near the underflow thresholds
                let t = r.pick(&[-262380i64, -262379, -262378, -262377, -262300, -262143, -262142, -262141]) + r.range(-2, 2);
                let a = r.range(-262378, 0);
                (at_lead(r, a), { let b = (a - t).min(262143); at_lead(r, b) })
            }
            5 => {
                let t = 262143 + r.range(-2, 2);
                let b = r.range(-262378, 0);
                ({ let a = (t + b).min(262143); at_lead(r, a) }, at_lead(r, b))
            }
            6 => {
                // subnormal ties: numerator has few bits more than fit, divisor a power of two
                let k = r.range(2, 237) as u32;
                let lead = -262378 + r.range(-1, k as i64);
                let b = r.range(0, 262143);
                let m = odd(r, k);
                (from_int(m, (lead + b).clamp(-262142, 262143), r.chance(1, 2)), mk(r.chance(1, 2), BIAS + b, (0, 0)))
            }
            _ => (r.in_exp_range(-10, 10), r.in_exp_range(-10, 10)),
        };
        out.push(sc("div", &[x, y]));
        if r.chance(1, 16) {
            out.push(sc("recip", &[y]));
        }
    }
}
fn rem(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for (x, y) in pairs() {
        out.push(sc("rem", &[x, y]));
    }
    while out.len() < n {
        let (x, y) = match r.below(8) {
            0 => (r.any(), r.any()),
            1 | 2 => {
                let x = r.any();
                (x, r.related(x))
            }
            3 => {
                // multiples and neighbours of multiples
                let k = r.range(1, 200) as u32;
                let y = { let kk = r.range(1, 237 - k as i64 + 1).min(237) as u32; from_int(odd(r, kk.max(1)), r.range(-300, 300), r.chance(1, 2)) };
                let q = from_int(odd(r, k), k as i64 - 1, false);
                let x = sut(move || (crate::exec::to(q) * crate::exec::to(y)));
                (step(x, r.range(-1, 1)), y)
            }
            4 => {
                let e = r.range(-262378, 262143 - 1000);
                let d = r.range(0, 1000);
                (at_lead(r, e + d), at_lead(r, e))
            }
            5 => {
                // both subnormal or about
                
                let a = -262378 + r.range(0, 300);
                let b = -262378 + r.range(0, 240);
                (at_lead(r, a), at_lead(r, b))
            }
            6 => {
                // divisor with few bits
                let kk = r.range(1, 20) as u32;
                (r.finite(), from_int(odd(r, kk), r.range(-30, 30), r.chance(1, 2)))
            }
            _ => (r.in_exp_range(0, 500), r.in_exp_range(-5, 5)),
        };
        out.push(sc("rem", &[x, y]));
    }
}
fn fma(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let s: Vec<B> = vec![
        (0, 0),
        neg((0, 0)),
        mk(false, BIAS, (0, 0)),
        mk(true, BIAS, (0, 0)),
        (0, 1),
        neg((0, 1)),
        mk(false, EMAXB, ((1 << 108) - 1, u128::MAX)),
        mk(true, EMAXB, ((1 << 108) - 1, u128::MAX)),
        mk(false, EMAXB + 1, (0, 0)),
        mk(true, EMAXB + 1, (0, 0)),
        mk(false, EMAXB + 1, (1 << 107, 0)),
    ];
    for a in &s {
        for b in &s {
            out.push(sc("sqadd", &[*a, *b]));
            for c in &s {
                out.push(sc("fma", &[*a, *b, *c]));
            }
        }
    }
    while out.len() < n {
        let (x, y) = match r.below(6) {
            0 => (r.any(), r.any()),
            1 => {
                // exact products
                let k = r.range(1, 118) as u32;
                let l = r.range(1, 119) as u32;
                (from_int(odd(r, k), r.range(-200, 200), r.chance(1, 2)), from_int(odd(r, l), r.range(-200, 200), r.chance(1, 2)))
            }
            2 => {
                let t = r.pick(&[-262378i64, -262142, 262143, -262600, -262850]) + r.range(-4, 4);
                let (a, b) = lead_pair(r, t);
                (at_lead(r, a), at_lead(r, b))
            }
            3 => {
                let k = r.range(2, 236) as u32;
                (from_int(odd(r, k), r.range(-50, 50), r.chance(1, 2)), from_int(odd(r, 238 - k), r.range(-50, 50), false))
            }
            _ => (r.in_exp_range(-300, 300), r.in_exp_range(-300, 300)),
        };
        let p = sut(move || (crate::exec::to(x) * crate::exec::to(y)));
        let z = match r.below(10) {
            0 => r.any(),
            1 => neg(p),
            2 => neg(step(p, r.range(-2, 2))),
            3 => p,
            4 => {
                // far away: sticky bit only
                let d = r.pick(&[-480i64, -475, -474, -473, -472, -471, -240, -239, -238, -237, -236, 236, 237, 238, 239, 240, 473, 474, 475, 700]);
                let e = (biased(p) + d).clamp(0, EMAXB);
                mk(r.chance(1, 2), e, r.frac())
            }
            5 => {
                let e = (biased(p) + r.range(-480, 480)).clamp(0, EMAXB);
                mk(r.chance(1, 2), e, (0, 0))
            }
            6 => r.finite(),
            _ => r.related(p),
        };
        if r.chance(1, 5) {
            let p = sut(move || (crate::exec::to(x) * crate::exec::to(x)));
            let z = if r.chance(1, 2) { neg(step(p, r.range(-2, 2))) } else { r.related(p) };
            out.push(sc("sqadd", &[x, z]));
        } else {
            out.push(sc("fma", &[x, y, z]));
        }
    }
}
fn sos(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for (x, y) in pairs() {
        out.push(sc("sos", &[x, y]));
    }
    while out.len() < n {
        let x = match r.below(6) {
            0 => r.any(),
            1 => {
                let e = -131189 + r.range(-4, 4);
                at_lead(r, e)
            }
            2 => {
                let e = 131071 + r.range(-2, 1);
                at_lead(r, e)
            }
            3 => {
                let k = r.range(1, 119) as u32;
                from_int(odd(r, k), r.range(-100, 100), r.chance(1, 2))
            }
            4 => {
                let e = -131071 + r.range(-4, 4);
                at_lead(r, e)
            }
            _ => r.in_exp_range(-200, 200),
        };
        let y = match r.below(5) {
            0 => r.any(),
            1 => {
                let d = r.pick(&[0i64, 1, 2, 58, 59, 60, 117, 118, 119, 120, 121, 236, 237, 238, 239]);
                let e = (biased(x) - d).clamp(0, EMAXB);
                mk(r.chance(1, 2), e, r.frac())
            }
            2 => {
                let k = r.range(1, 119) as u32;
                let d = r.range(0, 240);
                from_int(odd(r, k), (biased(x) - BIAS - d).clamp(-262142, 262143), r.chance(1, 2))
            }
            _ => r.related(x),
        };
        out.push(if r.chance(1, 2) { sc("sos", &[x, y]) } else { sc("sos", &[y, x]) });
    }
}
fn sqrt(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        out.push(sc("sqrt", &[x]));
    }
    for i in 0..400u128 {
        out.push(sc("sqrt", &[sut(move || f256::f256::from(i))]));
    }
    while out.len() < n {
        let x = match r.below(8) {
            0 => r.any(),
            1 => {
                let k = r.range(1, 118) as u32;
                let t = crate::exec::to(from_int(odd(r, k), r.range(-100, 100), false));
                sut(move || t * t)
            }
            2 | 3 => {
                let t = crate::exec::to(abs(r.in_exp_range(-5, 5)));
                step(sut(move || t * t), r.range(-2, 2))
            }
            4 => {
                let k = r.range(1, 118) as u32;
                let t = crate::exec::to(from_int(odd(r, k), r.range(-100, 100), false));
                step(sut(move || t * t), r.range(-2, 2))
            }
            5 => {
                let e = r.range(-262378, -262100);
                abs(at_lead(r, e))
            }
            6 => {
                // just below/above powers of two
                let e = r.bexp().max(1);
                step(mk(false, e, (0, 0)), r.range(-4, 4))
            }
            _ => abs(r.finite()),
        };
        out.push(sc("sqrt", &[x]));
    }
}
fn scale(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let ns: Vec<i128> = vec![
        0, 1, 2, 3, 107, 108, 109, 127, 128, 129, 235, 236, 237, 238, 239, 255, 256, 257, 262141, 262142, 262143, 262144,
        262378, 262379, 524284, 524285, 524286, 524287, 524288, 524520, 524521, 524522, 524523, 524524, 524525, 1 << 20, 1 << 24,
        (1 << 31) - 1, 1 << 31, (1 << 32) - 524287, (1 << 32) - 2, (1 << 32) - 1,
    ];
    for x in specials() {
        out.push(sc("mul2", &[x]));
        out.push(sc("div2", &[x]));
        for k in &ns {
            out.push(scn("mulp2", &[x], &[*k]));
            out.push(scn("divp2", &[x], &[*k]));
        }
    }
    while out.len() < n {
        let x = r.any();
        let e = biased(x) as i128;
        match r.below(8) {
            0 => out.push(sc(r.pick(&["mul2", "div2"]), &[x])),
            1 => out.push(scn(r.pick(&["mulp2", "divp2"]), &[x], &[r.pick(&ns)])),
            2 => out.push(scn("mulp2", &[x], &[(EMAXB as i128 - e + r.range(-3, 3) as i128).max(0)])),
            3 | 4 => out.push(scn("divp2", &[x], &[(e + r.range(-3, 240) as i128).max(0)])),
            5 => {
                // subnormals scaled up, small normals scaled down
                let lead = -262378 + r.range(0, 480);
                let x = at_lead(r, lead);
                let k = if r.chance(1, 2) { r.range(0, 500) } else { r.range(0, 524600) };
                out.push(scn(r.pick(&["mulp2", "divp2"]), &[x], &[k as i128]));
            }
            6 => {
                // ties in the subnormal range
                let k = r.range(1, 237) as u32;
                let x = from_int(odd(r, k), -262142 + r.range(0, 300), r.chance(1, 2));
                let d = biased(x) - BIAS - (k as i64 - 1) + 262378 + r.range(-1, 2);
                out.push(scn("divp2", &[x], &[d.max(0) as i128]));
            }
            _ => out.push(scn(r.pick(&["mulp2", "divp2"]), &[x], &[r.range(0, 600) as i128])),
        }
    }
}
fn integral(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        out.push(sc("integral", &[x]));
    }
    for i in -40i64..=40 {
        // quarters
        let x = sut(move || (f256::f256::from(i) / f256::f256::from(4)));
        for d in -2..=2 {
            out.push(sc("integral", &[step(x, d)]));
        }
    }
    while out.len() < n {
        let x = match r.below(8) {
            0 => r.any(),
            1 | 2 => r.in_exp_range(-3, 240),
            3 => {
                // k + 1/2, and neighbours
                let k = r.range(1, 237) as u32;
                let x = from_int(odd(r, k), k as i64 - 2, r.chance(1, 2));
                step(x, r.range(-1, 1))
            }
            4 => {
                let k = r.range(1, 237) as u32;
                let x = from_int(odd(r, k), k as i64 - 1, r.chance(1, 2));
                step(x, r.range(-1, 1))
            }
            5 => {
                // 2^e -+ few ulp
                let e = r.range(-3, 238);
                step(mk(r.chance(1, 2), BIAS + e, (0, 0)), r.range(-3, 3))
            }
            6 => {
                // only far-down fraction bits set
                let e = r.range(-1, 236);
                let f = shl((0, 1), r.below(236) as u32);
                mk(r.chance(1, 2), BIAS + e, f)
            }
            _ => r.in_exp_range(-300, 1),
        };
        out.push(sc("integral", &[x]));
    }
}
fn cmp(r: &mut Rng, n: usize, out: &mut Vec<Scn>, ops: &[&str]) {
    for (x, y) in pairs() {
        for op in ops {
            if *op != "clamp" {
                out.push(sc(op, &[x, y]));
            }
        }
    }
    if ops.contains(&"clamp") {
        let s = specials();
        for _ in 0..2000 {
            out.push(sc("clamp", &[r.pick(&s), r.pick(&s), r.pick(&s)]));
        }
    }
    while out.len() < n {
        let op = r.pick(ops);
        let x = r.any();
        let y = match r.below(4) {
            0 => r.any(),
            1 => step(x, r.range(-1, 1)),
            2 => {
                // differ in the low word only, or in the high word only
                if r.chance(1, 2) { (x.0, r.u128()) } else { mk(sign(x), biased(x), (r.u128(), x.1)) }
            }
            _ => r.related(x),
        };
        let y = if r.chance(1, 6) { neg(y) } else { y };
        if op == "clamp" {
            let mut z = r.related(y);
            let mut w = r.related(y);
            if r.chance(7, 8) && !le(w, z) {
                core::mem::swap(&mut z, &mut w);
            }
            out.push(sc("clamp", &[y, w, z]));
        } else {
            out.push(sc(op, &[x, y]));
        }
    }
}
fn class(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let ops = ["class", "neg", "abs"];
    for x in specials() {
        for op in ops {
            out.push(sc(op, &[x]));
        }
    }
    for e in [0i64, 1, 2, 235, 236, 237, 238, EMAXB - 1, EMAXB, EMAXB + 1] {
        for p in 0..236 {
            out.push(sc("class", &[mk(p % 2 == 1, e, shl((0, 1), p))]));
        }
    }
    while out.len() < n {
        let x = if r.chance(1, 3) {
            let e = r.pick(&[0i64, 0, 1, EMAXB, EMAXB + 1, EMAXB + 1]);
            mk(r.chance(1, 2), e, r.frac())
        } else {
            r.any()
        };
        out.push(sc(r.pick(&["class", "class", "neg", "abs"]), &[x]));
    }
}
fn bits(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        out.push(sc("bytes", &[x]));
    }
    while out.len() < n {
        let x = if r.chance(1, 2) { (r.u128(), r.u128()) } else { r.any() };
        out.push(sc("bytes", &[x]));
    }
}
fn ulp(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        out.push(sc("ulp", &[x]));
    }
    for e in 0..520 {
        for f in [(0u128, 0u128), (0, 1), (1 << 107, 0)] {
            out.push(sc("ulp", &[mk(e % 2 == 1, e, f)]));
        }
    }
    while out.len() < n {
        let x = r.any();
        out.push(sc("ulp", &[x]));
    }
}
fn ints(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let tys: [i128; 10] = [8, 16, 32, 64, 128, -8, -16, -32, -64, -128];
    for t in tys {
        let w = t.unsigned_abs() as u32;
        let (lo, hi): (i128, i128) = if t > 0 {
            (0, if w == 128 { -1 } else { (1i128 << w) - 1 })
        } else if w == 128 {
            (i128::MIN, i128::MAX)
        } else {
            (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        };
        if t == 128 {
            // unsigned values travel as hex of the two's complement
            for k in 0..128 {
                for d in [-1i128, 0, 1] {
                    let v = (1u128 << k).wrapping_add(d as u128);
                    out.push(Scn { op: "fromint".into(), n: vec![ih(t), format!("{:x}", v)], ..Default::default() });
                }
            }
            for v in [u128::MAX, u128::MAX - 1, 0, 1] {
                out.push(Scn { op: "fromint".into(), n: vec![ih(t), format!("{:x}", v)], ..Default::default() });
            }
        } else {
            for v in [lo, lo + 1, hi, hi - 1, 0, 1, 2] {
                out.push(scn("fromint", &[], &[t, v]));
            }
            for k in 0..w - 1 {
                for d in [-1i128, 0, 1] {
                    let v = (1i128 << k) + d;
                    if v >= lo && v <= hi {
                        out.push(scn("fromint", &[], &[t, v]));
                    }
                    if t < 0 && -v >= lo {
                        out.push(scn("fromint", &[], &[t, -v]));
                    }
                }
            }
            if w <= 8 {
                for v in lo..=hi {
                    out.push(scn("fromint", &[], &[t, v]));
                }
            }
        }
    }
    while out.len() < n {
        let t = r.pick(&tys);
        let w = t.unsigned_abs() as u32;
        let k = r.range(1, w as i64) as u32;
        let mut v = r.u128() >> (128 - k);
        if r.chance(1, 4) {
            let z = r.below(k as u64) as u32;
            v = (v >> z) << z;
        }
        if t > 0 {
            out.push(Scn { op: "fromint".into(), n: vec![ih(t), format!("{:x}", v)], ..Default::default() });
        } else {
            let v = ((v << (128 - w)) as i128) >> (128 - w);
            let v = if r.chance(1, 2) { v } else { v.wrapping_neg().max(if w == 128 { i128::MIN } else { -(1 << (w - 1)) }) };
            if w < 128 && v >= 1 << (w - 1) {
                continue;
            }
            out.push(scn("fromint", &[], &[t, v]));
        }
    }
}
fn floats(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for s in 0..2u64 {
        for e in [0u64, 1, 2, 126, 127, 128, 253, 254, 255] {
            for f in [0u64, 1, 2, 3, 0x400000, 0x400001, 0x7fffff, 0x7ffffe, 0x3fffff, 0x200000] {
                out.push(scn("fromf32", &[], &[((s << 31) | (e << 23) | f) as i128]));
            }
        }
        for p in 0..23 {
            out.push(scn("fromf32", &[], &[((s << 31) | 1 << p) as i128]));
        }
        for e in [0u64, 1, 2, 1022, 1023, 1024, 2045, 2046, 2047] {
            for f in [0u64, 1, 2, 3, 1 << 51, (1 << 51) + 1, (1 << 52) - 1, (1 << 52) - 2, (1 << 51) - 1, 1 << 50] {
                out.push(scn("fromf64", &[], &[((s << 63) | (e << 52) | f) as i128]));
            }
        }
        for p in 0..52 {
            out.push(scn("fromf64", &[], &[((s << 63) | 1 << p) as i128]));
            out.push(scn("fromf64", &[], &[((s << 63) | ((1 << (p + 1)) - 1)) as i128]));
        }
    }
    while out.len() < n {
        let b = r.next();
        match r.below(6) {
            0 => out.push(scn("fromf32", &[], &[(b as u32) as i128])),
            1 => out.push(scn("fromf32", &[], &[((b as u32) & 0x807fffff) as i128])),
            2 => {
                let k = r.below(52);
                out.push(scn("fromf64", &[], &[((b & 1 << 63) | ((b << 12 >> 12) >> k)) as i128]))
            }
            3 => {
                let k = r.below(23);
                out.push(scn("fromf32", &[], &[((b & 1 << 31) | ((b & 0x7fffff) >> k)) as i128]))
            }
            _ => out.push(scn("fromf64", &[], &[b as i128])),
        }
    }
}

fn digits(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let mode = r.below(4);
    for i in 0..n {
        let d = match mode {
            0 | 1 => r.below(10),
            2 => r.pick(&[0u64, 9]),
            _ => if i * 2 < n { r.below(10) } else { 0 },
        };
        s.push((b'0' + d as u8) as char);
    }
    s
}
/// a string of the number grammar
fn number(r: &mut Rng, extreme: bool) -> String {
    let mut s = String::new();
    s.push_str(r.pick(&["", "", "", "-", "+"]));
    let nd = match r.below(6) {
        0 => r.range(1, 20),
        1 => r.range(60, 90),
        2 => r.range(1, 80),
        3 => r.range(70, 160),
        _ => r.range(1, 40),
    } as usize;
    let d = digits(r, nd);
    match r.below(6) {
        0 | 1 => s.push_str(&d),
        2 => {
            s.push_str(&d);
            s.push('.');
        }
        3 => {
            s.push('.');
            s.push_str(&d);
        }
        4 => {
            s.push_str(&"0".repeat(r.below(40) as usize));
            s.push('.');
            s.push_str(&"0".repeat(r.below(90) as usize));
            s.push_str(&d);
        }
        _ => {
            let k = r.below(nd as u64 + 1) as usize;
            s.push_str(&d[..k]);
            s.push('.');
            s.push_str(&d[k..]);
        }
    }
    if r.chance(2, 3) {
        s.push(r.pick(&['e', 'E']));
        let e = match r.below(8) {
            0 => r.range(-20, 20),
            1 => r.range(-120, 120),
            2 => r.range(-400, 400),
            3 => r.range(-3000, 3000),
            4 if extreme => r.range(-80000, 80000),
            5 if extreme => -78984 + r.range(-120, 120),
            6 if extreme => 78913 + r.range(-120, 20),
            _ => r.range(-80, 80),
        };
        if e >= 0 {
            s.push_str(r.pick(&["", "+", "0", "+000"]));
            s.push_str(&e.to_string());
        } else {
            s.push('-');
            s.push_str(r.pick(&["", "0", "000"]));
            s.push_str(&(-e).to_string());
        }
    }
    s
}
fn grammar(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let fixed = [
        "", "+", "-", ".", "+.", "-.", "e", "E5", ".e5", "-.e5", "1e", "1e+", "1e-", "1E+", "1.e", "1.e5", ".5", "5.", "-5.", "+.5", "0", "-0", "+0",
        "0.0", "-0.0", "-.0", "-0.", "-0e5", "0e999999999999", "-0e-999999999999", "00", "007", "-007.5e-3", "1__0", "1_0", " 1", "1 ", "\t1", "1\n", "++1", "--1",
        "+-1", "-+1", "1..2", "1.2.3", "1e5.5", "1e5e5", "0x10", "1f", "1e5f", "inf", "-inf", "+inf", "INF", "Inf", "iNf", "infinity", "-Infinity", "+INFINITY",
        "infinit", "infinityy", "in", "i", "nan", "NaN", "NAN", "-nan", "+nan", "+NaN", "nann", "na", "n", "-n", "1e18446744073709551616", "1e-18446744073709551616",
        "1e9223372036854775808", "1e-9223372036854775808", "1e2147483648", "1e-2147483648", "1e2147483647", "1e4294967296", "1e-4294967296", "0e18446744073709551616",
        "0.0e-18446744073709551617", "1e99999999999999999999999999999999", "-1e99999999999999999999999999999999", "1e-99999999999999999999999999999999",
        "٣", "１", "é", "1é", "1e５", "−1", "1,5", "1'000", "$1", "1%", "(1)", "1/2", "true", "null", "1e0", "1e-0", "1e+0", "1e00", "0e0", ".0e0", "0.e0", "1:", "1/", "1e:", "1e/", ";", ":", "/",
        "infe5", "nan1", "-infinity5", "e5", "-e5", "+e+5", "1e+-5", "1e-+5", "1e5+", "1e5-", "1+", "1-1", "\0", "1\0", "0\0", "0.1e1e1", "-", "-.", "0-", "1.-", ".1.", "..", "...1",
    ];
    for f in fixed {
        out.push(scs("parse", f, &[]));
    }
    for k in [2i128, 8, 9, 11, 16, 36] {
        out.push(scs("radix", "10", &[k]));
        out.push(scs("radix", "", &[k]));
        out.push(scs("radix", "1.5e3", &[k]));
    }
    let alphabet: Vec<char> = "0123456789.eE+-infatyINFATY _:/,x\u{0663}".chars().collect();
    while out.len() < n {
        match r.below(4) {
            0 => {
                // short strings over the alphabet
                let l = r.range(1, 6);
                let s: String = (0..l).map(|_| r.pick(&alphabet)).collect();
                out.push(scs("parse", &s, &[]));
            }
            1 => {
                // mutated numbers
                let mut s: Vec<char> = number(r, false).chars().collect();
                for _ in 0..r.range(1, 2) {
                    let i = r.below(s.len() as u64 + 1) as usize;
                    match r.below(3) {
                        0 if i < s.len() => {
                            s.remove(i);
                        }
                        1 if i < s.len() => s[i] = r.pick(&alphabet),
                        _ => s.insert(i, r.pick(&alphabet)),
                    }
                }
                let t: String = s.into_iter().collect();
                if !risky(&t) {
                    out.push(scs("parse", &t, &[]));
                }
            }
            2 => {
                let l = r.range(1, 4);
                let core: Vec<char> = "05.eE+-".chars().collect();
                let s: String = (0..l + 2).map(|_| r.pick(&core)).collect();
                if !risky(&s) {
                    out.push(scs("parse", &s, &[]));
                }
            }
            _ => out.push(scs("parse", &number(r, false), &[])),
        }
    }
}
/// huge exponents are covered by the fixed list; values of 10^1000000 are too slow for the oracle
fn risky(_s: &str) -> bool {
    false
}
fn parse(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let fixed = [
        "1.6113257174857604736195721184520050106440238745496695174763712505000e78913",
        "1.6113257174857604736195721184520050106440238745496695174763712505500e78913",
        "1.62e78913", "1e78914", "2e78913", "1e78913", "9.99e78912", "1e79000", "1e100000", "-1e78914", "10e2147483647", "0.01e-2147483648", "0.1e2147483648", "100e-2147483647", "1.5e2147483647", "1e-2147483647",
        "10e9223372036854775807", "0.001e-9223372036854775808", "1e-2147483649",
        "2.2480e-78984", "1.1239e-78984", "1.1241e-78984", "1.124e-78984", "1.125e-78984", "1e-78984", "1e-78985", "3.4e-78984", "1e-79100", "1e-100000", "-1e-100000",
        "2.4824279514643497882993282229138717236776877060796468692709532979e-78913", "1e-78912", "1e-78913",
        "0.1", "0.2", "0.3", "1e1", "1e22", "1e71", "1e72", "1e73", "1e100", "1e101", "1e102", "1e103", "1e-71", "1e-72", "1e-100", "1e-101", "1e-102", "1e-103",
        "220855883097298041197912187592864814478435487109452369765200775161577471", "220855883097298041197912187592864814478435487109452369765200775161577472",
        "220855883097298041197912187592864814478435487109452369765200775161577473", "441711766194596082395824375185729628956870974218904739530401550323154943",
        "441711766194596082395824375185729628956870974218904739530401550323154945",
        "115792089237316195423570985008687907853269984665640564039457584007913129639935",
        "115792089237316195423570985008687907853269984665640564039457584007913129639936",
        "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "18446744073709551616",
    ];
    for f in fixed {
        out.push(scs("parse", f, &[]));
    }
    let mut ext = 0;
    while out.len() < n {
        let big = ext < 24 && r.chance(1, 50);
        ext += big as usize;
        let s = match r.below(8) {
            0 => {
                // integers near powers of two and decimal integers with trailing zeroes
                let nd = r.range(1, 90) as usize;
                let d = digits(r, nd);
                format!("{}{}", d, "0".repeat(r.below(60) as usize))
            }
            1 => {
                // the same value in another notation
                let nd = r.range(1, 78) as usize;
                let d = digits(r, nd);
                let z = r.below(30) as usize;
                format!("0.{}{}e{}", "0".repeat(z), d, r.range(-60, 160))
            }
            2 => {
                // very long digit strings
                let nd = r.range(90, 700) as usize;
                let d = digits(r, nd);
                let k = r.below(d.len() as u64) as usize;
                format!("{}.{}e{}", &d[..k], &d[k..], r.range(-400, 400))
            }
            3 if r.chance(1, 4) => {
                // 5^j 2^m written out: long integers that are (almost) short in binary
                let d = dec_pow(r.below(36) as u32, r.range(230, 420) as u32);
                if r.chance(1, 3) { bump(&d, r) } else { d }
            }
            4 if r.chance(1, 4) => {
                // as many digits as fit, point anywhere
                let nd = r.range(70, 80) as usize;
                let d = digits(r, nd);
                let k = r.below(nd as u64 + 1) as usize;
                format!("{}.{}e{}", &d[..k], &d[k..], if big { -78984 - r.range(0, 90) } else { r.range(-120, 120) })
            }
            _ => number(r, big),
        };
        out.push(scs("parse", &s, &[]));
    }
}

/// 5^j * 2^m in decimal
fn dec_pow(j: u32, m: u32) -> String {
    let mut d = vec![1u8];
    let mut mul = |k: u8| {
        let mut c = 0;
        for x in d.iter_mut() {
            let t = *x * k + c;
            *x = t % 10;
            c = t / 10;
        }
        while c > 0 {
            d.push(c % 10);
            c /= 10;
        }
    };
    for _ in 0..j {
        mul(5);
    }
    for _ in 0..m {
        mul(2);
    }
    d.iter().rev().map(|x| (x + b'0') as char).collect()
}
/// one more, one less, or a digit changed somewhere
fn bump(d: &str, r: &mut Rng) -> String {
    let mut v: Vec<u8> = d.bytes().collect();
    let i = if r.chance(1, 2) { v.len() - 1 } else { r.below(v.len() as u64) as usize };
    v[i] = match v[i] {
        b'9' => b'8',
        b'0' => b'1',
        x => if r.chance(1, 2) { x + 1 } else { x - 1 },
    };
    String::from_utf8(v).unwrap()
}

/// sign, exponent, significand
fn parts(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    let real = |x: B| biased(x) <= EMAXB && abs(x) != (0, 0);
    for x in specials().into_iter().filter(|x| real(*x)) {
        out.push(sc("parts", &[x]));
    }
    while out.len() < n {
        if r.chance(1, 2) {
            let x = r.any();
            if real(x) {
                out.push(sc("parts", &[x]));
            }
        } else {
            let k = r.range(1, 237) as u32;
            let mut c = odd(r, k);
            if r.chance(1, 2) {
                c = shl(c, r.below(238 - k as u64) as u32);
            }
            let t = match r.below(4) {
                0 => r.range(-262378, -262100),
                1 => r.range(261800, 261907),
                _ => r.range(-262378, 261907),
            };
            out.push(scn("build", &[c], &[r.below(2) as i128, t as i128]));
        }
    }
}
/// every operation on zeroes, infinities, NaNs and the ends of the range
fn special(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    const ONE: [&str; 22] = [
        "square", "recip", "sqrt", "mul2", "div2", "integral", "neg", "abs", "class", "ulp", "ln", "log2", "log10", "sin", "cos", "tan", "sincos",
        "asin", "acos", "atan", "deg", "rad",
    ];
    const TWO: [&str; 8] = ["add", "sub", "mul", "div", "rem", "sos", "sqadd", "atan2"];
    let mut v = specials();
    v.push(mk(true, EMAXB + 1, (1, 1)));
    v.push(mk(true, BIAS, (1 << 107, 0)));
    for x in &v {
        for op in ONE {
            out.push(sc(op, &[*x]));
        }
        for k in 0..3 {
            for p in [-1, 3] {
                for w in [-1, 20] {
                    if k > 0 || biased(*x) < BIAS + 300 || biased(*x) > EMAXB {
                        out.push(scn("fmt", &[*x], &[k, 0, 0, 1, 0, w, p]));
                    }
                }
            }
        }
        for k in [0, 1, 0x7fffffff, 0x80000000, 0xffffffff] {
            out.push(scn("mulp2", &[*x], &[k]));
            out.push(scn("divp2", &[*x], &[k]));
        }
    }
    while out.len() < n {
        let x = if r.chance(1, 4) { r.any() } else { r.pick(&v) };
        let y = if r.chance(1, 4) { r.any() } else { r.pick(&v) };
        let z = if r.chance(1, 4) { r.any() } else { r.pick(&v) };
        match r.below(9) {
            0 => out.push(sc("fma", &[x, y, z])),
            2 => out.push(sc(r.pick(&ONE), &[x])),
            _ => out.push(sc(r.pick(&TWO), &[x, y])),
        }
    }
}

fn wide_or_not(r: &mut Rng) -> i128 {
    match r.below(4) {
        0 => -1,
        1 => r.range(0, 12) as i128,
        2 => r.range(0, 100) as i128,
        _ => r.range(0, 30) as i128,
    }
}
fn fmt_value(r: &mut Rng) -> B {
    match r.below(12) {
        0 => r.any(),
        1 => r.in_exp_range(-4, 4),
        2 => {
            // short decimals
            let d = r.range(-100000, 100000);
            let k = r.range(0, 8) as u32;
            sut(move || (f256::f256::from(d) / f256::f256::from(10u64.pow(k))))
        }
        3 => {
            // dyadic fractions: ties
            let k = r.range(1, 60) as u32;
            let e = r.range(-60, 60);
            from_int(odd(r, k), e, r.chance(1, 2))
        }
        4 => {
            // powers of ten and neighbours
            let k = r.range(0, 100);
            let s = format!("1e{}", k);
            step(sut(move || s.parse::<f256::f256>().unwrap()), r.range(-2, 2))
        }
        5 => {
            let k = r.range(-100, 0);
            let s = format!("1e{}", k);
            step(sut(move || s.parse::<f256::f256>().unwrap()), r.range(-2, 2))
        }
        6 => {
            // 9.99...5
            let k = r.range(1, 60) as usize;
            let s = format!("{}.{}5", "9".repeat(r.range(1, 10) as usize), "9".repeat(k));
            sut(move || s.parse::<f256::f256>().unwrap())
        }
        7 => r.in_exp_range(0, 236),
        8 => r.in_exp_range(236, 512),
        9 => r.in_exp_range(-300, 0),
        _ => r.in_exp_range(-80, 80),
    }
}
fn fixed_prec(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        // not the very large ones in fixed-point notation: too long
        let big = biased(x) > BIAS + 3000 && biased(x) <= EMAXB;
        for p in [0i128, 1, 5, 30, 75] {
            if !big {
                out.push(scn("fmt", &[x], &[0, 0, 0, 0, 0, -1, p]));
            }
            out.push(scn("fmt", &[x], &[1, 0, 0, 0, 0, -1, p]));
        }
    }
    // all documented behaviour at the limit of the precision
    for p in [75i128, 76, 77, 100] {
        for k in 0..3 {
            out.push(scn("fmt", &[mk(false, BIAS, (1 << 107, 0))], &[k, 0, 0, 0, 0, -1, p]));
        }
    }
    while out.len() < n {
        let kind = r.below(3) as i128;
        let mut x = fmt_value(r);
        if kind == 0 && biased(x) > BIAS + 3000 && biased(x) <= EMAXB && !r.chance(1, 40) {
            x = mk(sign(x), BIAS + r.range(0, 2000), x);
        }
        let p = match r.below(6) {
            0 => 0,
            1 => r.range(0, 5),
            2 => r.range(60, 75),
            3 => 75,
            _ => r.range(0, 75),
        };
        out.push(scn("fmt", &[x], &[kind, 0, 0, 0, 0, -1, p as i128]));
    }
}
fn shortest(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        for k in 0..3 {
            out.push(scn("short", &[x], &[k]));
        }
    }
    for e in -300i64..600 {
        // powers of two: asymmetric intervals
        out.push(scn("short", &[mk(false, BIAS + e, (0, 0))], &[1]));
    }
    while out.len() < n {
        let mut kind = r.below(3) as i128;
        let x = match r.below(6) {
            0 => r.finite(),
            1 => r.any(),
            2 => step(mk(r.chance(1, 2), r.bexp(), (0, 0)), r.range(-2, 2)),
            _ => fmt_value(r),
        };
        if (biased(x) - BIAS).abs() > 3000 && !r.chance(1, 60) {
            kind = kind.max(1);
        }
        let op = if (biased(x) - BIAS).abs() < 8000 || r.chance(1, 300) { "round" } else { "short" };
        out.push(scn(op, &[x], &[kind]));
    }
}
fn padding(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    while out.len() < n {
        let x = match r.below(5) {
            0 => r.special(),
            1 => r.pick(&[(0u128, 0u128), neg((0, 0)), mk(false, EMAXB + 1, (0, 0)), mk(true, EMAXB + 1, (0, 0)), mk(false, EMAXB + 1, (1 << 107, 0))]),
            _ => fmt_value(r),
        };
        let mut kind = r.below(3) as i128;
        if (biased(x) - BIAS).abs() > 1000 && biased(x) <= EMAXB && x.0 << 1 | x.1 != 0 {
            kind = kind.max(1);
        }
        let align = r.below(4) as i128;
        let fill = if align == 0 { 0 } else { r.below(4) as i128 };
        let w = wide_or_not(r);
        let zero = if w < 0 { 0 } else { r.chance(1, 3) as i128 };
        let p = if r.chance(1, 2) { -1 } else { r.range(0, 20) as i128 };
        out.push(scn("fmt", &[x], &[kind, fill, align, r.below(2) as i128, zero, w, p]));
    }
}
fn angles(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        out.push(sc("deg", &[x]));
        out.push(sc("rad", &[x]));
    }
    for d in -400i64..=400 {
        out.push(sc("rad", &[sut(move || f256::f256::from(d))]));
    }
    while out.len() < n {
        let x = match r.below(4) {
            0 => r.any(),
            1 => r.in_exp_range(-10, 10),
            2 => {
                // near overflow / underflow
                let e = r.pick(&[262143i64, 262137, 262138, -262142, -262136, -262378, -262137]) + r.range(-3, 3);
                at_lead(r, e.clamp(-262378, 262143))
            }
            _ => r.finite(),
        };
        out.push(sc(r.pick(&["deg", "rad"]), &[x]));
    }
}
fn elem(r: &mut Rng, n: usize, out: &mut Vec<Scn>, ops: &[&str], wide: bool) {
    for x in specials() {
        for op in ops {
            out.push(sc(op, &[x]));
        }
    }
    while out.len() < n {
        let op = r.pick(ops);
        let x = match r.below(10) {
            0 => r.any(),
            1 | 2 => r.in_exp_range(-3, 3),
            3 => r.in_exp_range(-20, 20),
            4 => {
                // near one
                let one = mk(r.chance(1, 2), BIAS, (0, 0));
                let k = r.range(0, 235) as u32;
                let d = shl((0, 1), k);
                let t = if r.chance(1, 2) { (one.0 + d.0, one.1 + d.1) } else { shift_down(one, k) };
                step(t, r.range(-2, 2))
            }
            5 => {
                // multiples of pi/4, rounded, and neighbours
                let k = r.range(1, 4000);
                let p = sut(move || f256::consts::FRAC_PI_4 * f256::f256::from(k));
                let t = step(p, r.range(-3, 3));
                if r.chance(1, 2) { neg(t) } else { t }
            }
            6 => r.in_exp_range(-300, 0),
            7 if wide => r.finite(),
            8 => r.in_exp_range(0, 300),
            _ => r.in_exp_range(-2, 2),
        };
        let x = if matches!(op, "asin" | "acos") && biased(x) > BIAS { mk(sign(x), BIAS - 1 - r.below(3) as i64, x) } else { x };
        let x = if matches!(op, "ln" | "log2" | "log10") && r.chance(15, 16) { abs(x) } else { x };
        out.push(sc(op, &[x]));
    }
}
fn shift_down(one: B, k: u32) -> B {
    let d = shl((0, 1), k);
    let (lo, c) = one.1.overflowing_sub(d.1);
    (one.0 - d.0 - c as u128, lo)
}
fn atan2(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for (x, y) in pairs() {
        out.push(sc("atan2", &[x, y]));
    }
    while out.len() < n {
        let x = r.any();
        let y = match r.below(4) {
            0 => r.any(),
            1 => x,
            2 => {
                let e = (biased(x) + r.range(-5, 5)).clamp(0, EMAXB);
                mk(r.chance(1, 2), e, r.frac())
            }
            _ => r.related(x),
        };
        let y = if r.chance(1, 3) { neg(y) } else { y };
        out.push(sc("atan2", &[x, y]));
    }
}
fn forms(r: &mut Rng, n: usize, out: &mut Vec<Scn>) {
    for x in specials() {
        out.push(sc("ntrait", &[x]));
    }
    while out.len() < n {
        let x = r.any();
        let y = r.related(x);
        match r.below(8) {
            0 => out.push(sc("ntrait", &[x])),
            1 => out.push(sc("neg", &[x])),
            _ => out.push(sc(r.pick(&["add", "sub", "mul", "div", "rem"]), &[x, y])),
        }
    }
}

pub fn generate(family: &str, r: &mut Rng, n: usize) -> Vec<Scn> {
    let mut out = vec![];
    let o = &mut out;
    match family {
        "addsub" => addsub(r, n, o),
        "mul" => mul(r, n, o),
        "div" => div(r, n, o),
        "rem" => rem(r, n, o),
        "fma" => fma(r, n, o),
        "sos" => sos(r, n, o),
        "sqrt" => sqrt(r, n, o),
        "scale" => scale(r, n, o),
        "integral" => integral(r, n, o),
        "cmp" => cmp(r, n, o, &["cmp"]),
        "minmax" => cmp(r, n, o, &["minmax", "clamp"]),
        "tcmp" => cmp(r, n, o, &["tcmp"]),
        "class" => class(r, n, o),
        "bits" => bits(r, n, o),
        "ulp" => ulp(r, n, o),
        "parts" => parts(r, n, o),
        "special" => special(r, n, o),
        "ints" => ints(r, n, o),
        "floats" => floats(r, n, o),
        "grammar" => grammar(r, n, o),
        "parse" => parse(r, n, o),
        "fixed" => fixed_prec(r, n, o),
        "shortest" => shortest(r, n, o),
        "padding" => padding(r, n, o),
        "angles" => angles(r, n, o),
        "logs" => elem(r, n, o, &["ln", "log2", "log10"], true),
        "trig" => elem(r, n, o, &["sin", "cos", "tan", "sincos"], true),
        "atrig" => elem(r, n, o, &["asin", "acos", "atan"], true),
        "atan2" => atan2(r, n, o),
        "forms" => forms(r, n, o),
        "consts" => {
            for (name, _) in CONSTS {
                o.push(scs("const", name, &[]));
            }
            o.push(sc("params", &[]));
        }
        _ => panic!("unknown family {family}"),
    }
    out
}
