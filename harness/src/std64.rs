//! The same events for the built-in f64: they validate the specification (P = 53, EW = 11), they
//! say nothing about the code under test.
use crate::exec::{event, Scn};
use crate::fmt_table;
use crate::rng::Rng;
use std::io::{BufWriter, Write};

fn h(x: f64) -> String {
    format!("{:064x}", x.to_bits())
}
fn b(v: bool) -> String {
    (v as u8).to_string()
}
fn operand(r: &mut Rng, other: u64) -> u64 {
    let frac = match r.below(6) {
        0 => 0,
        1 => (1 << 52) - 1,
        2 => 1u64 << r.below(52),
        3 => (r.next() >> 12) >> r.below(52) << r.below(20),
        _ => r.next() >> 12,
    } & ((1 << 52) - 1);
    let e = match r.below(12) {
        0 => 0,
        1 => r.below(60),
        2 => 2046 - r.below(60),
        3 => 2047,
        4 => r.below(2048),
        5..=7 => ((other >> 52 & 0x7ff) as i64 + r.range(-60, 60)).clamp(0, 2046) as u64,
        8 => return other.wrapping_add(r.range(-2, 2) as u64),
        _ => (1023 + r.range(-60, 60)) as u64,
    };
    let f = if e == 2047 && r.chance(2, 3) { 0 } else { frac };
    (r.below(2) << 63) | e << 52 | f
}

pub fn record(seed: u64, n: usize, path: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = BufWriter::new(std::fs::File::create(path).unwrap());
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 64);
    let ops = [
        "add", "sub", "mul", "div", "rem", "fma", "sqrt", "recip", "integral", "cmp", "tcmp", "minmax", "clamp", "class", "fmt", "fmt",
        "fmt", "round", "short", "parse", "fromint", "fromf32", "neg", "abs",
    ];
    for i in 0..n {
        let op = ops[i % ops.len()];
        let a = operand(&mut r, 1023 << 52);
        let c = operand(&mut r, a);
        let d = match r.below(4) {
            0 => operand(&mut r, c),
            // next to the product: cancellation
            _ => (-f64::from_bits(a) * f64::from_bits(c)).to_bits().wrapping_add(r.range(-2, 2) as u64),
        };
        let (x, y, z) = (f64::from_bits(a), f64::from_bits(c), f64::from_bits(d));
        let six = |v: f64| vec![h(v); 6];
        let mut s = Scn { op: op.into(), ..Default::default() };
        s.a = vec![(0, a as u128)];
        let two = matches!(op, "add" | "sub" | "mul" | "div" | "rem" | "cmp" | "tcmp" | "minmax" | "fma" | "clamp");
        if two {
            s.a.push((0, c as u128));
        }
        if op == "fma" || op == "clamp" {
            s.a.push((0, d as u128));
        }
        let mut o = vec![];
        let res = match op {
            "add" => six(x + y),
            "sub" => six(x - y),
            "mul" => six(x * y),
            "div" => six(x / y),
            "rem" => six(x % y),
            "fma" => vec![h(x.mul_add(y, z))],
            "sqrt" => vec![h(x.sqrt())],
            "recip" => vec![h(x.recip())],
            "integral" => vec![
                h(x.trunc()),
                h(x.floor()),
                h(x.ceil()),
                h(x.round()),
                h(x.round_ties_even()),
                h(x.fract()),
                h(x.trunc()),
                h(x.fract()),
            ],
            "neg" => vec![h(-x), h(-x)],
            "abs" => vec![h(x.abs())],
            "cmp" => vec![
                b(x == y),
                b(x != y),
                b(x < y),
                b(x <= y),
                b(x > y),
                b(x >= y),
                x.partial_cmp(&y).map(|v| (v as i8).to_string()).unwrap_or("N".into()),
            ],
            "tcmp" => vec![(x.total_cmp(&y) as i8).to_string()],
            "minmax" => vec![h(x.min(y)), h(x.max(y))],
            "clamp" => vec![std::panic::catch_unwind(|| h(x.clamp(y, z))).unwrap_or("PANIC".into())],
            "class" => vec![
                b(x.is_nan()),
                b(x.is_infinite()),
                b(x.is_finite()),
                b(x.is_subnormal()),
                b(x.is_normal()),
                b(x.is_sign_positive()),
                b(x.is_sign_negative()),
                b(x == 0.0),
                b(x == 0.0 || !x.is_finite()),
                format!("{:?}", x.classify()),
            ],
            "fromint" => {
                let v = (((r.next() as u128) << 64 | r.next() as u128) >> r.below(128)) as i128 >> 1;
                let v = if r.chance(1, 2) { -v } else { v };
                s.a.clear();
                s.n = vec!["-80".into(), crate::exec::ih(v)];
                vec![h(v as f64)]
            }
            "fromf32" => {
                let v = if r.chance(1, 4) { (r.next() >> 32) as u32 & 0x807f_ffff } else { (r.next() >> 32) as u32 };
                s.a.clear();
                s.n = vec![format!("{:x}", v)];
                vec![h(f32::from_bits(v) as f64)]
            }
            "parse" => {
                let v = f64::from_bits(a);
                let t = match r.below(6) {
                    0 => format!("{}{}e{}", r.next(), r.next(), r.range(-360, 310)),
                    1 => format!("{}.{}", r.next() >> r.below(60), r.next()),
                    2 => format!("{:.*e}", r.below(30) as usize, v),
                    3 if v.is_finite() && v.abs() < 1e30 => {
                        // the exact middle of two neighbours
                        let k = r.range(1, 1 << 53) * 2 + 1;
                        format!("{}{}", k, ["", ".0", "e0", "00e-2", ".000000000000001", ".5"][r.below(6) as usize])
                    }
                    4 => ["inf", "-Infinity", "nan", "", ".", "1e", "1e5x", "+", "-.5e-3", "1_0", " 1", "0x1", "1e400", "1e-400", "-0"]
                        [r.below(15) as usize]
                        .to_string(),
                    _ => format!("{:e}", v),
                };
                s.a.clear();
                s.s = t.as_bytes().to_vec();
                let v = match t.parse::<f64>() {
                    Ok(v) => h(v),
                    Err(e) => (if e.to_string().contains("empty") { "ERR:empty" } else { "ERR:invalid" }).into(),
                };
                vec![v; 4]
            }
            "round" | "short" => {
                let k = r.below(3);
                let t = match k {
                    0 => x.to_string(),
                    1 => format!("{:e}", x),
                    _ => format!("{:E}", x),
                };
                s.n = vec![k.to_string()];
                o = t.chars().map(|c| c as u32).collect();
                vec![if op == "round" { h(t.parse::<f64>().unwrap()) } else { String::new() }]
            }
            _ => {
                let (kind, fill, align, plus, zero) = (r.below(3), r.below(4), r.below(4), r.below(2), r.below(2));
                let zero = if x.is_nan() { 0 } else { zero }; // f256 never pads NaN with zeroes
                let w = if zero == 1 || r.chance(2, 3) { r.range(0, 60) } else { -1 };
                let p = if r.chance(2, 3) { r.range(0, 75) } else { -1 };
                let fill = if align == 0 { 0 } else { fill };
                s.n = [kind as i128, fill as i128, align as i128, plus as i128, zero as i128, w as i128, p as i128].iter().map(|v| crate::exec::ih(*v)).collect();
                let t = fmt_table::fmt(
                    &x,
                    kind as u8,
                    fill as u8,
                    align as u8,
                    plus == 1,
                    zero == 1,
                    if w < 0 { None } else { Some(w as usize) },
                    if p < 0 { None } else { Some(p as usize) },
                );
                o = t.chars().map(|c| c as u32).collect();
                vec![]
            }
        };
        writeln!(w, "{}", event(&s, &res, &o)).unwrap();
    }
}
