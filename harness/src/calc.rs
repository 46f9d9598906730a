//! The calculator: a register machine over f256.
//! `replay` runs behaviours written by spec/CalcGen.tla and compares every step with the value the
//! specification predicts; `programs` runs random programs and records them for spec/ProgTrace.tla.
use crate::exec::{self, hex, ihp, to, Scn};
use crate::gen;
use crate::rng::{Rng, B};
use ::f256::f256;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn val(s: &str) -> B {
    (u128::from_str_radix(&s[..32], 16).unwrap(), u128::from_str_radix(&s[32..], 16).unwrap())
}
fn nan(b: B) -> bool {
    (b.0 >> 108) & 0x7ffff == 0x7ffff && (b.0 << 20 != 0 || b.1 != 0)
}
fn same(a: B, b: B) -> bool {
    a == b || (nan(a) && nan(b))
}

/// One step on the registers; the value of the destination register afterwards, or a text.
fn step(r: &mut [f256], op: &str, d: usize, s: &[usize], n: &[i128], want: &str) -> String {
    let x = s.first().map(|i| r[*i]).unwrap_or(f256::ZERO);
    let y = s.get(1).map(|i| r[*i]).unwrap_or(f256::ZERO);
    let z = s.get(2).map(|i| r[*i]).unwrap_or(f256::ZERO);
    let inplace = s.first() == Some(&d);
    match op {
        "load" => r[d] = to(val(want)),
        "fromint" => r[d] = f256::from(n[0]),
        "add" if inplace => r[d] += y,
        "sub" if inplace => r[d] -= &y,
        "mul" if inplace => r[d] *= y,
        "div" if inplace => r[d] /= &y,
        "rem" if inplace => r[d] %= y,
        "add" => r[d] = &x + y,
        "sub" => r[d] = x - &y,
        "mul" => r[d] = &x * &y,
        "div" => r[d] = x / y,
        "rem" => r[d] = &x % &y,
        "sos" => r[d] = x.sum_of_squares(y),
        "sqadd" => r[d] = x.square_add(y),
        "fma" => r[d] = x.mul_add(y, z),
        "min" => r[d] = x.min(y),
        "max" => r[d] = x.max(y),
        "neg" => r[d] = -x,
        "abs" => r[d] = x.abs(),
        "sqrt" => r[d] = x.sqrt(),
        "square" => r[d] = x.square(),
        "recip" => r[d] = x.recip(),
        "trunc" => r[d] = x.trunc(),
        "floor" => r[d] = x.floor(),
        "ceil" => r[d] = x.ceil(),
        "round" => r[d] = x.round(),
        "rte" => r[d] = x.round_tie_even(),
        "fract" => r[d] = x.fract(),
        "mul2" => r[d] = x.mul2(),
        "div2" => r[d] = x.div2(),
        "mulp2" => r[d] = x.mul_pow2(n[0] as u32),
        "divp2" => r[d] = x.div_pow2(n[0] as u32),
        "ulp" => r[d] = x.ulp(),
        "copy" => r[d] = x,
        "text" => {
            let t = match n[0] {
                0 => x.to_string(),
                1 => format!("{:e}", x),
                _ => format!("{:E}", x),
            };
            r[d] = t.parse().unwrap();
        }
        "sci" => r[d] = format!("{:.*e}", n[0] as usize, x).parse().unwrap(),
        "cmp" => {
            return match x.partial_cmp(&y) {
                None => "N".into(),
                Some(o) => {
                    let agree = (o == core::cmp::Ordering::Less) == (x < y)
                        && (o == core::cmp::Ordering::Equal) == (x == y)
                        && (o == core::cmp::Ordering::Greater) == (x > y);
                    if agree { (o as i8).to_string() } else { "inconsistent".into() }
                }
            }
        }
        "class" => return format!("{:?}", x.classify()),
        other => panic!("unknown step {other}"),
    }
    hex(r[d].to_bits())
}

pub fn replay(path: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = BufWriter::new(std::fs::File::create(out).unwrap());
    let mut r: Vec<f256> = vec![];
    let (mut programs, mut steps) = (0, 0);
    let mut since = 0;
    for (no, line) in std::fs::read_to_string(path).unwrap().lines().enumerate() {
        let f: Vec<&str> = line.split('|').collect();
        if f[0] == "begin" {
            r = f[4].split(',').map(|t| to(val(t))).collect();
            programs += 1;
            since = no;
            continue;
        }
        steps += 1;
        let d: usize = f[1].parse::<usize>().unwrap() - 1;
        let s: Vec<usize> = f[2].split(',').filter(|t| !t.is_empty()).map(|t| t.parse::<usize>().unwrap() - 1).collect();
        let n: Vec<i128> = f[3].split(',').filter(|t| !t.is_empty()).map(ihp).collect();
        let before: Vec<B> = r.iter().map(|x| x.to_bits()).collect();
        let got = catch_unwind(AssertUnwindSafe(|| step(&mut r, f[0], d, &s, &n, f[4]))).unwrap_or("PANIC".into());
        let textual = matches!(f[0], "cmp" | "class");
        let good = if textual { got == f[4] } else { got.len() == 64 && same(val(&got), val(f[4])) };
        // no step touches a register other than its destination
        let frame = (0..r.len()).all(|i| r[i].to_bits() == before[i] || (i == d && !textual));
        if !good || !frame {
            let a: Vec<String> = s.iter().map(|i| format!("\"{}\"", hex(before[*i]))).collect();
            writeln!(
                w,
                "{{\"program\":{},\"line\":{},\"begin\":{},\"step\":\"{}\",\"operands\":[{}],\"predicted\":\"{}\",\"got\":\"{}\",\"frame\":{}}}",
                programs, no + 1, since + 1, line, a.join(","), f[4], got, frame
            )
            .unwrap();
            for (i, b) in before.iter().enumerate() {
                r[i] = to(*b);
            }
            if !textual {
                r[d] = to(val(f[4]));
            }
        }
    }
    writeln!(w, "{{\"programs\":{},\"steps\":{}}}", programs, steps).unwrap();
}

const REGS: usize = 6;
const BIN: [&str; 9] = ["add", "sub", "mul", "div", "rem", "sos", "sqadd", "atan2", "minmax"];
const UN: [&str; 26] = [
    "neg", "abs", "sqrt", "square", "recip", "integral", "mul2", "div2", "ulp", "mulp2", "divp2", "round", "ln", "log2", "log10", "sin",
    "cos", "tan", "asin", "acos", "atan", "deg", "rad", "class", "sincos", "bytes",
];

/// Random programs: the even ones one after the other, the odd ones in eight threads at the same time.
pub fn programs(seed: u64, n: usize, len: usize, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut lines: Vec<String> = (0..n).step_by(2).map(|p| program(seed, p, len)).collect();
    let start = std::sync::Barrier::new(8);
    let parallel: Vec<Vec<String>> = std::thread::scope(|s| {
        let start = &start;
        let ts: Vec<_> = (0..8)
            .map(|k| {
                s.spawn(move || {
                    start.wait();
                    (1..n).step_by(2).filter(|p| p / 2 % 8 == k).map(|p| program(seed, p, len)).collect()
                })
            })
            .collect();
        ts.into_iter().map(|t| t.join().unwrap()).collect()
    });
    lines.extend(parallel.into_iter().flatten());
    let mut w = BufWriter::new(std::fs::File::create(out).unwrap());
    for l in lines {
        writeln!(w, "{l}").unwrap();
    }
}

/// One program; the operands recorded are read from the registers by to_bits.
fn program(seed: u64, p: usize, len: usize) -> String {
    let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (p as u64) << 20);
    let mut r: Vec<f256> = (0..REGS).map(|_| to(gen::operand(&mut rng, None))).collect();
    let init: Vec<String> = r.iter().map(|x| format!("\"{}\"", hex(x.to_bits()))).collect();
    let mut events = vec![];
    while events.len() < len {
        let op = match rng.below(10) {
            0 | 1 | 2 => rng.pick(&BIN),
            3 | 4 => "fma",
            5 => "add",
            6 => "sub",
            _ => rng.pick(&UN),
        };
        let k = if op == "fma" { 3 } else if BIN.contains(&op) { 2 } else { 1 };
        let s: Vec<usize> = (0..k).map(|_| rng.below(REGS as u64) as usize).collect();
        let d = rng.below(REGS as u64) as usize;
        let a: Vec<B> = s.iter().map(|i| r[*i].to_bits()).collect();
        if op == "minmax" && a[0].0 >> 127 == 1 && a[1].0 >> 127 == 1 {
            continue; // the recorded finding
        }
        let tame = |b: B| ((b.0 >> 108) & 0x7ffff).abs_diff(262143) < 3000 || nan(b);
        if op == "round" && !tame(a[0]) {
            continue;
        }
        let n: Vec<String> = match op {
            "mulp2" | "divp2" => {
                let m = rng.pick(&[4u64, 300, 263000, 525000, 0xffff_ffff]);
                vec![format!("{:x}", rng.below(m + 1))]
            }
            "round" => vec![format!("{:x}", rng.below(3))],
            _ => vec![],
        };
        let c = Scn { op: op.to_string(), a, n, s: vec![] };
        let e = exec::exec(&c);
        // the first datum of the answer goes to the register
        let at = e.find("\"r\":[\"").unwrap() + 6;
        let first = &e[at..at + e[at..].find('"').unwrap()];
        let stored = first.len() == 64 && op != "class";
        if stored {
            r[d] = to(val(first));
        } else if first == "PANIC" {
            events.push(format!("{},\"src\":[{}],\"dst\":0}}", &e[..e.len() - 1], list(&s)));
            break;
        }
        events.push(format!("{},\"src\":[{}],\"dst\":{}}}", &e[..e.len() - 1], list(&s), if stored { d + 1 } else { 0 }));
        // dead registers come back to life
        let b = r[d].to_bits();
        if nan(b) && rng.chance(4, 5) || (b.0 << 1 == 0 && b.1 == 0) && rng.chance(1, 2) {
            let o = r[rng.below(REGS as u64) as usize].to_bits();
            let x = gen::operand(&mut rng, Some(o));
            r[d] = to(x);
            events.push(format!("{{\"op\":\"load\",\"a\":[],\"n\":[],\"s\":[],\"r\":[\"{}\"],\"o\":[],\"src\":[],\"dst\":{}}}", hex(x), d + 1));
        }
    }
    format!("{{\"init\":[{}],\"events\":[{}]}}", init.join(","), events.join(","))
}
fn list(s: &[usize]) -> String {
    s.iter().map(|i| (i + 1).to_string()).collect::<Vec<_>>().join(",")
}
