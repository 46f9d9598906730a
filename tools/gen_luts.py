#!/usr/bin/env python3
"""Rebuild the four lookup-table crates f256 depends on.

The sources of the *_lut crates are not part of the repository.  Their tables are defined by
/repo/analysis/gen_ryu_helper_tables.py and gen_ryu_print_helper_tables.py; this script computes
the same tables (with interval arithmetic instead of 180000-bit divisions, so it takes seconds)
and writes crates with the interface that f256 uses.  The two Ryu tables hold four times the value
that gen_ryu_helper_tables.py prints (510 + 2 = 512: see the comments in
src/conv/to_str/dec_repr.rs, whose unit tests confirm it).
usage: gen_luts.py OUTDIR
"""
import os, sys
from math import ceil, floor, log10, log2

P = 237
EMAX = 262143
EMIN = 1 - EMAX
K = 501
W = 2048                      # working precision of the intervals


class Pow:
    """m * 2^e <= base^i <= (m + err) * 2^e, with m of about W bits (exact while it fits)."""
    def __init__(self, base):
        self.base, self.m, self.e, self.err, self.i = base, 1, 0, 0, 0

    def step(self):
        self.m *= self.base
        self.err *= self.base
        self.i += 1
        k = self.m.bit_length() - W
        if k > 0:
            if self.m & ((1 << k) - 1):
                self.err += 1 << k
            self.m >>= k
            self.err = -(-self.err >> k)
            self.e += k


def u128s(t, n):
    return b''.join(((t >> (128 * (n - 1 - i))) & (2 ** 128 - 1)).to_bytes(16, 'little') for i in range(n))


def same(a, b):
    assert a == b, "interval too wide"
    return a


def shift(n, k):
    return n << k if k >= 0 else n >> -k


def gen_ge():
    gmax = floor((EMAX - P - 1) * log10(2)) - 1
    p, out = Pow(5), []
    for g in range(gmax + 1):
        # bit length of 5^g
        bl = same(p.m.bit_length(), (p.m + p.err).bit_length()) + p.e
        h = bl - 1 + K
        if p.e == 0 and p.err == 0:
            t = (1 << h) // p.m + 1
        else:
            t = same((1 << (h - p.e)) // (p.m + p.err), (1 << (h - p.e)) // p.m) + 1
        out.append(u128s(4 * t, 4))
        p.step()
    return b''.join(out)


def gen_lt():
    emin = EMIN - P - 1
    gmax = floor(-emin * log10(5)) - 1
    p, out = Pow(5), []
    for i in range(-emin - gmax + 1):
        bl = same(p.m.bit_length(), (p.m + p.err).bit_length()) + p.e
        h = bl - K
        out.append(u128s(same(shift(p.m, p.e - h + 2), shift(p.m + p.err, p.e - h + 2)), 4))
        p.step()
    return b''.join(out)


T = 384
CHUNK_SIZE = 19
COMPRESSION_RATE = 32
BITS = T - 16 - ceil(log2(10 ** CHUNK_SIZE))
MOD = (10 ** CHUNK_SIZE) << BITS
assert MOD.bit_length() < T
CHUNK_CUTOFF = ceil(75 / CHUNK_SIZE) + 2


def powers(base, n):
    """All base^i for i in 0..n as (m, e, err)."""
    p, out = Pow(base), []
    for _ in range(n + 1):
        out.append((p.m, p.e, p.err))
        p.step()
    return out


def gen_pos():
    off = (512 - P) // COMPRESSION_RATE
    n = (EMAX + 1 - P) // COMPRESSION_RATE + 1 - off
    params, table = [], []
    top = (ceil(log10(2) * ((n + off) * COMPRESSION_RATE + P)) + 1) // CHUNK_SIZE + 1
    pw = powers(10 ** CHUNK_SIZE, top)
    for s in range(n):
        upper = (s + off + 1) * COMPRESSION_RATE - 1
        lower = upper - COMPRESSION_RATE + 1
        sh = lower + BITS
        first = (ceil(log10(2) * (upper + P - 1)) + 1) // CHUNK_SIZE
        params.append((first + 1, sh))
        for c in range(first, first - CHUNK_CUTOFF, -1):
            if c < 0:
                t = (((1 << sh) * 10 ** (-c * CHUNK_SIZE)) + 1) % MOD
            else:
                m, e, err = pw[c]
                k = sh - e
                if k < 0:
                    t = 1 % MOD
                elif e == 0 and err == 0:
                    t = ((1 << k) // m + 1) % MOD
                else:
                    t = (same((1 << k) // (m + err), (1 << k) // m) + 1) % MOD
            table.append(u128s(t, 3))
    return off, params, b''.join(table)


def gen_neg():
    off = (P - 1) // COMPRESSION_RATE
    n = (-EMIN + 2 * P - 1) // COMPRESSION_RATE + 1 - off
    params, table = [], []
    l2 = log10(2)
    pw = powers(10 ** CHUNK_SIZE, int((n + off) * COMPRESSION_RATE * l2 / CHUNK_SIZE) + 20)
    for s in range(n):
        upper = -(s + off) * COMPRESSION_RATE
        lower = upper - COMPRESSION_RATE + 1
        sh = BITS + lower
        zero = max(0, -ceil(l2 * (upper + P)) // CHUNK_SIZE)
        params.append((zero, sh))
        for c in range(zero + 1, zero + 1 + CHUNK_CUTOFF):
            m, e, err = pw[c]
            t = same(shift(m, e + sh), shift(m + err, e + sh)) % MOD
            table.append(u128s(t, 3))
    return off, params, b''.join(table)


def crate(out, name, version, src, blobs):
    d = os.path.join(out, name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(f'[package]\nname = "f256_{name}"\nversion = "{version}"\nedition = "2021"\n\n[dependencies]\n')
    for fn, b in blobs.items():
        with open(os.path.join(d, 'src', fn), 'wb') as f:
            f.write(b)
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src)


RD = '''
fn word(t: &[u8], idx: usize) -> u128 {
    let mut b = [0u8; 16];
    b.copy_from_slice(&t[idx * 16..idx * 16 + 16]);
    u128::from_le_bytes(b)
}
'''


def main():
    out = sys.argv[1]
    for name, fn, gen in (('pow2_div_pow5_lut', 'lookup_pow2_div_pow5', gen_ge),
                          ('pow5_div_pow2_lut', 'lookup_pow5_div_pow2', gen_lt)):
        crate(out, name, '0.1.1', f'''static TABLE: &[u8] = include_bytes!("table.bin");
{RD}
pub fn {fn}(idx: usize) -> (u128, u128, u128, u128) {{
    (word(TABLE, 4 * idx), word(TABLE, 4 * idx + 1), word(TABLE, 4 * idx + 2), word(TABLE, 4 * idx + 3))
}}
''', {'table.bin': gen()})
    off, params, table = gen_pos()
    crate(out, 'pow2_div_pow10_lut', '0.2.1', f'''static TABLE: &[u8] = include_bytes!("table.bin");
{RD}
const SEGMENT_OFFSET: usize = {off};
const COMPRESSION_RATE: usize = {COMPRESSION_RATE};
const CHUNK_CUTOFF: usize = {CHUNK_CUTOFF};
static PARAMS: [(u32, u32); {len(params)}] = {[tuple(p) for p in params]};

pub fn get_pow2_div_pow10_params(exp2: i32) -> (usize, (u32, u32)) {{
    let i = exp2 as usize / COMPRESSION_RATE - SEGMENT_OFFSET;
    (i, PARAMS[i])
}}

pub fn lookup_pow2_div_pow10(segment_idx: usize, chunk_idx: usize) -> (u128, u128, u128) {{
    assert!(chunk_idx < CHUNK_CUTOFF);
    let i = 3 * (segment_idx * CHUNK_CUTOFF + chunk_idx);
    (word(TABLE, i), word(TABLE, i + 1), word(TABLE, i + 2))
}}
''', {'table.bin': table})
    off, params, table = gen_neg()
    crate(out, 'pow10_div_pow2_lut', '0.1.1', f'''static TABLE: &[u8] = include_bytes!("table.bin");
{RD}
pub const CHUNK_SIZE: u32 = {CHUNK_SIZE};
pub const CHUNK_BASE: u64 = 10_u64.pow(CHUNK_SIZE);
pub const CHUNK_CUTOFF: u32 = {CHUNK_CUTOFF};
pub const COMPRESSION_RATE: u32 = {COMPRESSION_RATE};
pub const SHIFT: i32 = {BITS};
const SEGMENT_OFFSET: usize = {off};
static PARAMS: [(u32, i32); {len(params)}] = {[tuple(p) for p in params]};

pub fn get_pow10_div_pow2_params(exp2: i32) -> (usize, (u32, i32)) {{
    let i = (-exp2) as usize / COMPRESSION_RATE as usize - SEGMENT_OFFSET;
    (i, PARAMS[i])
}}

pub fn lookup_pow10_div_pow2(segment_idx: usize, chunk_idx: usize) -> (u128, u128, u128) {{
    assert!(chunk_idx < CHUNK_CUTOFF as usize);
    let i = 3 * (segment_idx * CHUNK_CUTOFF as usize + chunk_idx);
    (word(TABLE, i), word(TABLE, i + 1), word(TABLE, i + 2))
}}
''', {'table.bin': table})


main()
