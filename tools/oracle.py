#!/usr/bin/env python3-vt
"""oracle.py SEED N GOOD BAD: events of elementary functions computed by mpmath (an implementation that
shares nothing with spec/Elem.tla): GOOD holds correctly rounded answers, which the specification must
allow, BAD the same answers moved by more than the tolerated error, which it must reject."""
import json, random, sys
from mpmath import mp, mpf, ldexp, frexp, floor
import mpmath

P, BIAS, QMIN = 237, 262143, -262142 - 236
seed, n = int(sys.argv[1]), int(sys.argv[2])
rnd = random.Random(seed)


def enc(v):
    """nearest f256 (normal range), as an integer"""
    if v == 0:
        return 0
    s = 1 if v < 0 else 0
    m, e = frexp(abs(v))                       # v = m * 2^e, 1/2 <= m < 1
    k = int(mpmath.nint(ldexp(m, P)))
    if k == 2**P:
        k, e = k // 2, e + 1
    b = e - 1 + BIAS
    assert 0 < b < 2 * BIAS + 1
    return (s << 255) | ((b - 1) << 236) + k


def dec(x):
    a = x % 2**255
    b, f = a >> 236, a % 2**236
    v = ldexp(mpf((1 << 236) + f), b - BIAS - 236)
    return -v if x >> 255 else v


def operand(lo, hi, neg=True):
    e = rnd.randint(lo, hi)
    f = rnd.getrandbits(236)
    if rnd.random() < 0.3:
        f = rnd.choice([0, 1, 2**236 - 1, f >> rnd.randint(1, 235), (f >> 200) << 200])
    return (rnd.getrandbits(1) if neg else 0) << 255 | (BIAS + e) << 236 | f


OPS = {  # op: (exponent range, negative, function, shift in ulps that must be rejected)
    "ln": ((-3000, 3000), False, mp.log, 2), "log2": ((-3000, 3000), False, lambda x: mp.log(x, 2), 2),
    "log10": ((-3000, 3000), False, mp.log10, 2),
    "sin": ((-200, 2000), True, mp.sin, 2), "cos": ((-120, 2000), True, mp.cos, 2), "tan": ((-200, 2000), True, mp.tan, 4),
    "asin": ((-200, -1), True, mp.asin, 2), "acos": ((-200, -1), True, mp.acos, 2), "atan": ((-200, 400), True, mp.atan, 2),
    "atan2": ((-200, 200), True, mp.atan2, 2), "deg": ((-3000, 3000), True, mp.degrees, 3), "rad": ((-3000, 3000), True, mp.radians, 2),
    "near1": (None, False, None, 1),
}
good, bad = open(sys.argv[3], "w"), open(sys.argv[4], "w")
for i in range(n):
    op = list(OPS)[i % len(OPS)]
    rng, neg, f, shift = OPS[op]
    mp.prec = 6000
    if op == "near1":
        op, f = rnd.choice([("ln", mp.log), ("acos", mp.acos)])
        x = (BIAS << 236) + (rnd.getrandbits(rnd.randint(1, 230)) + 1) * (1 if op == "ln" else -1)
        shift = 2
    else:
        x = operand(*rng, neg)
    a = [x]
    if op == "atan2":
        a.append(operand(*rng, True))
    v = f(*[dec(t) for t in a])
    r = enc(v)
    ev = lambda r: json.dumps(dict(op=op, a=["%064x" % t for t in a], n=[], s=[], r=["%064x" % r], o=[]), separators=(",", ":"))
    good.write(ev(r) + "\n")
    bad.write(ev(r + rnd.choice([-shift, shift]) if r % 2**236 > 9 else r + shift) + "\n")
