#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tests/ and the unit tests compare a few dozen to a few thousand stored or hand-picked cases; "
P = []

def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}))))

prop("C01", "Addition and subtraction are correctly rounded",
     "For all finite operands x + y and x - y are the exact sum and difference rounded once to 237 bits, to nearest with ties to even, with gradual underflow and overflow to infinity. An exact zero sum is +0 unless both addends are -0 (for a difference: x = -0 and y = +0). NaN operands and infinity minus infinity give NaN, other infinite operands dominate.",
     "every pair of encodings (2^512), in particular every alignment distance, cancellation length and tie",
     T + "alignment shifts, sticky bits and carries fail only for particular exponent distances and bit patterns.",
     ["src/binops/add.rs"], [("alignment, sticky bit, rounding", "src/binops/add.rs"), ("rounding of wide significands", "src/big_uint/")])
prop("C02", "Multiplication and squaring are correctly rounded",
     "x * y is the exact product rounded once (nearest, ties to even, gradual underflow, overflow to infinity) with the sign the XOR of the operands' signs; square(x) equals x * x. Zero times infinity is NaN.",
     "every pair of encodings, including subnormal operands and results",
     T + "double rounding at the underflow threshold and ties need products with exact bit patterns.",
     ["src/binops/mul.rs", "src/fused_ops/"], [("product of 237-bit significands with sticky bit", "src/binops/mul.rs"), ("square", "src/lib.rs")])
prop("C03", "Division and reciprocal are correctly rounded",
     "x / y is the exact quotient rounded once (nearest, ties to even, gradual underflow, overflow to infinity) with the sign the XOR of the operands' signs; recip(x) equals 1 / x. A finite non-zero number over zero is an infinity, 0/0 and inf/inf are NaN, a finite number over infinity is a zero.",
     "every pair of encodings, including subnormal operands and results",
     T + "a wrong quotient digit or sticky bit shows up only for quotients next to a midpoint.",
     ["src/binops/div.rs"], [("long division with remainder as sticky bit", "src/binops/div.rs")])
prop("C04", "The remainder is exact and takes the sign of the dividend",
     "For finite x and finite non-zero y, x % y is exactly x - n*y for the integer n = trunc(x/y), without rounding, however far the exponents are apart, and has the sign of x even when it is zero. x % inf is x for finite x; NaN operands, an infinite x or a zero y give NaN.",
     "every pair of encodings, with exponent distances up to 524000",
     T + "the reduction loops depend on exponent distance and on both significands.",
     ["src/binops/rem.rs"], [("modular reduction", "src/binops/rem.rs")])
prop("C05", "Fused multiply-add rounds once",
     "x.mul_add(y, z) is the exact x*y + z rounded once (nearest, ties to even, gradual underflow, overflow to infinity), and x.square_add(a) equals x.mul_add(x, a). Special operands behave as in IEEE 754: an invalid product (0 * inf) or opposing infinities give NaN, and an exact zero is +0 unless product and addend are both negative (zero).",
     "every triple of encodings (2^768): all relative positions of product and addend, cancellation, subnormals",
     T + "cancellation that exposes the low half of the product needs operands built for it.",
     ["src/fused_ops/"], [("fused multiply-add", "src/fused_ops/fma.rs"), ("square_add", "src/lib.rs")])
prop("C06", "The sum of two squares rounds once",
     "x.sum_of_squares(y) is the exact x*x + y*y rounded once (nearest, ties to even, gradual underflow, overflow to infinity). It is NaN exactly if an operand is NaN, and +infinity if an operand is infinite and none is NaN.",
     "every pair of encodings",
     T + "ties and sticky bits across the two products need special pairs.",
     ["src/fused_ops/sos.rs"], [("sum of squares", "src/fused_ops/sos.rs")])
prop("C07", "The square root is correctly rounded",
     "sqrt(x) is the exact square root rounded to nearest for every x >= 0, including subnormal ones. sqrt(+-0) is +-0, sqrt(+inf) is +inf, negative numbers and NaN give NaN.",
     "every encoding",
     T + "the last bit is at risk only for arguments next to squares of midpoints.",
     ["src/math/sqrt.rs"], [("square root", "src/math/sqrt.rs")])
prop("C08", "Scaling by powers of two is exact or rounded once",
     "mul2, div2, mul_pow2(n) and div_pow2(n) return x * 2^(+-n) for every n of type u32, exact unless the result is subnormal, rounded once (nearest, ties to even) if it is, overflowing to infinity or underflowing to zero with the sign of x. Zeroes, infinities and NaN are unchanged.",
     "every encoding and every u32",
     T + "the edges are at exponent sums that the tests do not visit (subnormal to normal, rounding up to the least normal, huge n).",
     ["src/lib.rs"], [("mul_pow2 / div_pow2", "src/lib.rs")])
prop("C09", "Rounding to integral values follows the direction and keeps the sign",
     "trunc, floor, ceil, round (ties away from zero) and round_tie_even return the integral value their name says, exactly, with the sign of x even when it is zero, and return integral values, infinities and NaN unchanged. fract returns x - trunc(x) exactly (NaN for infinities) and split() is the pair (trunc, fract).",
     "every encoding: every position of the binary point, ties, values next to a tie",
     T + "mask and carry errors occur at single exponents or for a fraction of all ones.",
     ["src/lib.rs"], [("trunc/round by masking the fraction", "src/lib.rs")])
prop("C10", "Comparison, min, max and clamp agree with the numeric order",
     "==, <, <=, >, >= and partial_cmp agree with the numeric order of the values, with -0 equal to +0 and NaN unordered. min and max return the smaller and larger operand and ignore a single NaN; clamp returns the nearest value in [min, max] and panics exactly if min <= max does not hold. (Known finding: two operands with the sign bit set compare in reverse.)",
     "every pair (triple) of encodings",
     T + "order is a property of all pairs; the tests compare a handful and two of them encode the wrong order for negative numbers.",
     ["src/binops/cmp.rs", "src/lib.rs"], [("partial_cmp via total_cmp", "src/binops/cmp.rs"), ("min/max/clamp", "src/lib.rs")])
prop("C11", "total_cmp is a total order of all encodings",
     "total_cmp orders all encodings: it is antisymmetric, transitive, equal only for identical encodings, places -0 before +0, positive NaN above and negative NaN below everything, and for values of different sign or both positive it agrees with the numeric order. (Known finding: two operands with the sign bit set are ordered in reverse.)",
     "every pair of encodings, NaN payloads included",
     T + "a total order is a statement about all pairs.",
     ["src/lib.rs"], [("total_cmp", "src/lib.rs")])
prop("C12", "Classification, sign, parts and ulp describe the encoding",
     "is_nan, is_infinite, is_finite, is_subnormal, is_normal, eq_zero, is_special, is_sign_positive/negative and classify describe the encoding consistently, including NaNs with any payload. neg flips and abs clears only the sign; ulp is the exact distance 2^(e-236) of the last place (the least subnormal for subnormal numbers and zero), NaN for infinities and NaN. Splitting a finite non-zero number into sign, exponent and odd significand and putting it together again is lossless.",
     "every encoding, including non-canonical NaNs",
     T + "classes depend on both 128-bit halves; NaN payloads in only one half are not tested.",
     ["src/lib.rs"], [("classification by bit masks", "src/lib.rs"), ("ulp", "src/lib.rs"), ("encode/decode", "src/lib.rs")])
prop("C13", "Bits and bytes round-trip losslessly",
     "to_bits/from_bits and to/from_{be,le,ne}_bytes are lossless inverses for every encoding, NaN payloads included. The big-endian bytes are the IEEE 754 binary256 interchange encoding (sign, 19 exponent bits, 236 fraction bits) and the little-endian bytes are the same bytes reversed.",
     "every encoding",
     T + "a swapped or masked byte is visible only for encodings in which it differs.",
     ["src/lib.rs"], [("byte conversion", "src/lib.rs")])
prop("C14", "Conversion from integers is exact or correctly rounded",
     "From<u8..u128> and From<i8..i128> yield the value of the integer, exactly, for every integer of these types, including the minimum of each signed type.",
     "every value of ten integer types",
     T + "tests sample some values of some types.",
     ["src/conv/from_int.rs"], [("integer conversion", "src/conv/")])
prop("C15", "Conversion from f32 and f64 is exact",
     "From<f32> and From<f64> preserve the value exactly for every finite argument including subnormal ones and signed zeroes, map infinities to infinities of the same sign and every NaN to NaN.",
     "every f32 and f64 encoding",
     T + "subnormal arguments have their own normalisation path.",
     ["src/conv/from_float.rs"], [("float conversion", "src/conv/")])
prop("C16", "Parsing accepts exactly the documented grammar",
     "Parsing accepts exactly the grammar of the built-in floats: optional sign, then inf / infinity / nan in any case or decimal digits with an optional point (at least one digit) and an optional exponent e[+-]digits. The empty string is reported as empty, everything else as invalid, and no string whatsoever causes a panic. from_str, parse, try_from and from_str_radix(10) agree, and any other radix is rejected.",
     "every string", T + "the space of malformed strings and of extreme exponents is unbounded.",
     ["src/conv/from_str/", "src/num_traits.rs"], [("literal parser", "src/conv/"), ("from_str_radix", "src/num_traits.rs")])
prop("C17", "Parsed decimal numbers are correctly rounded",
     "Every valid decimal literal, with any number of digits and any exponent, is converted to the f256 nearest to its exact value, ties to even, with gradual underflow to signed zero and overflow to signed infinity. Different spellings of the same value give the same result.",
     "every valid literal", T + "midpoints have up to 260000 digits; the fast paths and the fall-back each have ranges of digits and exponents of their own.",
     ["src/conv/from_str/", "src/conv/big_decimal.rs"], [("fast paths and big-decimal fall-back", "src/conv/")])
prop("C18", "Formatting with a precision shows the correctly rounded digits",
     "{:.p} (for |x| < 2^237), {:.pe} and {:.pE} with p <= 75 show the exact value of x rounded half-to-even at the requested digit; in fixed-point notation larger numbers show an integer that reads back as x followed by p zeroes. A precision above 75 panics for finite non-zero numbers, as documented. (Known finding: the digit tables are too narrow for values that are within 2^-24 of an integer when scaled by a power 10^19k.)",
     "every finite encoding, every precision 0..75, three notations",
     T + "carries (9.99..95), ties and chunk borders need particular values.",
     ["src/conv/to_str/to_fixed_prec.rs", "src/conv/to_str/mod.rs", "src/conv/to_str/common.rs"],
     [("chunked digit generation", "src/conv/to_str/to_fixed_prec.rs")])
prop("C19", "Default formatting is shortest and round-trips",
     "Without a precision, {}, {:e} and {:E} print the shortest decimal significand that reads back as exactly x, and among those the closest to x (a power of ten, a single 1, is preferred to other single digits). Parsing the output of {}, {:e} or {:E} yields x again for every x that is not NaN.",
     "every encoding that is not NaN, three notations",
     T + "boundary cases (powers of two, exact ties, subnormals) are rare among random values.",
     ["src/conv/to_str/dec_repr.rs", "src/conv/from_str/"], [("Ryu-style shortest digits", "src/conv/to_str/dec_repr.rs")])
prop("C20", "Sign, width, fill, alignment and zero flags act as for built-in floats",
     "The formatting flags (+, 0, width, fill, left/centre/right alignment) act on the output of {}, {:e} and {:E} as they do for built-in floats: the text is padded to at least the width, right-aligned by default, zeroes go between sign and digits. Infinities print as inf and -inf, NaN as NaN without a sign and padded with the fill character, zero with its sign.",
     "every combination of flags and value", T + "tests cover a few combinations of flags.",
     ["src/conv/to_str/mod.rs", "src/conv/to_str/formatted.rs"], [("padding", "src/conv/to_str/formatted.rs")])
prop("C21", "Angle unit conversion is accurate",
     "to_radians is within 0.51 and to_degrees within 1.25 units in the last place of x*pi/180 and x*180/pi for every finite x, including subnormal arguments, subnormal results and overflow. Signed zeroes, infinities and NaN are unchanged.",
     "every encoding", T + "errors depend on the significand; subnormal and huge arguments have their own path.",
     ["src/lib.rs"], [("multiplication by a 256-bit constant", "src/lib.rs")])
prop("C22", "Logarithms are accurate to the last place",
     "ln, log2 and log10 of every finite x > 0 are within 0.51 units in the last place of the exact logarithm, also next to 1 where it vanishes. The logarithm of 1 is +0; arguments that are not finite and positive give NaN.",
     "every encoding", T + "accuracy near 1 and for subnormal arguments is not sampled.",
     ["src/math/log.rs", "src/math/big_float.rs", "src/math/fp509.rs"], [("table and series evaluation", "src/math/")])
prop("C23", "Sine, cosine and tangent are accurate for every argument",
     "sin and cos of every finite x are within 0.51 and tan within 2 units in the last place of the exact value, also for huge arguments and arguments next to multiples of pi/2, and sin_cos equals the pair of both within that bound. sin and tan of +-0 are +-0, cos(0) is 1, infinities and NaN give NaN.",
     "every encoding: 2^19 exponents times significands near multiples of pi/2",
     T + "argument reduction loses accuracy only for particular arguments.",
     ["src/math/circular_fns/"], [("argument reduction", "src/math/circular_fns/"), ("Taylor/Chebyshev evaluation", "src/math/circular_fns/")])
prop("C24", "Inverse trigonometric functions are accurate",
     "asin, acos, atan and y.atan2(x) are within 1 unit in the last place of the exact value over their whole domains, with the quadrant and sign that the signs of the arguments determine. |x| > 1, infinities and NaN give NaN for asin and acos; atan(+-inf) is +-pi/2 and atan2 handles zero and infinite coordinates as documented.",
     "every (pair of) encodings", T + "accuracy near the ends of the domain and for tiny quotients is not sampled.",
     ["src/math/circular_fns/"], [("asin/acos/atan/atan2", "src/math/circular_fns/")])
prop("C25", "Special values flow through every operation without a panic",
     "Every arithmetic, rounding, scaling, elementary and formatting operation terminates without a panic for every combination of zeroes, subnormal numbers, extreme finite numbers, infinities and NaNs (any sign and payload), and returns what IEEE 754 and the documentation define. The only panics are the documented ones (clamp with an invalid range, precision above 75). (Known finding: ln_1p and log(base) are not implemented and always panic.)",
     "every operation times every class of operand",
     T + "the product of operations and operand classes is not covered.",
     ["src/"], [("special-case prologues of all operations", "src/binops/, src/fused_ops/, src/math/")])
prop("C26", "All operator forms and trait entry points agree",
     "For + - * / % the forms value/value, reference/value, value/reference, reference/reference and both assigning forms give the same result. Zero, One, Default, is_zero, is_one, set_zero and set_one of the traits agree with the inherent constants and predicates.",
     "every pair of encodings and every form", T + "tests exercise one or two forms.",
     ["src/binops/", "src/num_traits.rs"], [("operator forwarding", "src/binops/mod.rs")])
prop("C27", "Published constants are correctly rounded",
     "The mathematical constants are the f256 nearest to the exact value (pi and its fractions, e, sqrt 2, sqrt 5, the golden ratio, Euler's constant ...). EPSILON, MIN, MAX, MIN_POSITIVE, MIN_GT_ZERO, RADIX, MANTISSA_DIGITS, MAX_EXP and MIN_EXP describe the format.",
     "all 32 constants, every bit", "the tests do not compare the constants with an independent source; a wrong low bit goes unnoticed.",
     ["src/consts.rs", "src/lib.rs"], [("constants", "src/consts.rs")], over=("configurations",))
prop("C28", "Any sequence of operations computes what its steps say",
     "A program that keeps f256 values in variables and applies arithmetic, fused, rounding, scaling, comparison, square root and text conversion operations to them in any order, feeding results into later operations, holds after every step exactly the values that the IEEE 754 semantics of the steps prescribe. In particular results of overflow, underflow and invalid operations propagate correctly and no operation depends on earlier ones, nor on what other threads do at the same time.",
     "every finite program over the operations and every initial content of its variables",
     "tests apply single operations to stored operands; operands that are themselves results (cancelling, nearly equal, subnormal) hardly occur.",
     ["src/"], [("composition of the public operations", "src/")], over=("programs", "histories"))

NA = {}
CHECKED = "TLA+ specification; TLC validates recorded API traces against it and explores its small instances"

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    notes = json.load(open(os.path.join(V, "tools", "notes.json")))
    for p in P:
        i = p["id"]
        if i in NA:
            continue
        n = notes.get(i, notes["*"])
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} quick", thorough_cmd=f"./check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=n.get("technique", CHECKED), level="model_checking",
                           level_note=n["note"]))
    m = dict(version=1, setup_cmd="./setup.sh release checked", checks=checks,
             not_applicable=[dict(property=i, reason=r) for i, r in NA.items()],
             notes="No hooks: the checks use the public interface of the crate only.  See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

main()
