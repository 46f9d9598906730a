------------------------------- MODULE Binary -------------------------------
(***************************************************************************)
(* A binary interchange format with precision P and exponent width EW, and *)
(* the meaning of every operation on it that does not involve text or      *)
(* elementary functions.  f256 is P = 237, EW = 19; the small formats that  *)
(* TLC explores exhaustively use the same definitions.                      *)
(*                                                                          *)
(* A datum is its encoding: an integer in 0 .. 2^(EW+P)-1.  Operations are  *)
(* defined on exact integers and rationals and rounded once, by Round.      *)
(***************************************************************************)
EXTENDS BigNum

CONSTANTS P, EW

EMAX == 2^(EW - 1) - 1
EMIN == 1 - EMAX
QMIN == EMIN - P + 1                 \* exponent of the smallest quantum
QMAX == EMAX - P + 1
HID  == 2^(P - 1)                    \* weight of the hidden bit
SIGNBIT == 2^(EW + P - 1)
EXPMASK == (2^EW - 1) * HID          \* encoding of +infinity
AllBits == 0..(2 * SIGNBIT - 1)

(***************************************************************************)
(* Decoding.  A finite datum has the value (-1)^s * m * 2^q.                *)
(***************************************************************************)
SignOf(x) == x \div SIGNBIT
AbsOf(x)  == x % SIGNBIT
IsNaN(x)  == AbsOf(x) > EXPMASK
IsInf(x)  == AbsOf(x) = EXPMASK
IsFin(x)  == AbsOf(x) < EXPMASK
IsZero(x) == AbsOf(x) = 0
IsNeg(x)  == x >= SIGNBIT
Neg(x)    == IF IsNeg(x) THEN x - SIGNBIT ELSE x + SIGNBIT
BExp(x)   == AbsOf(x) \div HID
Frac(x)   == x % HID
IsSub(x)  == BExp(x) = 0 /\ Frac(x) # 0
IsNormal(x) == IsFin(x) /\ BExp(x) > 0
M(x) == IF BExp(x) = 0 THEN Frac(x) ELSE HID + Frac(x)
Q(x) == QMIN + (IF BExp(x) = 0 THEN 0 ELSE BExp(x) - 1)
SM(x) == IF IsNeg(x) THEN -M(x) ELSE M(x)      \* signed significand

WithSign(s, a) == IF s = 1 THEN SIGNBIT + a ELSE a
Zero(s) == WithSign(s, 0)
Inf(s)  == WithSign(s, EXPMASK)
NAN     == EXPMASK + HID \div 2
ONE     == EMAX * HID
MAXABS  == EXPMASK - 1

(* Two data are the same result: all NaNs are interchangeable. *)
Same(x, y) == x = y \/ (IsNaN(x) /\ IsNaN(y))

(***************************************************************************)
(* Rounding of (-1)^s * n/d * 2^q, n >= 0, d > 0: to nearest, ties to even, *)
(* gradual underflow, overflow to infinity.                                 *)
(***************************************************************************)
Log2Floor(n, d) ==                   \* floor(log2(n/d)), n > 0
  LET t == BitLen(n) - BitLen(d)
      ge == IF t >= 0 THEN n >= d * 2^t ELSE n * 2^(-t) >= d
  IN IF ge THEN t ELSE t - 1

Round(s, n, d, q) ==
  IF n = 0 THEN Zero(s)
  ELSE LET e  == Log2Floor(n, d) + q                  \* exponent of the value
           qq == Max2(e - (P - 1), QMIN)              \* quantum to round to
           k  == qq - q
       IN IF e > EMAX THEN Inf(s)
          ELSE IF e < QMIN - 1 THEN Zero(s)
          ELSE LET m == IF k <= 0 THEN DivRNE(n * 2^(-k), d) ELSE DivRNE(n, d * 2^k)
                   \* m = 2^P carries into the exponent field by itself
                   a == (qq - QMIN) * HID + m
               IN WithSign(s, IF a > EXPMASK THEN EXPMASK ELSE a)

(* Rounding of an exact signed integer n times 2^q; s0 is the sign of an exact zero. *)
RoundInt(n, q, s0) ==
  IF n = 0 THEN Zero(s0)
  ELSE \* drop common powers of two: keeps numbers small
       Round(IF n < 0 THEN 1 ELSE 0, Abs(n), 1, q)

XorSign(x, y) == (SignOf(x) + SignOf(y)) % 2

(***************************************************************************)
(* Arithmetic                                                               *)
(***************************************************************************)
Add(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NAN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ SignOf(x) # SignOf(y) THEN NAN ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE LET q == IF IsZero(x) THEN Q(y) ELSE IF IsZero(y) THEN Q(x) ELSE Min2(Q(x), Q(y))
           sx == IF IsZero(x) THEN 0 ELSE SM(x) * 2^(Q(x) - q)
           sy == IF IsZero(y) THEN 0 ELSE SM(y) * 2^(Q(y) - q)
       IN RoundInt(sx + sy, q, IF IsNeg(x) /\ IsNeg(y) THEN 1 ELSE 0)
Sub(x, y) == IF IsNaN(y) THEN NAN ELSE Add(x, Neg(y))

Mul(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NAN
  ELSE IF IsInf(x) \/ IsInf(y)
       THEN (IF IsZero(x) \/ IsZero(y) THEN NAN ELSE Inf(XorSign(x, y)))
  ELSE Round(XorSign(x, y), M(x) * M(y), 1, Q(x) + Q(y))

Div(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NAN
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN NAN ELSE Inf(XorSign(x, y)))
  ELSE IF IsInf(y) THEN Zero(XorSign(x, y))
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN NAN ELSE Inf(XorSign(x, y)))
  ELSE Round(XorSign(x, y), M(x), M(y), Q(x) - Q(y))

(* Truncated remainder, always exact; takes the sign of x. *)
Rem(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsZero(y) THEN NAN
  ELSE IF IsInf(y) \/ IsZero(x) \/ AbsOf(x) < AbsOf(y) THEN x
  ELSE LET q == Min2(Q(x), Q(y))
           r == (M(x) * 2^(Q(x) - q)) % (M(y) * 2^(Q(y) - q))
       IN Round(SignOf(x), r, 1, q)

(* x * y + z with a single rounding *)
Fma(x, y, z) ==
  IF IsNaN(x) \/ IsNaN(y) \/ IsNaN(z) THEN NAN
  ELSE IF IsInf(x) \/ IsInf(y)
       THEN IF IsZero(x) \/ IsZero(y) THEN NAN
            ELSE IF IsInf(z) /\ SignOf(z) # XorSign(x, y) THEN NAN
            ELSE Inf(XorSign(x, y))
  ELSE IF IsInf(z) THEN z
  ELSE LET s  == XorSign(x, y)
           pm == M(x) * M(y)
           pq == Q(x) + Q(y)
           q  == IF pm = 0 THEN Q(z) ELSE IF IsZero(z) THEN pq ELSE Min2(pq, Q(z))
           p  == IF pm = 0 THEN 0 ELSE pm * 2^(pq - q)
           c  == IF IsZero(z) THEN 0 ELSE SM(z) * 2^(Q(z) - q)
       IN RoundInt((IF s = 1 THEN -p ELSE p) + c, q, IF s = 1 /\ IsNeg(z) THEN 1 ELSE 0)

(* x*x + y*y with a single rounding *)
SumSq(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NAN
  ELSE IF IsInf(x) \/ IsInf(y) THEN Inf(0)
  ELSE IF IsZero(x) THEN Mul(y, y)
  ELSE IF IsZero(y) THEN Mul(x, x)
  ELSE LET q == 2 * Min2(Q(x), Q(y))
       IN RoundInt(M(x) * M(x) * 2^(2 * Q(x) - q) + M(y) * M(y) * 2^(2 * Q(y) - q), q, 0)

Sqrt(x) ==
  IF IsNaN(x) \/ IsZero(x) THEN x
  ELSE IF IsNeg(x) THEN NAN
  ELSE IF IsInf(x) THEN x
  ELSE LET k  == 2 * P + 4 - BitLen(M(x))
           k2 == IF Odd(Q(x) - k) THEN k + 1 ELSE k         \* Q(x) - k2 even
           n  == M(x) * 2^k2                                \* x = n * 2^(Q-k2), >= 2P+3 bits
           r  == ISqrt(n)
           st == IF r * r = n THEN 0 ELSE 1
       IN Round(0, 2 * r + st, 1, (Q(x) - k2) \div 2 - 1)

Scale(x, n) ==                      \* x * 2^n, any integer n
  IF ~IsFin(x) \/ IsZero(x) THEN x
  ELSE LET lim == 2 * (EMAX - QMIN) + 2 * P
           k == IF n > lim THEN lim ELSE IF n < -lim THEN -lim ELSE n
       IN Round(SignOf(x), M(x), 1, Q(x) + k)

(***************************************************************************)
(* Rounding to an integral value; keeps the sign, also of a zero result.    *)
(***************************************************************************)
ToIntegral(x, mode) ==
  IF ~IsFin(x) \/ Q(x) >= 0 THEN x
  ELSE LET d == 2^(-Q(x))
           f == M(x) \div d
           r == M(x) - f * d
           up == CASE mode = "trunc" -> FALSE
                   [] mode = "floor" -> r # 0 /\ IsNeg(x)
                   [] mode = "ceil"  -> r # 0 /\ ~IsNeg(x)
                   [] mode = "away"  -> 2 * r >= d
                   [] mode = "even"  -> 2 * r > d \/ (2 * r = d /\ Odd(f))
       IN Round(SignOf(x), f + B2I(up), 1, 0)

(***************************************************************************)
(* Order                                                                    *)
(***************************************************************************)
Key(x) == IF IsNeg(x) THEN -AbsOf(x) ELSE AbsOf(x)         \* numeric order of non-NaNs
TotalKey(x) == IF IsNeg(x) THEN -AbsOf(x) - 1 ELSE AbsOf(x)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Unordered(x, y) == IsNaN(x) \/ IsNaN(y)
Cmp(x, y) == Sgn(Key(x) - Key(y))                           \* for ordered x, y
TotalCmp(x, y) == Sgn(TotalKey(x) - TotalKey(y))

(***************************************************************************)
(* Classification                                                           *)
(***************************************************************************)
Class(x) == IF IsNaN(x) THEN "Nan" ELSE IF IsInf(x) THEN "Infinite"
            ELSE IF IsZero(x) THEN "Zero" ELSE IF IsSub(x) THEN "Subnormal" ELSE "Normal"

(* Unit in the last place: the quantum of x as a datum. *)
Ulp(x) == IF ~IsFin(x) THEN NAN ELSE Round(0, 1, 1, Q(x))

(***************************************************************************)
(* Conversions                                                              *)
(***************************************************************************)
FromInt(n) == RoundInt(n, 0, 0)

(* Embedding of a datum of a narrower format (precision p, exponent width w). *)
FromNarrow(b, p, w) ==
  LET hid == 2^(p - 1)
      sg  == b \div 2^(w + p - 1)
      a   == b % 2^(w + p - 1)
      be  == a \div hid
      fr  == a % hid
      qmin == (2 - 2^(w - 1)) - p + 1
  IN IF be = 2^w - 1 THEN (IF fr = 0 THEN Inf(sg) ELSE NAN)
     ELSE Round(sg, IF be = 0 THEN fr ELSE hid + fr, 1, qmin + (IF be = 0 THEN 0 ELSE be - 1))
=============================================================================
