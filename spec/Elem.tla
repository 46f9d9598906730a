-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary functions.  Every function is evaluated in fixed-point       *)
(* arithmetic with W fractional bits; all truncations together stay far    *)
(* below 2^40 units of 2^-W, that is below 2^-280 of a unit in the last    *)
(* place of every result above 2^-240.  Answers are accepted up to a bound *)
(* on their error given in hundredths of such a unit.                      *)
(***************************************************************************)
EXTENDS Text

CONSTANT PiBits                     \* precision of pi; bounds the arguments that can be reduced

W == 800
One0 == 2^W
TINY == -240                        \* below 2^TINY: sin x = x (1 - 2^-480 ...) and the like

FixMul(a, b) == Shift(a * b, -W)

(* Chudnovsky's series by binary splitting: <<P, Q, T>> of the terms a..b-1 *)
C3 == 640320^3 \div 24
RECURSIVE Chud(_, _)
Chud(a, b) ==
  IF b - a = 1
  THEN LET p == IF a = 0 THEN 1 ELSE (6 * a - 5) * (2 * a - 1) * (6 * a - 1)
           q == IF a = 0 THEN 1 ELSE a^3 * C3
           t == p * (13591409 + 545140134 * a)
       IN <<p, q, IF Odd(a) THEN -t ELSE t>>
  ELSE LET m == (a + b) \div 2
           l == Chud(a, m)
           r == Chud(m, b)
       IN <<l[1] * r[1], l[2] * r[2], r[2] * l[3] + l[1] * r[3]>>
PiFix(n) == LET k == n \div 47 + 2
                c == Chud(0, k)
            IN (c[2] * 426880 * ISqrt(10005 * 2^(2 * n))) \div c[3]
PI == PiFix(PiBits)
PiAt(n) == Shift(PI, n - PiBits)     \* floor(pi * 2^n), n <= PiBits
PIW == PiAt(W)

(* atanh z = z + z^3/3 + ..., |z| < 1/2 *)
RECURSIVE AtanhSum(_, _, _)
AtanhSum(t, z2, k) == IF t = 0 \/ t = -1 THEN 0 ELSE t \div k + AtanhSum(FixMul(t, z2), z2, k + 2)
Atanh(z) == AtanhSum(z, FixMul(z, z), 1)
LN2W == 2 * Atanh(One0 \div 3)
LN10W == 3 * LN2W + 2 * Atanh(One0 \div 9)          \* 10 = 8 * 5/4, 5/4 = (1 + 1/9)/(1 - 1/9)

LnFix(x) ==                                        \* x finite, > 0
  LET e == BitLen(M(x)) - 1
      up == M(x) * M(x) > 2^(2 * e + 1)
      e2 == IF up THEN e + 1 ELSE e
  IN (Q(x) + e2) * LN2W + 2 * Atanh(((M(x) - 2^e2) * One0) \div (M(x) + 2^e2))

(* sin and cos of |r| <= pi/4 *)
RECURSIVE TaylorSum(_, _, _)
TaylorSum(t, r2, k) == IF t = 0 \/ t = -1 THEN 0
                       ELSE t + TaylorSum(-(FixMul(t, r2) \div (k * (k + 1))), r2, k + 2)
Sin0(r) == TaylorSum(r, FixMul(r, r), 2)
Cos0(r) == TaylorSum(One0, FixMul(r, r), 1)

(* x = n * pi/2 + r:  <<n mod 4, r>> *)
Reduce(x) ==
  LET e == Max2(Q(x) + BitLen(M(x)), 0)
      B == W + e + 4
      h == PiAt(B)                                   \* pi/2 in units of 2^-(B+1)
      v == SM(x) * 2^(Q(x) + B + 1)
      n == (2 * v + h) \div (2 * h)
  IN <<n % 4, Shift(v - n * h, W - B - 1)>>
SinR(q) == CASE q[1] = 0 -> Sin0(q[2]) [] q[1] = 1 -> Cos0(q[2])
             [] q[1] = 2 -> -Sin0(q[2]) [] q[1] = 3 -> -Cos0(q[2])
CosR(q) == SinR(<<(q[1] + 1) % 4, q[2]>>)

(* atan(n/d), n >= 0, d > 0, n <= d *)
RECURSIVE Halve(_, _)
Halve(t, k) == IF k = 0 THEN t ELSE Halve((t * One0) \div (One0 + ISqrt(One0 * One0 + t * t)), k - 1)
RECURSIVE AtanSum(_, _, _)
AtanSum(t, z2, k) == IF t = 0 \/ t = -1 THEN 0 ELSE t \div k + AtanSum(-FixMul(t, z2), z2, k + 2)
Atan1(n, d) == LET z == Halve((n * One0) \div d, 3) IN 8 * AtanSum(z, FixMul(z, z), 1)
AtanQ(n, d) == IF n <= d THEN Atan1(n, d) ELSE PIW \div 2 - Atan1(d, n)
(* angle of the point (x, y), not both 0, y >= 0: 0 .. pi *)
Angle(y, x) == IF x > 0 THEN AtanQ(y, x) ELSE IF x < 0 THEN PIW - AtanQ(y, -x) ELSE PIW \div 2

(***************************************************************************)
(* The datum s is within k hundredths of a unit in the last place of       *)
(* (-1)^sg * n/d * 2^q, n >= 0, d > 0.  The unit is that of the exact      *)
(* value; beyond the finite range infinity counts as 2^(EMAX+1).  The sign *)
(* has to be right, also that of a zero.                                   *)
(***************************************************************************)
Close(s, sg, n, d, q, k) ==
  /\ IsDatum(s)
  /\ LET r  == H(s)
         e  == IF n = 0 THEN QMIN ELSE Log2Floor(n, d) + q
         u  == Max2(e - (P - 1), QMIN)                        \* unit 2^u
         rq == IF IsInf(r) THEN QMAX + 1 ELSE Q(r)
         rm == IF IsInf(r) THEN HID ELSE M(r)
         lo == Min2(Min2(rq, u), q)
     IN /\ ~IsNaN(r)
        /\ SignOf(r) = sg
        /\ IF e > EMAX + 1 \/ (e > EMAX /\ IsInf(r)) THEN IsInf(r)
           ELSE IF e < QMIN - 2 THEN AbsOf(r) <= 1
           ELSE /\ Abs(rq - u) <= P + 2 \/ IsZero(r)
                /\ 100 * Abs(rm * 2^(rq - lo) * d - n * 2^(q - lo)) <= k * d * 2^(u - lo)
(* ... of the value v of the fixed-point arithmetic *)
Near(s, v, k) == Close(s, IF v < 0 THEN 1 ELSE 0, Abs(v), 1, -W, k)
(* ... of u/v *)
NearQ(s, u, v, k) == Close(s, IF (u < 0) = (v < 0) THEN 0 ELSE 1, Abs(u), Abs(v), 0, k)

(* The accuracy a user may rely on, in hundredths of a unit in the last place. *)
AccLog == 51
AccSin == 51
AccTan == 200
AccAsin == 100
AccAtan == 100
AccDeg == 125
AccRad == 51
AccConst == 50

Top(x) == Q(x) + BitLen(M(x))            \* |x| < 2^Top
IsTiny(x) == IsZero(x) \/ Top(x) < TINY

(* Documented: NaN unless the argument is a positive finite number. *)
LogOK(x, s, base) ==
  IF ~IsFin(x) \/ IsZero(x) \/ IsNeg(x) THEN Is(s, NAN)
  ELSE IF x = ONE THEN Is(s, Zero(0))
  ELSE CASE base = "e" -> Near(s, LnFix(x), AccLog)
         [] base = "2" -> NearQ(s, LnFix(x), LN2W, AccLog)
         [] base = "10" -> NearQ(s, LnFix(x), LN10W, AccLog)

SinOK(x, s) == IF ~IsFin(x) THEN Is(s, NAN) ELSE IF IsTiny(x) THEN Is(s, x) ELSE Near(s, SinR(Reduce(x)), AccSin)
CosOK(x, s) == IF ~IsFin(x) THEN Is(s, NAN) ELSE IF IsTiny(x) THEN Is(s, ONE) ELSE Near(s, CosR(Reduce(x)), AccSin)
TanOK(x, s) == IF ~IsFin(x) THEN Is(s, NAN) ELSE IF IsTiny(x) THEN Is(s, x)
               ELSE LET q == Reduce(x) IN NearQ(s, SinR(q), CosR(q), AccTan)
Fix(x) == Shift(SM(x), Q(x) + W)
AsinOK(x, s) ==
  IF ~IsFin(x) \/ AbsOf(x) > ONE THEN Is(s, NAN)
  ELSE IF IsTiny(x) THEN Is(s, x)
  ELSE LET a == Fix(AbsOf(x))
           v == Angle(a, ISqrt(One0 * One0 - a * a))
       IN Near(s, IF IsNeg(x) THEN -v ELSE v, AccAsin)
AcosOK(x, s) ==
  IF ~IsFin(x) \/ AbsOf(x) > ONE THEN Is(s, NAN)
  ELSE IF x = ONE THEN Is(s, Zero(0))
  ELSE LET a == Fix(x) IN Near(s, Angle(ISqrt(One0 * One0 - a * a), a), AccAsin)
AtanOK(x, s) ==
  IF IsNaN(x) THEN Is(s, NAN)
  ELSE IF IsInf(x) THEN Near(s, IF IsNeg(x) THEN -(PIW \div 2) ELSE PIW \div 2, AccAtan)
  ELSE IF IsTiny(x) THEN Is(s, x)
  ELSE LET v == IF Top(x) > 1000 THEN PIW \div 2 ELSE Angle(Fix(AbsOf(x)), One0)
       IN Near(s, IF IsNeg(x) THEN -v ELSE v, AccAtan)

Signed(y, v) == IF IsNeg(y) THEN -v ELSE v
(* The documentation gives 0 for x = 0, y = 0, counts -0 among y >= 0 and   *)
(* says nothing about the sign of a zero result; the built-in floats let   *)
(* the result take the sign of y.  Either is accepted.                     *)
Atan2OK(y, x, s) ==
  IF IsNaN(x) \/ IsNaN(y) THEN Is(s, NAN)
  ELSE IF IsZero(y)
       THEN IF IsZero(x) THEN IsDatum(s) /\ (IsZero(H(s)) \/ (IsNeg(x) /\ Near(s, Signed(y, PIW), AccAtan)))
            ELSE IF IsNeg(x) THEN Near(s, PIW, AccAtan) \/ Near(s, Signed(y, PIW), AccAtan)
            ELSE IsDatum(s) /\ IsZero(H(s))
  ELSE IF IsZero(x) THEN Near(s, Signed(y, PIW \div 2), AccAtan)
  ELSE IF IsInf(x)
       THEN IF IsInf(y) THEN Near(s, Signed(y, IF IsNeg(x) THEN 3 * (PIW \div 4) ELSE PIW \div 4), AccAtan)
            ELSE IF IsNeg(x) THEN Near(s, Signed(y, PIW), AccAtan) ELSE IsDatum(s) /\ IsZero(H(s))
  ELSE IF IsInf(y) THEN Near(s, Signed(y, PIW \div 2), AccAtan)
  ELSE LET d == Top(y) - Top(x) IN                    \* |y/x| is about 2^d
       IF d > 900 THEN Near(s, Signed(y, PIW \div 2), AccAtan)
       ELSE IF d < TINY
            THEN IF IsNeg(x) THEN Near(s, Signed(y, PIW), AccAtan)
                 ELSE Close(s, SignOf(y), M(y), M(x), Q(y) - Q(x), AccAtan)
       ELSE LET q == Min2(Q(y), Q(x)) IN
            Near(s, Signed(y, Angle(M(y) * 2^(Q(y) - q), SM(x) * 2^(Q(x) - q))), AccAtan)

(***************************************************************************)
(* Angle units: x * 180/pi and x * pi/180                                  *)
(***************************************************************************)
DegOK(x, s) ==
  IF ~IsFin(x) \/ IsZero(x) THEN Is(s, x)
  ELSE Close(s, SignOf(x), M(x) * 180, PIW, Q(x) + W, AccDeg)
RadOK(x, s) ==
  IF ~IsFin(x) \/ IsZero(x) THEN Is(s, x)
  ELSE Close(s, SignOf(x), M(x) * PIW, 180, Q(x) - W, AccRad)

(***************************************************************************)
(* Constants                                                               *)
(***************************************************************************)
RECURSIVE ExpSum(_, _)
ExpSum(t, k) == IF t = 0 THEN 0 ELSE t + ExpSum(t \div k, k + 1)
EW1 == ExpSum(One0, 1)
SqrtFix(n, d) == ISqrt((n * One0 * One0) \div d)
(* Euler's constant by Brent and McMillan: A/B - ln n with error exp(-4n) *)
GN == 160
RECURSIVE BM(_, _, _, _, _)
BM(a, b, sa, sb, k) ==
  IF b = 0 THEN (sa * One0) \div sb
  ELSE LET b2 == (b * GN * GN) \div (k * k)
           a2 == ((a * GN * GN) \div k + b2) \div k
       IN BM(a2, b2, sa + a2, sb + b2, k + 1)
RECURSIVE LnInt(_)                        \* ln of 2^i * 5^j
LnInt(n) == IF n = 1 THEN 0 ELSE IF ~Odd(n) THEN LN2W + LnInt(n \div 2) ELSE (LN10W - LN2W) + LnInt(n \div 5)
Gamma0 == LET l == LnInt(GN) IN BM(-l, One0, -l, One0, 1)

ConstFix(name) ==
  CASE name = "PI" -> PIW
    [] name = "TAU" -> 2 * PIW
    [] name = "FRAC_3_PI_2" -> (3 * PIW) \div 2
    [] name = "FRAC_PI_2" -> PIW \div 2
    [] name = "FRAC_PI_3" -> PIW \div 3
    [] name = "FRAC_PI_4" -> PIW \div 4
    [] name = "FRAC_PI_6" -> PIW \div 6
    [] name = "FRAC_PI_8" -> PIW \div 8
    [] name = "FRAC_1_PI" -> (One0 * One0) \div PIW
    [] name = "FRAC_2_PI" -> (2 * One0 * One0) \div PIW
    [] name = "SQRT_PI" -> ISqrt(PIW * One0)
    [] name = "FRAC_2_SQRT_PI" -> (2 * One0 * One0) \div ISqrt(PIW * One0)
    [] name = "SQRT_2" -> SqrtFix(2, 1)
    [] name = "FRAC_1_SQRT_2" -> SqrtFix(1, 2)
    [] name = "SQRT_5" -> SqrtFix(5, 1)
    [] name = "PHI" -> (One0 + SqrtFix(5, 1)) \div 2
    [] name = "GAMMA" -> Gamma0
    [] name = "E" -> EW1
ConstExact(name) ==
  CASE name = "EPSILON" -> Scale(ONE, 1 - P)
    [] name = "MAX" -> MAXABS
    [] name = "MIN" -> Neg(MAXABS)
    [] name = "MIN_POSITIVE" -> HID
    [] name = "MIN_GT_ZERO" -> 1
    [] name = "NAN" -> NAN
    [] name = "INFINITY" -> Inf(0)
    [] name = "NEG_INFINITY" -> Inf(1)
    [] name = "ZERO" -> 0
    [] name = "NEG_ZERO" -> SIGNBIT
    [] name = "ONE" -> ONE
    [] name = "NEG_ONE" -> Neg(ONE)
    [] name = "TWO" -> FromInt(2)
    [] name = "TEN" -> FromInt(10)
MathConsts == {"PI", "TAU", "FRAC_3_PI_2", "FRAC_PI_2", "FRAC_PI_3", "FRAC_PI_4", "FRAC_PI_6", "FRAC_PI_8",
               "FRAC_1_PI", "FRAC_2_PI", "SQRT_PI", "FRAC_2_SQRT_PI", "SQRT_2", "FRAC_1_SQRT_2", "SQRT_5",
               "PHI", "GAMMA", "E"}
Chars == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CharOf(c) == IF c = 95 THEN "_" ELSE IF c < 65 THEN SubSeq("0123456789", c - 47, c - 47) ELSE SubSeq(Chars, c - 64, c - 64)
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE CharOf(s[1]) \o Str(Tail(s))
ConstOK(name, s) == IF name \in MathConsts THEN Near(s, ConstFix(name), AccConst) ELSE Is(s, ConstExact(name))

ElemOps == {"ln", "log2", "log10", "sin", "cos", "tan", "sincos", "asin", "acos", "atan", "atan2", "deg", "rad", "const"}
ElemOK(e) ==
  /\ Len(e.r) = (IF e.op = "sincos" THEN 2 ELSE 1)
  /\ LET s == e.r[1] IN
     CASE e.op = "ln"    -> LogOK(X(e), s, "e")
       [] e.op = "log2"  -> LogOK(X(e), s, "2")
       [] e.op = "log10" -> LogOK(X(e), s, "10")
       [] e.op = "sin"   -> SinOK(X(e), s)
       [] e.op = "cos"   -> CosOK(X(e), s)
       [] e.op = "tan"   -> TanOK(X(e), s)
       [] e.op = "sincos" -> SinOK(X(e), s) /\ CosOK(X(e), e.r[2])
       [] e.op = "asin"  -> AsinOK(X(e), s)
       [] e.op = "acos"  -> AcosOK(X(e), s)
       [] e.op = "atan"  -> AtanOK(X(e), s)
       [] e.op = "atan2" -> Atan2OK(X(e), Y(e), s)
       [] e.op = "deg"   -> DegOK(X(e), s)
       [] e.op = "rad"   -> RadOK(X(e), s)
       [] e.op = "const" -> ConstOK(Str(e.s), s)
=============================================================================
