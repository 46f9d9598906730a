-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Data as text.  Text is a sequence of character codes.                   *)
(***************************************************************************)
EXTENDS Arith

Dot == 46  Plus == 43  Minus == 45  C0 == 48  LowE == 101  UpE == 69
IsDigit(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerAll(s) == [i \in DOMAIN s |-> Lower(s[i])]
Rep(c, n) == [i \in 1..n |-> c]
INFINITYTXT == <<105, 110, 102, 105, 110, 105, 116, 121>>
INFTXT == <<105, 110, 102>>
NANTXT == <<110, 97, 110>>
From(s, i) == SubSeq(s, i, Len(s))

(***************************************************************************)
(* Reading.                                                                *)
(*   Number ::= Sign? ('inf' | 'infinity' | 'nan' | Dec Exp?)              *)
(*   Dec    ::= Digit+ | Digit+ '.' Digit* | '.' Digit+                    *)
(*   Exp    ::= ('e' | 'E') Sign? Digit+                                   *)
(* The result is the exact value rounded once.                             *)
(***************************************************************************)
EMPTY == "ERR:empty"
INVALID == "ERR:invalid"

HasSign(s, i) == i <= Len(s) /\ s[i] \in {Plus, Minus}
SignAt(s, i) == IF HasSign(s, i) /\ s[i] = Minus THEN 1 ELSE 0
(* first position >= i that does not hold a digit *)
RunEnd(s, i) == LET T(c) == ~IsDigit(c)
                    k == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), T)
                IN IF k = 0 THEN Len(s) + 1 ELSE k

(* d * 10^e, d >= 0, with limits that keep the integers small: beyond them *)
(* the result is an overflow or underflow for certain.                     *)
DecValue(sg, d, e) ==
  IF d = 0 THEN Zero(sg)
  ELSE LET mag == Len(DecDigits(d)) + e                   \* 10^(mag-1) <= value < 10^mag
       IN IF mag > ((EMAX + 1) * 31) \div 100 + 2 THEN Inf(sg)
          ELSE IF mag < -((EMAX + P) \div 3) THEN Zero(sg)
          ELSE IF e >= 0 THEN Round(sg, d * 10^e, 1, 0) ELSE Round(sg, d, 10^(-e), 0)

ReadDec(s, i0, sg) ==
  LET i1 == RunEnd(s, i0)
      dot == i1 <= Len(s) /\ s[i1] = Dot
      f0 == IF dot THEN i1 + 1 ELSE i1
      f1 == IF dot THEN RunEnd(s, f0) ELSE i1
      ni == i1 - i0
      nf == f1 - f0
      hasE == f1 <= Len(s) /\ s[f1] \in {LowE, UpE}
      x0 == IF HasSign(s, f1 + 1) THEN f1 + 2 ELSE f1 + 1
      okE == ~hasE \/ (x0 <= Len(s) /\ RunEnd(s, x0) = Len(s) + 1)
      ev == IF hasE THEN (IF SignAt(s, f1 + 1) = 1 THEN -DecVal(From(s, x0)) ELSE DecVal(From(s, x0))) ELSE 0
  IN IF ni + nf = 0 \/ ~okE \/ (~hasE /\ f1 <= Len(s)) THEN <<INVALID>>
     ELSE <<"OK", DecValue(sg, DecVal(SubSeq(s, i0, i1 - 1) \o SubSeq(s, f0, f1 - 1)), ev - nf)>>

(* <<"OK", datum>>, or one of the two errors *)
Read(s) ==
  IF Len(s) = 0 THEN <<EMPTY>>
  ELSE LET i0 == IF HasSign(s, 1) THEN 2 ELSE 1
           sg == SignAt(s, 1)
           w  == IF Len(s) < 12 THEN LowerAll(From(s, i0)) ELSE <<>>
       IN IF w = INFTXT \/ w = INFINITYTXT THEN <<"OK", Inf(sg)>>
          ELSE IF w = NANTXT THEN <<"OK", NAN>>
          ELSE ReadDec(s, i0, sg)

ReadOK(s, r) ==
  LET v == Read(s) IN
  \A i \in DOMAIN r : IF v[1] = "OK" THEN Is(r[i], v[2]) ELSE r[i] = v[1]

(***************************************************************************)
(* Writing: the digits.                                                    *)
(***************************************************************************)
(* |x| * 10^k as a fraction <<numerator, denominator>>, x finite *)
Scaled(x, k) ==
  LET n == M(x) * (IF Q(x) > 0 THEN 2^Q(x) ELSE 1) * (IF k > 0 THEN 10^k ELSE 1)
      d == (IF Q(x) < 0 THEN 2^(-Q(x)) ELSE 1) * (IF k < 0 THEN 10^(-k) ELSE 1)
  IN <<n, d>>
(* floor(log10 |x|), x finite and not zero *)
Log10Floor(x) ==
  LET l2 == Q(x) + BitLen(M(x))                     \* |x| < 2^l2
      k  == IF l2 > 0 THEN 0 ELSE (-l2 + 2) \div 3 + 1   \* |x| * 10^k >= 1
      v  == Scaled(x, k)
  IN Len(DecDigits(v[1] \div v[2])) - 1 - k

Pad0(ds, n) == IF Len(ds) >= n THEN ds ELSE Rep(C0, n - Len(ds)) \o ds
(* digits ds (an integer) with the point k digits from the right, k >= 0 *)
Point(ds, k) == LET e == Pad0(ds, k + 1)
                IN IF k = 0 THEN e
                   ELSE SubSeq(e, 1, Len(e) - k) \o <<Dot>> \o SubSeq(e, Len(e) - k + 1, Len(e))
IntText(n) == IF n < 0 THEN <<Minus>> \o DecDigits(-n) ELSE DecDigits(n)
ExpText(kind, k) == <<IF kind = 1 THEN LowE ELSE UpE>> \o IntText(k)

FixedBody(x, p) == LET v == Scaled(x, p) IN Point(DecDigits(DivRNE(v[1], v[2])), p)
SciBody(x, p, kind) ==
  IF IsZero(x) THEN Point(<<C0>>, p) \o ExpText(kind, 0)
  ELSE LET k == Log10Floor(x)
           v == Scaled(x, p - k)
           n == DivRNE(v[1], v[2])
       IN IF n = 10^(p + 1) THEN Point(DecDigits(10^p), p) \o ExpText(kind, k + 1)
          ELSE Point(DecDigits(n), p) \o ExpText(kind, k)

(***************************************************************************)
(* The shortest decimals d * 10^k that read back as x: k is the largest    *)
(* exponent for which some multiple of 10^k rounds to x, and d * 10^k is   *)
(* as close to x as possible.  (Two of them if x is exactly halfway.  For  *)
(* 1 * 10^k a closer single digit below 10^k is allowed as well.)          *)
(***************************************************************************)
(* 4|x| and the rounding interval around it, in units of 2^(Q-2) *)
Lo4(x) == 4 * M(x) - (IF Frac(x) = 0 /\ BExp(x) > 1 THEN 1 ELSE 2)
Hi4(x) == 4 * M(x) + 2
Closed(x) == ~Odd(M(x))
(* smallest and largest d with d * 10^k in the interval *)
Unit(x, k) == <<(IF Q(x) - 2 > 0 THEN 2^(Q(x) - 2) ELSE 1) * (IF k < 0 THEN 10^(-k) ELSE 1),
                (IF Q(x) - 2 < 0 THEN 2^(2 - Q(x)) ELSE 1) * (IF k > 0 THEN 10^k ELSE 1)>>
DLo(x, k) == LET u == Unit(x, k)
                 n == Lo4(x) * u[1]
                 f == n \div u[2]
             IN IF n = f * u[2] THEN (IF Closed(x) THEN f ELSE f + 1) ELSE f + 1
DHi(x, k) == LET u == Unit(x, k)
                 n == Hi4(x) * u[1]
                 f == n \div u[2]
             IN IF n = f * u[2] /\ ~Closed(x) THEN f - 1 ELSE f
Fits(x, k) == LET h == DHi(x, k) IN h >= 1 /\ DLo(x, k) <= h
RECURSIVE Climb(_, _)
Climb(x, k) == IF Fits(x, k + 1) THEN Climb(x, k + 1) ELSE k
(* Above this exponent at most one multiple fits; below it one certainly does. *)
KStart(x) == Log10Floor(x) - (P * 1000) \div 3300 - 2
ShortExp(x) == LET k0 == KStart(x) IN
               IF IsSub(x) \/ BExp(x) = 1 THEN Climb(x, Min2(k0, (QMIN * 301) \div 1000 - 2)) ELSE Climb(x, k0)
Dist(x, d, u) == Abs(4 * M(x) * u[1] - d * u[2])
ShortSet(x) ==
  LET k == ShortExp(x)
      u == Unit(x, k)
      lo == DLo(x, k)
      hi == DHi(x, k)
      c == (4 * M(x) * u[1]) \div u[2]                   \* the nearest two are c and c+1
      cand == {d \in {c, c + 1} : d >= lo /\ d <= hi}
      \* an asymmetric interval may hold neither
      cand2 == IF cand = {} THEN (IF c < lo THEN {lo} ELSE {hi}) ELSE cand
      best == CHOOSE d \in cand2 : \A d2 \in cand2 : Dist(x, d, u) <= Dist(x, d2, u)
      main == {<<d, k>> : d \in {d3 \in cand2 : Dist(x, d3, u) = Dist(x, best, u)}}
      \* 10^k: a single digit at the next place down is as short, and may be closer
      u9 == Unit(x, k - 1)
      nine == {d \in Max2(1, DLo(x, k - 1))..Min2(9, DHi(x, k - 1)) : Dist(x, d, u9) <= Dist(x, 10, u9)}
  IN IF best # 1 THEN main
     ELSE main \cup {<<d, k - 1>> : d \in {d1 \in nine : \A d2 \in nine : Dist(x, d1, u9) <= Dist(x, d2, u9)}}

ShortBody(dk, kind) ==
  LET d == DecDigits(dk[1])
      k == dk[2]
  IN IF kind = 0
     THEN IF k >= 0 THEN d \o Rep(C0, k) ELSE Point(d, -k)
     ELSE Point(d, Len(d) - 1) \o ExpText(kind, k + Len(d) - 1)

(***************************************************************************)
(* Writing: sign and padding, as for the built-in floats.  Exception: the  *)
(* crate pads NaN with the fill character, never with zeroes.              *)
(* f = <<kind, fill, align, plus, zero, width, prec>>                      *)
(***************************************************************************)
Fills == <<32, 42, 48, 233>>
Spread(t, align, fill, w) ==                 \* align: 1 left, 2 centre, 3 right
  LET n == Max2(0, w - Len(t))
      l == CASE align = 1 -> 0 [] align = 2 -> n \div 2 [] OTHER -> n
  IN Rep(fill, l) \o t \o Rep(fill, n - l)
NaNText == <<78, 97, 78>>

MaxPrec == 75
(* Fixed-point notation of values whose quantum exceeds 1 may end in zeroes *)
(* instead of the exact digits, as long as it reads back as the value.      *)
FixedBodies(x, p) ==
  {FixedBody(x, p)} \cup
  (IF IsZero(x) \/ Q(x) <= 0 THEN {}
   ELSE {ShortBody(dk, 0) \o (IF p = 0 THEN <<>> ELSE <<Dot>> \o Rep(C0, p)) : dk \in ShortSet(x)})
Bodies(x, kind, prec) ==
  IF IsInf(x) THEN {INFTXT}
  ELSE IF prec >= 0 THEN (IF kind = 0 THEN FixedBodies(x, Min2(prec, MaxPrec)) ELSE {SciBody(x, Min2(prec, MaxPrec), kind)})
  ELSE IF IsZero(x) THEN {IF kind = 0 THEN <<C0>> ELSE <<C0>> \o ExpText(kind, 0)}
  ELSE {ShortBody(dk, kind) : dk \in ShortSet(x)}

Outs(x, f) ==
  LET kind == f[1]  fill == Fills[f[2] + 1]  align == IF f[3] = 0 THEN 3 ELSE f[3]
      plus == f[4] = 1  zero == f[5] = 1  w == f[6]  prec == f[7]
      sg == IF IsNeg(x) THEN <<Minus>> ELSE IF plus THEN <<Plus>> ELSE <<>>
  IN IF IsNaN(x) THEN {Spread(NaNText, align, fill, w)}
     ELSE IF zero THEN {sg \o Spread(b, 3, C0, w - Len(sg)) : b \in Bodies(x, kind, prec)}
     ELSE {Spread(sg \o b, align, fill, w) : b \in Bodies(x, kind, prec)}

FmtOK(x, f, e) ==
  IF IsFin(x) /\ ~IsZero(x) /\ f[7] > MaxPrec THEN Panics(e.r)      \* documented limit
  ELSE e.r = <<>> /\ e.o \in Outs(x, f)

ShortOK(x, kind, e) ==
  /\ ~Panics(e.r)
  /\ e.o \in Outs(x, <<kind, 0, 0, 0, 0, -1, -1>>)
  /\ e.op = "round" => One(e.r, x)

(* "exact": a literal that spells out every digit of (2M(x) + half) * 2^(Q(x)-1), changed in places far behind those digits by  *)
(* the sign t (the harness computes the literal, of up to 183 thousand digits and more; the value of it is known beforehand)     *)
ExactOK(x, half, t, r) == One(r, Round(SignOf(x), 8 * (2 * M(x) + half) + t, 16, Q(x)))

TextOps == {"parse", "exact", "radix", "fmt", "short", "round", "debug"}
TextOK(e) ==
  CASE e.op = "parse" -> Len(e.r) = 4 /\ ReadOK(e.s, e.r)
    [] e.op = "exact" -> ExactOK(X(e), N1(e), IV(e.n[2]), e.r)
    [] e.op = "radix" -> N1(e) # 10 => e.r = <<"ERR">>
    [] e.op = "debug" -> ~Panics(e.r)                    \* what it shows is not promised
    [] e.op = "fmt"   -> FmtOK(X(e), [i \in 1..7 |-> IV(e.n[i])], e)
    [] e.op \in {"short", "round"} -> ShortOK(X(e), N1(e), e)

(***************************************************************************)
(* The other deviation on record: digits are taken in chunks of 19 from    *)
(* tables (crates that are not part of the repository) which hold 304 bits *)
(* after the point.  A chunk comes out wrong if the value, scaled by the   *)
(* chunk's power of ten, is an integer up to less than the error of the    *)
(* tables.  Slip(x, c, side): that can happen for |x| * 10^(19c).          *)
(***************************************************************************)
ChunkSize == 19
TableErr == 2^24
Slip(x, c) ==
  LET v == Scaled(x, ChunkSize * c)
      f == v[1] \div v[2]
      r == v[1] - f * v[2]
  IN r # 0 /\ (r * TableErr < v[2] \/ (v[2] - r) * TableErr < v[2])
SlipAny(x, lo, hi) == \E c \in 1..(hi - lo + 1) : Slip(x, lo + c - 1)
FracPart(x) == LET f == Fract(x) IN AbsOf(f)
TableUnsafe(x, kind, p) ==
  IF ~IsFin(x) \/ IsZero(x) \/ p < 0 \/ p > MaxPrec THEN FALSE
  ELSE IF kind = 0
  THEN LET f == FracPart(x) IN ~IsZero(f) /\ SlipAny(f, 1, p \div ChunkSize + 1)
  ELSE LET k == Log10Floor(x) IN
       IF k < 0 THEN SlipAny(x, Max2(1, (-k) \div ChunkSize), (p - k) \div ChunkSize + 2)
       ELSE BExp(x) >= EMAX + 512 /\ SlipAny(x, -(k \div ChunkSize + 1), -((k - p) \div ChunkSize - 1))
KnownTable(e) ==
  /\ e.op = "fmt"
  /\ e.r = <<>>
  /\ TableUnsafe(X(e), IV(e.n[1]), IV(e.n[7]))
=============================================================================
