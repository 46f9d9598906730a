-------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* What a user of f256 may rely on, call by call: for an event e of the    *)
(* API (e.op with data arguments e.a, integer arguments e.n) the operator  *)
(* ArithOK tells whether the answer e.r is one the contract allows.        *)
(* Data travel as 64 hexadecimal digits, integers as signed hexadecimal.   *)
(***************************************************************************)
EXTENDS Binary, TLC

H(s)  == HexVal(s)
Head1(s) == SubSeq(s, 1, 1)
RECURSIVE RevBytes(_)
RevBytes(s) == IF Len(s) = 0 THEN "" ELSE RevBytes(SubSeq(s, 3, Len(s))) \o SubSeq(s, 1, 2)
IV(s) == IF Head1(s) = "-" THEN -HexVal(SubSeq(s, 2, Len(s))) ELSE HexVal(s)
X(e)  == H(e.a[1])
Y(e)  == H(e.a[2])
Z(e)  == H(e.a[3])
N1(e) == IV(e.n[1])
N2(e) == IV(e.n[2])

IsDatum(s) == Len(s) = 64
Is(s, v) == IsDatum(s) /\ Same(H(s), v)
AllAre(r, v) == \A i \in DOMAIN r : Is(r[i], v)
One(r, v) == Len(r) = 1 /\ Is(r[1], v)
Flag(s, b) == s = (IF b THEN "1" ELSE "0")
Panics(r) == r = <<"PANIC">>

(* Two data that compare equal (+0 and -0 do). *)
NumEq(x, y) == ~Unordered(x, y) /\ Key(x) = Key(y)

(* The order-based operations for an order C of the data that are not NaN. *)
MaxOK(C(_, _), x, y, r) ==
  IF IsNaN(x) THEN Is(r, y) ELSE IF IsNaN(y) THEN Is(r, x)
  ELSE IF C(x, y) = 0 THEN Is(r, x) \/ Is(r, y)
  ELSE Is(r, IF C(x, y) > 0 THEN x ELSE y)
MinOK(C(_, _), x, y, r) ==
  IF IsNaN(x) THEN Is(r, y) ELSE IF IsNaN(y) THEN Is(r, x)
  ELSE IF C(x, y) = 0 THEN Is(r, x) \/ Is(r, y)
  ELSE Is(r, IF C(x, y) < 0 THEN x ELSE y)
MinMaxOK(C(_, _), x, y, r) == Len(r) = 2 /\ MinOK(C, x, y, r[1]) /\ MaxOK(C, x, y, r[2])

ClampOK(C(_, _), x, lo, hi, r) ==
  IF Unordered(lo, hi) \/ C(lo, hi) > 0 THEN Panics(r)
  ELSE IF IsNaN(x) THEN One(r, NAN)
  ELSE IF C(x, lo) < 0 THEN One(r, lo)
  ELSE IF C(x, hi) > 0 THEN One(r, hi)
  ELSE One(r, x)

Fract(x) == \* exact; zero results carry no promise about their sign
  IF ~IsFin(x) THEN NAN ELSE Sub(x, ToIntegral(x, "trunc"))
FractOK(x, s) == IsDatum(s) /\ (IF IsNaN(Fract(x)) THEN IsNaN(H(s))
                               ELSE IF IsZero(Fract(x)) THEN IsZero(H(s)) ELSE H(s) = Fract(x))

IntegralOK(x, r) ==
  /\ Len(r) = 8
  /\ Is(r[1], ToIntegral(x, "trunc"))
  /\ Is(r[2], ToIntegral(x, "floor"))
  /\ Is(r[3], ToIntegral(x, "ceil"))
  /\ Is(r[4], ToIntegral(x, "away"))
  /\ Is(r[5], ToIntegral(x, "even"))
  /\ FractOK(x, r[6])
  /\ Is(r[7], ToIntegral(x, "trunc"))
  /\ FractOK(x, r[8])

CmpOK(C(_, _), x, y, r) ==
  /\ Len(r) = 7
  /\ IF Unordered(x, y)
     THEN r = <<"0", "1", "0", "0", "0", "0", "N">>
     ELSE LET c == C(x, y) IN
          /\ Flag(r[1], c = 0) /\ Flag(r[2], c # 0)
          /\ Flag(r[3], c < 0) /\ Flag(r[4], c <= 0)
          /\ Flag(r[5], c > 0) /\ Flag(r[6], c >= 0)
          /\ r[7] = ToString(c)
TCmpOK(C(_, _), x, y, r) == r = <<ToString(C(x, y))>>

ClassOK(x, r) ==
  /\ Len(r) = 10
  /\ Flag(r[1], IsNaN(x)) /\ Flag(r[2], IsInf(x)) /\ Flag(r[3], IsFin(x))
  /\ Flag(r[4], IsSub(x)) /\ Flag(r[5], IsNormal(x))
  /\ Flag(r[6], ~IsNeg(x)) /\ Flag(r[7], IsNeg(x))
  /\ Flag(r[8], IsZero(x)) /\ Flag(r[9], ~IsFin(x) \/ IsZero(x))
  /\ r[10] = Class(x)

BytesOK(s, r) ==
  /\ Len(r) = 8
  /\ r[1] = s /\ r[2] = s                    \* to_bits, to_be_bytes
  /\ r[3] = RevBytes(s)                      \* to_le_bytes
  /\ r[4] = s /\ r[5] = s                    \* from_be_bytes, from_le_bytes of the encoding
  /\ r[6] = s /\ r[7] = s /\ r[8] = s        \* round trips

(* sign, exponent and odd significand of a finite datum other than zero, and back *)
PartsOK(x, r) ==
  /\ Len(r) = 4
  /\ r[1] = (IF IsNeg(x) THEN "1" ELSE "0")
  /\ LET t == IV(r[2])
         c == H(r[3])
     IN /\ Odd(c) /\ t >= Q(x) /\ t <= Q(x) + P
        /\ c * 2^(t - Q(x)) = M(x)
  /\ Is(r[4], x)

FromIntOK(v, r) == One(r, FromInt(v))

ParamsOK(r) ==
  LET v == [i \in 1..8 |-> IV(r[i])] IN
  /\ Len(r) = 8
  /\ v[1] = 2 /\ v[2] = P /\ v[3] = P
  /\ 10^v[4] <= 2^P /\ 2^P < 10^(v[4] + 1)
  /\ v[5] = EMAX + 1 /\ v[6] = EMIN + 1
  (* the extreme powers of ten that are finite and normal *)
  /\ LET big(k) == 10^k >= 2^(EMAX + 1) IN ~big(v[7]) /\ big(v[7] + 1)
  /\ LET small(k) == 10^(-k) > 2^(-EMIN) IN ~small(v[8]) /\ small(v[8] - 1)

NTraitOK(x, r) ==
  /\ Len(r) = 7
  /\ Is(r[1], Zero(0)) /\ Is(r[2], ONE)
  /\ Flag(r[3], IsZero(x)) /\ Flag(r[4], NumEq(x, ONE))
  /\ Is(r[5], Zero(0)) /\ Is(r[6], Zero(0)) /\ Is(r[7], ONE)

(* The operator forms (value/value, ref/value, value/ref, ref/ref, two assigning ones) agree. *)
Forms(r, v) == Len(r) = 6 /\ AllAre(r, v)

ArithOps == {"add", "sub", "mul", "div", "rem", "fma", "sqadd", "square", "sos", "sqrt", "recip",
             "mul2", "div2", "mulp2", "divp2", "integral", "neg", "abs", "cmp", "tcmp", "minmax",
             "clamp", "class", "ulp", "bytes", "fromint", "fromf32", "fromf64", "params", "ntrait",
             "parts", "build"}

ArithOK(e) ==
  CASE e.op = "add"      -> Forms(e.r, Add(X(e), Y(e)))
    [] e.op = "sub"      -> Forms(e.r, Sub(X(e), Y(e)))
    [] e.op = "mul"      -> Forms(e.r, Mul(X(e), Y(e)))
    [] e.op = "div"      -> Forms(e.r, Div(X(e), Y(e)))
    [] e.op = "rem"      -> Forms(e.r, Rem(X(e), Y(e)))
    [] e.op = "fma"      -> One(e.r, Fma(X(e), Y(e), Z(e)))
    [] e.op = "sqadd"    -> One(e.r, Fma(X(e), X(e), Y(e)))
    [] e.op = "square"   -> One(e.r, Mul(X(e), X(e)))
    [] e.op = "sos"      -> One(e.r, SumSq(X(e), Y(e)))
    [] e.op = "sqrt"     -> One(e.r, Sqrt(X(e)))
    [] e.op = "recip"    -> One(e.r, Div(ONE, X(e)))
    [] e.op = "mul2"     -> One(e.r, Scale(X(e), 1))
    [] e.op = "div2"     -> One(e.r, Scale(X(e), -1))
    [] e.op = "mulp2"    -> One(e.r, Scale(X(e), N1(e)))
    [] e.op = "divp2"    -> One(e.r, Scale(X(e), -N1(e)))
    [] e.op = "integral" -> IntegralOK(X(e), e.r)
    [] e.op = "neg"      -> Len(e.r) = 2 /\ AllAre(e.r, Neg(X(e)))
    [] e.op = "abs"      -> One(e.r, AbsOf(X(e)))
    [] e.op = "cmp"      -> CmpOK(Cmp, X(e), Y(e), e.r)
    [] e.op = "tcmp"     -> TCmpOK(TotalCmp, X(e), Y(e), e.r)
    [] e.op = "minmax"   -> MinMaxOK(Cmp, X(e), Y(e), e.r)
    [] e.op = "clamp"    -> ClampOK(Cmp, X(e), Y(e), Z(e), e.r)
    [] e.op = "class"    -> ClassOK(X(e), e.r)
    [] e.op = "ulp"      -> One(e.r, Ulp(X(e)))
    [] e.op = "parts"    -> PartsOK(X(e), e.r)
    [] e.op = "build"    -> One(e.r, Round(N1(e), X(e), 1, N2(e)))
    [] e.op = "bytes"    -> BytesOK(e.a[1], e.r)
    [] e.op = "fromint"  -> FromIntOK(N2(e), e.r)
    [] e.op = "fromf32"  -> One(e.r, FromNarrow(N1(e), 24, 8))
    [] e.op = "fromf64"  -> One(e.r, FromNarrow(N1(e), 53, 11))
    [] e.op = "params"   -> ParamsOK(e.r)
    [] e.op = "ntrait"   -> NTraitOK(X(e), e.r)

(***************************************************************************)
(* The one deviation of the code that is on record (known_findings.json):  *)
(* two data with the sign bit set are ordered by their magnitude, the      *)
(* wrong way round.  An event deviates "as known" only if it is exactly    *)
(* what that order gives.                                                  *)
(***************************************************************************)
BothNeg(x, y) == IsNeg(x) /\ IsNeg(y) /\ ~(IsZero(x) /\ IsZero(y))
DefCmp(x, y) == IF BothNeg(x, y) THEN Sgn(AbsOf(x) - AbsOf(y)) ELSE Cmp(x, y)
DefTotalCmp(x, y) == IF IsNeg(x) /\ IsNeg(y) THEN Sgn(AbsOf(x) - AbsOf(y)) ELSE TotalCmp(x, y)
KnownOrder(e) ==
  CASE e.op = "cmp"    -> CmpOK(DefCmp, X(e), Y(e), e.r)
    [] e.op = "tcmp"   -> TCmpOK(DefTotalCmp, X(e), Y(e), e.r)
    [] e.op = "minmax" -> MinMaxOK(DefCmp, X(e), Y(e), e.r)
    [] e.op = "clamp"  -> ClampOK(DefCmp, X(e), Y(e), Z(e), e.r)
    [] OTHER -> FALSE
=============================================================================
