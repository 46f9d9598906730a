-------------------------------- MODULE Tiny --------------------------------
(* Exhaustive checks of Binary.tla on small formats: the definitions mean   *)
(* what IEEE 754 says they mean, and they have the algebraic properties a   *)
(* user relies on.  One state per operand pair; triples are quantified.     *)
EXTENDS Binary, TLC

VARIABLES x, y
vars == <<x, y>>

Init == x \in AllBits /\ y = 0
Next == y < 2 * SIGNBIT - 1 /\ y' = y + 1 /\ x' = x

Fins == {v \in AllBits : IsFin(v)}
(* exact value of a finite datum, in units of 2^QMIN *)
V(v) == SM(v) * 2^(Q(v) - QMIN)
(* the value that would follow the largest finite one: rounding beyond the *)
(* midpoint to it overflows *)
VInf == 2^(EMAX + 1 - QMIN)

(* r is the datum nearest to the exact rational n/d (n # 0), in units of 2^QMIN, ties to even. *)
Nearest(r, n, d) ==
  LET dist(v) == Abs(n - V(v) * d)
      beyond  == 2 * Abs(n) >= (V(MAXABS) + VInf) * d
  IN IF beyond THEN r = Inf(IF n < 0 THEN 1 ELSE 0)
     ELSE /\ IsFin(r)
          /\ SignOf(r) = (IF n < 0 THEN 1 ELSE 0)
          /\ \A v \in Fins : dist(r) <= dist(v)
          /\ \A v \in Fins : (dist(v) = dist(r) /\ V(v) # V(r)) => ~Odd(r)

U == 2^(-QMIN)            \* 1 in units of 2^QMIN

BothFin == IsFin(x) /\ IsFin(y)

RoundingIsNearest == BothFin =>
  /\ V(x) + V(y) # 0 => Nearest(Add(x, y), V(x) + V(y), 1)
  /\ V(x) - V(y) # 0 => Nearest(Sub(x, y), V(x) - V(y), 1)
  /\ V(x) * V(y) # 0 => Nearest(Mul(x, y), V(x) * V(y), U)
  /\ (V(x) # 0 /\ V(y) # 0) => Nearest(Div(x, y), Sgn(V(y)) * V(x) * U, Abs(V(y)))
  /\ V(x) * V(x) + V(y) * V(y) # 0 => Nearest(SumSq(x, y), V(x) * V(x) + V(y) * V(y), U)

FmaIsNearest == BothFin => \A z \in Fins :
  LET n == V(x) * V(y) + V(z) * U IN
  IF n # 0 THEN Nearest(Fma(x, y, z), n, U)
  ELSE IsZero(Fma(x, y, z))

SqrtIsNearest == (IsFin(x) /\ V(x) > 0 /\ y = 0) =>
  \* compare squares of midpoints: r nearest to sqrt(V(x)/U)*U = sqrt(V(x)*U)
  LET r == Sqrt(x)
      below == r - 1
      above == r + 1
      S == 4 * V(x) * U
      lo == V(below) + V(r)      \* 2 * midpoint
      hi == V(r) + V(above)
  IN /\ IsFin(r) /\ ~IsNeg(r)
     /\ lo * lo <= S /\ S <= hi * hi
     /\ (lo * lo = S \/ S = hi * hi) => ~Odd(r)

RemIsExact == (BothFin /\ V(y) # 0) =>
  LET r == Rem(x, y) IN
  /\ IsFin(r) /\ SignOf(r) = SignOf(x)
  /\ Abs(V(r)) < Abs(V(y))
  /\ (V(x) - V(r)) % Abs(V(y)) = 0

SpecialValues ==
  /\ (IsNaN(x) \/ IsNaN(y)) => \A r \in {Add(x, y), Sub(x, y), Mul(x, y), Div(x, y), Rem(x, y), SumSq(x, y)} : IsNaN(r)
  /\ (IsInf(x) /\ IsFin(y)) => /\ Add(x, y) = x /\ Sub(x, y) = x /\ Div(x, y) = Inf(XorSign(x, y))
                               /\ IsNaN(Rem(x, y)) /\ (IsNaN(Mul(x, y)) <=> IsZero(y))
                               /\ IsZero(Div(y, x)) /\ Rem(y, x) = y
  /\ (IsFin(x) /\ ~IsZero(x) /\ IsZero(y)) => Div(x, y) = Inf(XorSign(x, y)) /\ IsNaN(Rem(x, y))
  /\ (IsZero(x) /\ IsZero(y)) => IsNaN(Div(x, y))

Algebra ==
  /\ Same(Add(x, y), Add(y, x)) /\ Same(Mul(x, y), Mul(y, x)) /\ Same(SumSq(x, y), SumSq(y, x))
  /\ Same(Sub(x, y), Add(x, Neg(y)))
  /\ Same(Neg(Mul(x, y)), Mul(Neg(x), y)) /\ Same(Neg(Div(x, y)), Div(Neg(x), y))
  /\ (~IsNaN(x) /\ ~IsNaN(y) /\ ~IsZero(Add(x, y))) => Same(Neg(Add(x, y)), Add(Neg(x), Neg(y)))
  /\ Same(Fma(x, y, Zero(XorSign(x, y))), Mul(x, y)) /\ Same(Fma(x, ONE, y), Add(x, y))
  /\ Same(SumSq(x, Zero(0)), Mul(x, x))
  /\ Same(Fma(x, x, Mul(y, y)), Fma(x, x, Mul(y, y)))
  /\ (IsFin(x) /\ ~IsZero(x)) => Div(x, x) = ONE /\ Mul(x, ONE) = x /\ Add(x, Zero(0)) = x /\ Add(x, Zero(1)) = x
  /\ IsFin(x) => Add(x, Neg(x)) = Zero(0)
  /\ \A n \in -20..20 : Same(Scale(x, n), IF n >= 0 THEN Mul(x, FromInt(2^Min2(n, EMAX))) ELSE Scale(x, n))
       \/ n > EMAX
  /\ \A n \in 0..20 : Same(Scale(x, -n), IF n <= EMAX THEN Div(x, FromInt(2^n)) ELSE Scale(x, -n))
  (* Sterbenz: the difference of nearby numbers is exact *)
  /\ (BothFin /\ 2 * V(y) >= V(x) /\ V(x) >= 0 /\ 2 * V(x) >= V(y) /\ V(y) >= 0) => V(Sub(x, y)) = V(x) - V(y)

(* Correct rounding preserves order. *)
Monotone == (~IsNaN(x) /\ ~IsNaN(y) /\ Key(x) <= Key(y)) =>
  \A z \in AllBits :
     LET le(a, b) == IsNaN(a) \/ IsNaN(b) \/ Key(a) <= Key(b)
     IN /\ le(Add(x, z), Add(y, z))
        /\ ~IsNeg(z) => le(Mul(x, z), Mul(y, z))
        /\ (~IsNeg(z) /\ ~IsZero(z)) => le(Div(x, z), Div(y, z))
        /\ (~IsNeg(x)) => le(Sqrt(x), Sqrt(y))

Integral == LET modes == {"trunc", "floor", "ceil", "away", "even"} IN
  /\ \A md \in modes : LET r == ToIntegral(x, md) IN
       /\ Same(ToIntegral(r, md), r)
       /\ IsFin(x) => /\ IsFin(r) /\ V(r) % U = 0 /\ SignOf(r) = SignOf(x)
                      /\ Abs(V(r) - V(x)) < U
                      /\ md = "trunc" => Abs(V(r)) <= Abs(V(x))
                      /\ md = "floor" => V(r) <= V(x)
                      /\ md = "ceil" => V(r) >= V(x)
                      /\ md \in {"away", "even"} => 2 * Abs(V(r) - V(x)) <= U
                      /\ (md = "away" /\ 2 * Abs(V(r) - V(x)) = U) => Abs(V(r)) > Abs(V(x))
                      /\ (md = "even" /\ 2 * Abs(V(r) - V(x)) = U) => (V(r) \div U) % 2 = 0
       /\ ~IsFin(x) => r = x
  /\ IsFin(x) => /\ V(Sub(x, ToIntegral(x, "trunc"))) + V(ToIntegral(x, "trunc")) = V(x)
                 /\ Abs(V(Sub(x, ToIntegral(x, "trunc")))) < U
  /\ \A md \in modes : (BothFin /\ V(x) <= V(y)) => V(ToIntegral(x, md)) <= V(ToIntegral(y, md))

Order ==
  /\ (BothFin /\ ~Unordered(x, y)) => Cmp(x, y) = Sgn(V(x) - V(y))
  /\ TotalCmp(x, y) = -TotalCmp(y, x)
  /\ (TotalCmp(x, y) = 0) <=> x = y
  /\ \A z \in AllBits : (TotalCmp(x, y) <= 0 /\ TotalCmp(y, z) <= 0) => TotalCmp(x, z) <= 0
  /\ (~Unordered(x, y) /\ Cmp(x, y) # 0) => TotalCmp(x, y) = Cmp(x, y)
  /\ (IsNaN(x) /\ ~IsNaN(y)) => TotalCmp(x, y) = (IF IsNeg(x) THEN -1 ELSE 1)
  /\ (IsZero(x) /\ IsZero(y)) => Cmp(x, y) = 0
  /\ (IsFin(x) /\ IsInf(y)) => Cmp(x, y) = (IF IsNeg(y) THEN 1 ELSE -1)

Encoding == (y = 0) =>
  /\ IsFin(x) => /\ Round(SignOf(x), M(x), 1, Q(x)) = x
                 /\ V(Ulp(x)) = 2^(Q(x) - QMIN)
                 /\ (~IsZero(x) => V(Ulp(x)) <= Abs(V(x)))
                 /\ AbsOf(x) < MAXABS => V(AbsOf(x) + 1) - V(AbsOf(x)) = V(Ulp(x))
  /\ Cardinality({c \in {"Nan", "Infinite", "Zero", "Subnormal", "Normal"} : Class(x) = c}) = 1
  /\ FromNarrow(x, P, EW) = (IF IsNaN(x) THEN NAN ELSE x)
=============================================================================
