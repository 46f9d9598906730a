------------------------------- MODULE TinyText -------------------------------
(* Text.tla on small formats, against first principles: one state per datum. *)
EXTENDS Text

VARIABLES x, i
Init == x \in AllBits /\ i = 0
Next == i < 40 /\ i' = i + 1 /\ x' = x

Fins == {v \in AllBits : IsFin(v)}
V(v) == SM(v) * 2^(Q(v) - QMIN)                  \* in units of 2^QMIN
U == 2^(-QMIN)
VInf == 2^(EMAX + 1 - QMIN)

(* the value n/d (in units of 1) written as a fraction of units of 2^QMIN is nearest to datum r *)
Nearest(r, n, d) ==
  LET N == n * U
      dist(v) == Abs(N - V(v) * d)
      beyond == 2 * Abs(N) >= (V(MAXABS) + VInf) * d
  IN IF beyond THEN r = Inf(IF n < 0 THEN 1 ELSE 0)
     ELSE /\ IsFin(r)
          /\ \A v \in Fins : dist(r) <= dist(v)
          /\ \A v \in Fins : (dist(v) = dist(r) /\ V(v) # V(r)) => ~Odd(r)

(* a literal is read as d * 10^k *)
Val10(d, k) == IF k >= 0 THEN <<d * 10^k, 1>> ELSE <<d, 10^(-k)>>
Lit(d, k) == DecDigits(d) \o <<LowE>> \o IntText(k)

(* ---- reading: d * 10^k for the d near x's own decimals, and other spellings of it ---- *)
K10 == {-6, -3, -2, -1, 0, 1, 2}
Around(k) == LET s == Scaled(x, -k) IN {(s[1] \div s[2]) + j : j \in {0, 1}} \cup {i}
ReadNearest == IsFin(x) =>
  \A k \in K10 : \A d \in Around(k) :
    LET a == Read(Lit(d, k))
        v == Val10(d, k)
        same(t) == Read(t) = a
    IN /\ a[1] = "OK"
       /\ d # 0 => Nearest(a[2], v[1], v[2])
       /\ d = 0 => a[2] = Zero(0)
       /\ Read(<<Minus>> \o Lit(d, k)) = <<"OK", WithSign(1, a[2])>>
       /\ same(<<Plus>> \o Lit(d, k)) /\ same(<<C0, C0>> \o Lit(d, k))
       /\ same(DecDigits(d) \o <<Dot, C0, UpE>> \o IntText(k))
       /\ same(DecDigits(d) \o Rep(C0, 3) \o <<LowE>> \o IntText(k - 3))
       /\ same(<<Dot>> \o DecDigits(d) \o <<LowE>> \o IntText(k + Len(DecDigits(d))))
       /\ k <= 0 => same(Point(DecDigits(d), -k))
       /\ k >= 0 => same(DecDigits(d) \o Rep(C0, k))
(* middles of neighbours, and the same middles with a nonzero digit far behind *)
ReadMiddle == (IsFin(x) /\ ~IsNeg(x) /\ x # MAXABS /\ i = 0) =>
  LET m == V(x) + V(x + 1)                                   \* twice the middle, units of 2^QMIN
      ds == DecDigits(m * 5^(1 - QMIN))
      t  == Point(ds, 1 - QMIN)                              \* the exact middle
  IN /\ Read(t) = <<"OK", IF Odd(x) THEN x + 1 ELSE x>>
     /\ Read(t \o Rep(C0, 30) \o <<49>>) = <<"OK", x + 1>>
     /\ m > 0 => Read(Point(DecDigits(m * 5^(1 - QMIN) * 10^20 - 1), 21 - QMIN)) = <<"OK", x>>

(* ---- digits ---- *)
DigitsOf(t) == SelectSeq(t, IsDigit)
Body(t) == LET e == SelectInSeq(t, LAMBDA c : c \in {LowE, UpE}) IN IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
Exp(t) == LET e == SelectInSeq(t, LAMBDA c : c \in {LowE, UpE})
          IN IF e = 0 THEN 0 ELSE IF t[e + 1] = Minus THEN -DecVal(From(t, e + 2)) ELSE DecVal(From(t, e + 1))
(* t shows |x| with p digits behind the point, scaled by 10^Exp, correctly rounded *)
Shows(t, p) ==
  LET b == Body(t)
      k == Exp(t)
      D == DecVal(DigitsOf(b))
      s == Scaled(x, p - k)                                  \* |x| * 10^(p-k)
      err == 2 * Abs(D * s[2] - s[1])
  IN /\ IF p = 0 THEN \A j \in DOMAIN b : IsDigit(b[j])
        ELSE Len(b) > p + 1 /\ b[Len(b) - p] = Dot /\ Len(DigitsOf(b)) = Len(b) - 1
     /\ err <= s[2] /\ (err = s[2] => ~Odd(D))
FixedShows == (IsFin(x) /\ i <= 12) => Shows(FixedBody(x, i), i) /\ LET b == FixedBody(x, i) IN b[1] # C0 \/ Len(b) = 1 \/ b[2] = Dot
SciShows == (IsFin(x) /\ i <= 12) =>
  LET t == SciBody(x, i, 1) IN
  /\ Len(Body(t)) = (IF i = 0 THEN 1 ELSE i + 2)
  /\ Shows(t, i)
  /\ IF IsZero(x) THEN t[1] = C0 /\ Exp(t) = 0 ELSE t[1] # C0

(* ---- shortest: against a search over all significands with few digits ---- *)
NDig(d) == Len(DecDigits(d))
Reads(d, k) == LET v == Val10(d, k) IN
               Round(0, IF k >= 0 THEN v[1] ELSE d, IF k >= 0 THEN 1 ELSE v[2], 0) = AbsOf(x)
ShortestSet == (IsFin(x) /\ ~IsZero(x) /\ i = 0) =>
  LET l == Log10Floor(x)
      \* all d * 10^k with n digits around x that read back as x
      near(n) == {dk \in {<<(Scaled(x, n - 1 - l - j)[1] \div Scaled(x, n - 1 - l - j)[2]) + c, l + j - n + 1>> : j \in {-1, 0, 1}, c \in -60..60} :
                    dk[1] > 0 /\ NDig(dk[1]) = n /\ Reads(dk[1], dk[2])}
      n0 == CHOOSE n \in 1..12 : near(n) # {} /\ \A m \in 1..(n - 1) : near(m) = {}
      leq(a, b) == LET p == IF a[2] > b[2] THEN b[2] ELSE a[2]        \* same unit 10^p
                       e(c) == LET s == Scaled(x, -p) IN Abs(c[1] * 10^(c[2] - p) * s[2] - s[1])
                   IN e(a) <= e(b)
      best == {a \in near(n0) : \A b \in near(n0) : leq(a, b)}
  IN /\ ShortSet(x) \subseteq near(n0)
     /\ best \subseteq ShortSet(x)
     /\ ShortSet(x) # best => <<1, ShortExp(x)>> \in ShortSet(x)
ShortReads == (IsFin(x) /\ i = 0) =>
  \A kind \in 0..2 : \A b \in Outs(x, <<kind, 0, 0, 0, 0, -1, -1>>) : Read(b) = <<"OK", x>>

(* ---- padding: the width is reached, and what is left after taking the padding away is the bare text ---- *)
Padding == (i <= 20) =>
  \A align \in 0..3, zero \in 0..1, plus \in 0..1, prec \in {-1, 2} :
    \A t \in Outs(x, <<i % 3, 1, align, plus, zero, i, prec>>) :
    \E b \in Outs(x, <<i % 3, 1, align, plus, 0, -1, prec>>) :
      /\ Len(t) = Max2(Len(b), i)
      /\ IF zero = 1 /\ ~IsNaN(x)
         THEN LET sg == b[1] \in {Plus, Minus}
                  k == Len(t) - Len(b)
              IN t = (IF sg THEN <<b[1]>> ELSE <<>>) \o Rep(C0, k) \o (IF sg THEN Tail(b) ELSE b)
         ELSE \E l \in 0..(Len(t) - Len(b)) :
                /\ t = Rep(42, l) \o b \o Rep(42, Len(t) - Len(b) - l)
                /\ align = 1 => l = 0
                /\ align \in {0, 3} => l = Len(t) - Len(b)
                /\ align = 2 => 2 * l \in {Len(t) - Len(b), Len(t) - Len(b) - 1}
=============================================================================
