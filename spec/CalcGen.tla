------------------------------- MODULE CalcGen -------------------------------
(* Behaviours of the calculator on the real format, written out for replay   *)
(* in the code: one line per step, with the value the register must then     *)
(* hold.  (TLC -simulate)                                                     *)
EXTENDS Calc

Draw(S) == IF pc < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RECURSIVE RandW(_)
RandW(k) == IF k = 0 THEN 0 ELSE RandW(k - 1) * 2^16 + Draw(0..65535)
Rand(k) == RandW(k \div 16 + 1) % 2^k
Pick(a, b) == Draw(a..b)
Bits(k) == LET r == Rand(k) IN IF k > 1 /\ Draw(1..4) = 1 THEN 2^(k - 1) + (r % 2^Pick(1, k - 1)) ELSE 2^(k - 1) + r \div 2

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o Join(Tail(ss))
RECURSIVE HexMin(_)
HexMin(n) == IF n < 16 THEN SubSeq(HexDigits, n + 1, n + 1) ELSE HexMin(n \div 16) \o HexMin(n % 16)
HexInt(n) == IF n < 0 THEN "-" \o HexMin(-n) ELSE HexMin(n)

Specials == {Zero(0), Zero(1), ONE, WithSign(1, ONE), Inf(0), Inf(1), NAN, MAXABS, WithSign(1, MAXABS), 1, WithSign(1, 1), HID, HID - 1, ONE + 1, ONE - 1}
Fresh ==
  LET c == Draw(1..20)
      q == CASE c <= 6 -> Pick(-240, 10)
             [] c = 7 -> QMIN + Pick(0, 250)
             [] c = 8 -> QMAX - Pick(0, 250)
             [] c = 9 -> (QMIN \div 2) + Pick(-250, 250)
             [] c = 10 -> (QMAX \div 2) + Pick(-250, 250)
             [] c = 11 -> Pick(-1000, 1000)
             [] OTHER -> LET x == Val(Draw(1..NR)) IN          \* next to a register
                         IF IsFin(x) /\ pc > 0 THEN Min2(QMAX, Max2(QMIN, Q(x) + Pick(-240, 240))) ELSE 0
  IN IF c = 12 THEN Draw(Specials) ELSE Round(Pick(0, 1), Bits(Draw({P, P, P, Pick(1, P), Pick(1, 20)})), 1, q)

Regs == 1..NR
Tame(x) == IsFin(x) /\ (IsZero(x) \/ Abs(Q(x)) < 3000)          \* texts of these are quick to read
Ops == Binops \union Unops \union Scalings \union {"fma", "fma", "load", "fromint", "text", "sci", "cmp", "class"}
Frequent == {"add", "sub", "mul", "div", "fma", "sos", "sqadd", "sqrt", "rem"}

Line(op, d, s, n, res) == PrintT("CALC:" \o op \o "|" \o ToString(d) \o "|" \o Join([i \in DOMAIN s |-> ToString(s[i])]) \o "|" \o Join([i \in DOMAIN n |-> HexInt(n[i])]) \o "|" \o res)
Put(d, op, s, n, v) == LET h == Enc(v) IN Line(op, d, s, n, h) /\ regs' = [regs EXCEPT ![d] = h]
Load(d) == Put(d, "load", <<>>, <<>>, Fresh)

(* results that end the play (NaN, and most zeroes and infinities) are rare *)
Keep(r) == IF IsNaN(r) THEN Draw(1..12) = 1 ELSE IF IsInf(r) \/ IsZero(r) THEN Draw(1..3) = 1 ELSE TRUE

Apply(op, s, d, n) ==
  \E v \in {[i \in DOMAIN s |-> Val(s[i])]} :
    IF Open(op, v) THEN Load(d)
    ELSE \E r \in {Value(op, v, n)} : IF Keep(r) THEN Put(d, op, s, IF op \in Scalings THEN <<n>> ELSE <<>>, r) ELSE Load(d)

Step(op) ==
  \E s \in {[i \in 1..Arity(op) |-> Draw(Regs)]}, d \in {Draw(Regs)} :
  \E x \in {Val(s[1])} :
    CASE op = "load" -> Load(d)
      [] op = "fromint" -> \E k \in {Rand(Pick(1, 127)) * Draw({1, -1})} : Put(d, "fromint", <<>>, <<k>>, FromInt(k))
      [] op = "text" -> IF Tame(x) THEN Put(d, "text", s, <<Pick(0, 2)>>, x) ELSE Load(d)
      [] op = "sci" -> \E p \in {Pick(0, 75)} :
                         IF Tame(x) /\ ~IsZero(x) /\ ~TableUnsafe(x, 1, p)
                         THEN Put(d, "sci", s, <<p>>, Read((IF IsNeg(x) THEN <<Minus>> ELSE <<>>) \o SciBody(AbsOf(x), p, 1))[2]) ELSE Load(d)
      [] op = "cmp" -> \E e \in {Draw(Regs)} : \E y \in {Val(e)} :
                         IF BothNeg(x, y) THEN Load(d)
                         ELSE /\ Line("cmp", d, <<s[1], e>>, <<>>, IF Unordered(x, y) THEN "N" ELSE ToString(Cmp(x, y)))
                              /\ UNCHANGED regs
      [] op = "class" -> Line("class", d, s, <<>>, Class(x)) /\ UNCHANGED regs
      [] op \in Scalings -> \E n \in {Draw({Pick(0, 4), Pick(0, 300), Pick(0, 263000), Pick(523000, 525000), Pick(0, 2000000000)})} : Apply(op, s, d, n)
      [] OTHER -> Apply(op, s, d, 0)

Init == regs = [r \in Regs |-> Enc(0)] /\ pc = 0
Next ==
  /\ pc' = pc + 1
  /\ IF pc = 0
     THEN \E f \in {[r \in Regs |-> Enc(Fresh)]} :
            regs' = f /\ Line("begin", 0, <<>>, <<>>, Join([r \in Regs |-> f[r]]))
     ELSE \E op \in {IF Draw(1..3) = 1 THEN Draw(Ops) ELSE Draw(Frequent)} : Step(op)
=============================================================================
