--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Hard cases made by the specification.  A step chooses a kind of case    *)
(* and random parameters, constructs operands whose exact result lies on   *)
(* (or as near as possible to) a point where the answer changes, and emits *)
(* the call as a scenario.  The scenarios are run by the real code and the *)
(* events judged by Trace.  The constructions need exact integers:         *)
(* modular inverses, square roots modulo 2^k, continued fractions of pi,   *)
(* decimal expansions of midpoints.                                        *)
(***************************************************************************)
EXTENDS Api, IOUtils

VARIABLES made, step
(* ---- random choices (TLC -simulate -seed); they mention step, lest TLC take them for constants ---- *)
Draw(S) == IF step < 0 THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RECURSIVE RandW(_)
RandW(k) == IF k = 0 THEN 0 ELSE RandW(k - 1) * 2^16 + Draw(0..65535)
Rand(k) == RandW(k \div 16 + 1) % 2^k                    \* uniform in 0 .. 2^k - 1
Pick(a, b) == Draw(a..b)
Coin == Draw({TRUE, FALSE})
(* k bits, top bit set, sometimes with long runs *)
Bits(k) == LET c == Pick(1, 6)
               r == Rand(k)
           IN CASE k = 1 -> 1
                [] k > 1 /\ c = 1 -> 2^(k - 1) + ((Rand(k) \div 2) % 2^Pick(1, k))
                [] k > 1 /\ c = 2 -> 2^k - 1 - (Rand(k) % 2^Pick(1, k) ) \div 2
                [] OTHER -> 2^(k - 1) + Rand(k) \div 2
OddBits(k) == LET b == Bits(k) IN b + 1 - (b % 2)
(* at most k bits made of words that the carries and estimates of long arithmetic depend on *)
RECURSIVE WordsOf(_, _)
WordsOf(n, w) == IF n = 0 THEN 0
                 ELSE WordsOf(n - 1, w) * 2^w + Draw({0, 0, 1, 2^w - 1, 2^w - 1, 2^w - 2, 2^(w - 1), 2^(w - 1) - 1, Rand(w)})
Words(k) == LET w == Draw({32, 64, 64, 128})
                n == WordsOf((k + w - 1) \div w, w)
            IN Max2(1, Draw({n % 2^k, Shift(n, -(BitLen(n) - k)) % 2^k}))
(* one bit anywhere below 2^k, as a distance *)
OneBit(k) == Draw({1, -1}) * 2^Pick(0, Max2(0, k - 1))

(* ---- modular arithmetic ---- *)
RECURSIVE InvPow2(_, _, _)                                \* y^-1 mod 2^k by Newton's iteration
InvPow2(y, inv, k) == IF (y * inv) % 2^k = 1 THEN inv ELSE InvPow2(y, (inv * (2 - y * inv)) % 2^k, k)
Inv2(y, k) == InvPow2(y % 2^k, y % 2^k, k)
(* a square root of d mod 2^k, d % 8 = 1: lift one bit at a time *)
RECURSIVE Root2(_, _, _, _)
Root2(d, r, j, k) == IF j >= k THEN r
                     ELSE Root2(d, IF (r * r - d) % 2^(j + 1) = 0 THEN r ELSE r + 2^(j - 1), j + 1, k)
RECURSIVE PowMod(_, _, _)
PowMod(b, n, m) == IF n = 0 THEN 1 % m
                   ELSE LET h == PowMod((b * b) % m, n \div 2, m) IN IF Odd(n) THEN (h * b) % m ELSE h

(* ---- data ---- *)
Datum(s, m, q) == Round(s, m, 1, q)
Sign == Pick(0, 1)
RECURSIVE HexN(_, _)
HexN(n, k) == IF k = 0 THEN "" ELSE LET d == n % 16 IN HexN(n \div 16, k - 1) \o SubSeq(HexDigits, d + 1, d + 1)
Hex64(x) == HexN(x, 64)
RECURSIVE HexMin(_)
HexMin(n) == IF n < 16 THEN SubSeq(HexDigits, n + 1, n + 1) ELSE HexMin(n \div 16) \o HexMin(n % 16)
HexInt(n) == IF n < 0 THEN "-" \o HexMin(-n) ELSE HexMin(n)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o Join(Tail(ss))
RECURSIVE HexText(_, _, _)                     \* of s[a..b]
HexText(s, a, b) == IF a > b THEN "" ELSE IF a = b THEN HexN(s[a], 2)
                    ELSE HexText(s, a, (a + b) \div 2) \o HexText(s, (a + b) \div 2 + 1, b)
(* one line that the harness can execute *)
Emit(op, xs, ns, s) ==
  PrintT("SCN:" \o op \o "|" \o Join([i \in DOMAIN xs |-> Hex64(xs[i])]) \o "|" \o Join([i \in DOMAIN ns |-> HexInt(ns[i])])
         \o "|" \o HexText(s, 1, Len(s)))
Neighbour(x, d) == LET a == AbsOf(x) + d IN IF a < 0 \/ a > EXPMASK THEN x ELSE WithSign(SignOf(x), a)

Small == {1, 2, 3, 5, 7, 9, 17, 63, 2^20 + 1, 2^40 - 1}
Delta == LET d == Draw(Small) IN IF Coin THEN d ELSE -d

(* ---- x * y at distance d from a midpoint (or on it) ---- *)
MulCase(op) ==
  \E k \in {Draw({P, P, P - 1, P \div 2, 100})} :      \* bits cut off
  \E x \in {OddBits(P)}, d \in {Draw({0, 1, -1, 2, -2, 3, -5, 2^30, OneBit(k - 1), OneBit(k - 1)})} :
  \E q \in {Pick(-400, 400)} : \E e \in {Draw({q, 100 - q, EMAX - 2 * P - q, QMIN - q - k, QMIN - q})} :
    LET y == ((2^(k - 1) + d) * Inv2(x, k)) % 2^k
    IN y # 0 => Emit(op, <<Datum(Sign, x, q), Datum(Sign, y, e)>>, <<>>, <<>>)

(* ---- squares next to a midpoint: m*m = x*2^(P+1) + d ---- *)
SqrtCase ==
  \E d \in {8 * Pick(-30, 30) + 1} :
  \E r \in {Root2(d, 1, 3, P + 3)} :
    LET c == {v \in {r % 2^(P + 1), (2^(P + 3) - r) % 2^(P + 1)} : v >= 2^P}
    IN c # {} => \E m \in c : \E q \in {Pick(-262000, 261000)} :
         LET n == m * m - d
             k == TrailZ(n)
             b == BitLen(n \div 2^k)
         IN Emit("sqrt", <<Neighbour(Datum(0, n \div 2^k, 2 * (q \div 2) + k), Pick(-1, 1))>>, <<>>, <<>>)
SquareCase ==                                            \* the square itself next to a midpoint
  \E d \in {8 * Pick(-30, 30) + 1} :
  \E r \in {Root2(d, 1, 3, P + 3) % 2^P} :
    r > 2^(P - 3) => Emit(Draw({"square", "sqadd", "sos"}),
                          <<Datum(Sign, r, Pick(-200, 200)), Datum(Sign, OddBits(Pick(1, P)), Pick(-1500, -700))>>, <<>>, <<>>)

(* ---- x / y next to a midpoint: x*2^k = m*y + d ---- *)
DivCase(op) ==
  \E k \in {Draw({P, P + 1})}, y \in {OddBits(P)}, d \in {Delta} :
    LET m == (-d * Inv2(y, k)) % 2^k
        n == m * y + d
    IN (m > 2^(k - 3)) =>
       \E x \in {n \div 2^k}, q \in {Pick(-300, 300)} :
         (x > 0) => Emit(op, <<Datum(Sign, x, q), Datum(Sign, y, Draw({-q, q, QMIN + Pick(0, 500), QMAX - Pick(0, 500)}))>>, <<>>, <<>>)
(* quotients that are subnormal or at the ends of the range *)
DivEdge ==
  \E m \in {OddBits(Pick(1, P + 1))}, y \in {OddBits(Pick(1, P))}, d \in {Pick(-1, 1)} :
    LET n == m * y + d
        k == Max2(0, BitLen(n) - P)
    IN n > 0 => \E e \in {QMIN - Pick(0, 3)} :                   \* m * 2^e is (near) a multiple of half a quantum
         \E qy \in {Pick(-131000, 131000)} :
           Emit("div", <<Datum(Sign, n \div 2^k, k + e + qy), Datum(Sign, y, qy)>>, <<>>, <<>>)

(* ---- x*y + z on, or next to, a midpoint ---- *)
FmaCase ==
  \E x \in {OddBits(Pick(P \div 2, P))}, y \in {OddBits(Pick(P \div 2, P))}, sg \in {Sign}, qx \in {Pick(-1000, 1000)} :
  \E cut \in {Max2(1, BitLen(x * y) - P)} :
  \E d \in {Draw({0, 0, 1, -1, 3, OneBit(cut - 1), OneBit(cut - 1)})},
     q \in {Draw({Pick(-300, 300), QMIN - cut, QMIN - cut + 1, QMIN - cut - Pick(0, 20)})} :
    LET z == 2^(cut - 1) - ((x * y) % 2^cut) + d                 \* p + z = ...1000 + d
    IN z # 0 => Emit("fma", <<Datum(sg, x, qx), Datum(0, y, q - qx),
                            Datum((sg + B2I(z < 0)) % 2, Abs(z), q)>>, <<>>, <<>>)
(* the product cancels the addend but for its last bits *)
FmaCancel ==
  \E x \in {OddBits(Pick(2, P))}, y \in {OddBits(Pick(2, P))}, sg \in {Sign}, d \in {Pick(-2, 2)} :
  \E q \in {Draw({Pick(-300, 300), QMIN - Pick(0, 480), QMAX - P - Pick(-3, 3)})}, qx \in {Pick(-1000, 1000)} :
    Emit("fma", <<Datum(sg, x, qx), Datum(0, y, q - qx), Neighbour(Datum(1 - sg, x * y, q), d)>>, <<>>, <<>>)
(* the addend dominates; the product is half a unit of it, more or less *)
FmaTail ==
  \E z \in {Draw({Bits(P), 2^(P - 1), 2^(P - 1), 2^P - 1})}, sg \in {Sign}, a \in {Pick(1, P)}, b \in {Pick(1, P)}, t \in {Pick(-3, 3)} :
  \E q \in {Pick(-300, 300)}, x \in {Draw({2^(a - 1), OddBits(a)})}, y \in {Draw({2^(b - 1), OddBits(b)})}, ex \in {Pick(-1000, 1000)} :
    LET e == q - BitLen(x * y) + t                               \* top bit of the product at q + t - 1
    IN Emit("fma", <<Datum(sg, x, ex), Datum(Sign, y, e - ex), Datum(Sign, z, q)>>, <<>>, <<>>)

(* ---- sums on, or next to, a midpoint ---- *)
AddCase ==
  \E x \in {Bits(P)}, q \in {Draw({0, QMIN, QMAX - P, Pick(-262000, 261000)})}, k \in {Pick(0, P + 3)}, sg \in {Sign} :
  \E y \in {Draw({2^(P - 1), 2^P - Pick(1, 3), OddBits(P), OddBits(P), Words(P)})} :
    Emit(Draw({"add", "sub"}), <<Datum(sg, x, q), Datum(Sign, y, Max2(QMIN, q - k))>>, <<>>, <<>>)
(* the part that is cut off is 1000...0 + d, with or without a carry (or a cancelled bit) *)
AddTie ==
  \E k \in {Draw({Pick(1, 6), Pick(1, 6), Pick(1, P + 2)})}, x \in {Draw({Bits(P), 2^P - OddBits(Pick(1, P - 1)), 2^(P - 1) + OddBits(Pick(1, P - 1))})},
     neg \in {Pick(0, 1)}, sg \in {Sign}, q \in {Draw({Pick(-300, 300), Pick(-262000, 261000), QMIN, QMAX - P - Pick(0, 3)})} :
  \E c \in {Max2(1, Draw({k - 1, k, k, k + 1, k + 1}))} : \E d \in {Draw({0, 1, -1, OneBit(c - 1), -OneBit(c - 1)})} :
  \E r \in {(IF neg = 0 THEN 2^(c - 1) + d - x * 2^k ELSE x * 2^k - 2^(c - 1) - d) % 2^c} :
  \E y \in {IF c >= P THEN r ELSE r + 2^c * Rand(P - c)} :
    (y > 0 /\ BitLen(y) <= P) =>
      IF Coin THEN Emit("add", <<Datum(sg, x, q + k), Datum((sg + neg) % 2, y, q)>>, <<>>, <<>>)
              ELSE Emit("sub", <<Datum((sg + 1 + neg) % 2, y, q), Datum((sg + 1) % 2, x, q + k)>>, <<>>, <<>>)
SosCase ==
  \E x \in {OddBits(Pick(2, P))}, y \in {OddBits(Pick(2, P))}, q \in {Draw({0, QMIN \div 2 - Pick(0, 240), 130700})} :
    Emit("sos", <<Datum(Sign, x, q), Datum(Sign, y, q + Pick(-240, 240))>>, <<>>, <<>>)
(* x^2 is a midpoint, y^2 far below: only the sticky bit decides *)
SosTie ==
  \E x \in {OddBits((P + 1) \div 2)}, y \in {Draw({1, 3, OddBits(Pick(1, P)), 2^(P - 1) + Pick(0, 1)})}, q \in {Draw({Pick(-100, 100), Pick(-131000, 130000)})},
     k \in {Draw({Pick(1, 260), Pick(300, 900), Pick(900, 262000), 600000, 600000})} :
  \E e \in {Max2(QMIN + Draw({0, 0, 1, Pick(0, 250)}), q - k)} :
    Emit("sos", IF Coin THEN <<Datum(Sign, x, q), Datum(Sign, y, e)>>
                ELSE <<Datum(Sign, y, e), Datum(Sign, x, q)>>, <<>>, <<>>)
(* x*y or z alone is a midpoint or the lower end of a binade, the other term far away: only its sign decides *)
FmaFar ==
  \E x \in {OddBits(Draw({(P + 1) \div 2, Pick(1, P)}))} :
  \E y \in {OddBits(P + 1 - BitLen(x))}, z \in {Draw({1, 3, 2^(P - 1), Bits(P)})},
     q \in {Draw({Pick(-400, 400), Pick(-262000, 261000)})}, qx \in {Pick(-1000, 1000)} :
    IF Coin
    THEN \E e \in {Draw({QMIN + Pick(0, 300), q - Pick(P, 3 * P), q - Pick(P, 262000)})} :
           Emit("fma", <<Datum(Sign, x, qx), Datum(Sign, y, q - qx), Datum(Sign, z, Max2(QMIN, e))>>, <<>>, <<>>)
    ELSE \E e \in {q - 2 * P - Draw({Pick(0, 600), Pick(0, 262000), Pick(0, 520000)})} : \E ex \in {Max2(QMIN, e \div 2)} :
           Emit("fma", <<Datum(Sign, x, ex), Datum(Sign, y, Max2(QMIN, e - ex)), Datum(Sign, z, q)>>, <<>>, <<>>)
(* operands, quotients and divisors made of words *)
MulWords ==
  \E x \in {Words(P)}, y \in {Words(P)}, q \in {Pick(-400, 400)}, op \in {Draw({"mul", "mull", "mulll", "square", "sqrt", "sos", "add", "sub"})} :
    CASE op = "square" -> Emit(op, <<Datum(Sign, x, q)>>, <<>>, <<>>)
      [] op = "sqrt" -> Emit(op, <<Datum(0, x, q)>>, <<>>, <<>>)
      [] op \in {"sos", "add", "sub"} -> Emit(op, <<Datum(Sign, x, q), Datum(Sign, y, q + Pick(-130, 130))>>, <<>>, <<>>)
      [] OTHER -> Emit("mul", <<Datum(Sign, x, q), Datum(Sign, y, Draw({q, QMIN - q, QMIN - q - P}))>>, <<>>, <<>>)
FmaWords ==
  \E x \in {Words(P)}, y \in {Words(P)}, z \in {Words(P)}, q \in {Pick(-400, 400)} :
    Emit("fma", <<Datum(Sign, x, q), Datum(Sign, y, -q), Datum(Sign, z, Pick(-300, 500))>>, <<>>, <<>>)
DivWords ==
  \E y \in {Words(Draw({P, P, P, Pick(1, P)}))}, m \in {Words(P + 1)}, d \in {Pick(-1, 1)}, q \in {Pick(-300, 300)} :
    LET n == m * y
        x == Shift(n, -Max2(0, BitLen(n) - P)) + d
    IN x > 0 => Emit("div", <<Datum(Sign, x, q), Datum(Sign, y, Pick(-300, 300))>>, <<>>, <<>>)
RemWords ==
  \E y \in {Words(Draw({P, Pick(129, P), Pick(126, 132), Pick(1, P)}))}, q \in {Draw({QMIN, QMIN, QMIN + Pick(0, 30), Pick(-300, 300)})} :
  \E n \in {Draw({y * Words(Pick(1, 270)) + Draw({0, 0, 1, y - 1, Rand(250) % y}), Words(P)})}, k \in {Draw({0, Pick(0, 40), Pick(0, 600)})} :
    Emit("rem", <<Datum(Sign, Shift(n, -Max2(0, BitLen(n) - P)), q + k + Max2(0, BitLen(n) - P)), Datum(Sign, y, q)>>, <<>>, <<>>)

(* ---- remainders: x * 2^k mod y = r with r chosen ---- *)
RemCase ==
  \E y \in {OddBits(Draw({P, P, Pick(2, P)}))}, k \in {Draw({Pick(0, 300), Pick(0, 5000), Pick(0, 520000)})} :
  \E r \in {Draw({0, 1, 2, y - 1, y - 2, Rand(P) % y, 2^100 % y})}, q \in {IF k > 262000 THEN QMIN + Pick(0, 100) ELSE Pick(-200, 200)} :
    LET x0 == (r * PowMod((y + 1) \div 2, k, y)) % y
        x == IF x0 = 0 THEN y ELSE x0
    IN (y > 1 /\ q + k <= QMAX) => Emit("rem", <<Datum(Sign, x, q + k), Datum(Sign, y, q)>>, <<>>, <<>>)
RemNear ==
  \E y \in {Bits(P)}, n \in {Draw({1, 2, 3, Rand(20) + 1, 2^Pick(1, 235)})}, q \in {Draw({QMIN, Pick(-300, 300)})} :
    Emit("rem", <<Neighbour(Datum(Sign, y * n, q), Pick(-1, 1)), Datum(Sign, y, q)>>, <<>>, <<>>)

(* ---- decimal literals on, or next to, midpoints ---- *)
SignText == Draw({<<>>, <<Minus>>, <<Plus>>})
(* d * 10^e in one of its spellings *)
SpellAt(ds, e, k) ==
  LET n == Len(ds)
      body == IF k = 0 THEN ds ELSE SubSeq(ds, 1, n - k) \o <<Dot>> \o SubSeq(ds, n - k + 1, n)
      ee == e + k
  IN IF ee = 0 /\ Coin THEN body ELSE body \o <<Draw({LowE, UpE})>> \o IntText(ee)
SpellPoint(ds) == Draw({0, 0, Pick(0, Len(ds)), Len(ds)})
Literal(ds0, e0) ==
  \E c \in {Pick(1, 8)}, z \in {Pick(1, 30)} :
    LET n == DecVal(ds0)
        t == CASE c = 4 -> <<ds0 \o Rep(C0, z - 1) \o <<49>>, e0 - z>>
               [] c = 5 -> <<DecDigits(n - 1) \o Rep(57, z), e0 - z>>
               [] c = 6 -> <<ds0 \o Rep(C0, z), e0 - z>>
               [] OTHER -> <<ds0, e0>>
    IN \E k \in {SpellPoint(t[1])} : Emit("parse", <<>>, <<>>, SignText \o SpellAt(t[1], t[2], k))
(* midpoint (2m+1) * 2^q exactly *)
ParseMid ==
  \E q \in {Draw({Pick(-1100, 200), Pick(-300, 100), Pick(-80, 20)})}, h \in {2 * Bits(P) + 1} :
    IF q >= 0 THEN Literal(DecDigits(h * 2^q), 0) ELSE Literal(DecDigits(h * 5^(-q)), q)
(* midpoints that are short decimals: (2m+1) = 5^k * odd, times 2^q, q >= k *)
ParseShort ==
  \E k \in {Pick(1, 102)} : \E c \in {OddBits(Max2(1, P + 1 - BitLen(5^k)))} : \E j \in {Pick(-30, 60)} :
    LET h == c * 5^k
    IN IF j >= 0 THEN Literal(DecDigits(c * 2^j), k) ELSE Literal(DecDigits(c * 5^(-j)), k + j)
(* midpoints of tiny and huge numbers, cut after some digits *)
ParseFar ==
  \E e \in {Draw({Pick(-78990, -78800), Pick(78700, 78912), Pick(-5000, 5000)})}, n \in {Draw({20, 60, 72, 73, 74, 77, 78, 79, 100, 150})} :
    \E m \in {IF e < -78913 THEN 2 * Rand(Max2(1, ((e + 78984) * 332) \div 100 + 2)) + 1 ELSE 2 * Bits(P) + 1} :
      LET q == IF e < -78913 THEN QMIN - 1 ELSE (e * 33219) \div 10000 - P
          k == n - (IF e < -78913 THEN e + 1 ELSE e)
          v == IF q < 0 THEN (IF k >= 0 THEN (m * 10^k) \div 2^(-q) ELSE m \div (2^(-q) * 10^(-k)))
                        ELSE (IF k >= 0 THEN m * 2^q * 10^k ELSE (m * 2^q) \div 10^(-k))
      IN v > 0 => \E ds \in {DecDigits(v + Pick(0, 1))} : \E j \in {SpellPoint(ds)} :
                    Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, -k, j))

(* as near to a midpoint as n digits come *)
ParseNear ==
  \E k \in {Draw({Pick(0, 110), Pick(-110, 0), Pick(-1030, 1030)})}, n \in {Draw({77, 77, 76, 78, 75, 79, Pick(60, 75)})} :
  \E b \in {(n * 33219) \div 10000 - Draw({0, 0, 1, 2})} :                           \* bits of the digits
  \E h \in {2 * Bits(P) + 1}, sh \in {b + (k * 33219) \div 10000 - P - 1} :       \* midpoint h * 2^sh
    LET num == (IF sh >= 0 THEN h * 2^sh ELSE h) * (IF k < 0 THEN 10^(-k) ELSE 1)
        den == (IF sh < 0 THEN 2^(-sh) ELSE 1) * (IF k >= 0 THEN 10^k ELSE 1)
        v == num \div den
    IN v > 0 => \E ds \in {DecDigits(v + Pick(0, 1))} : \E j \in {SpellPoint(ds)} :
                  Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, k, j))

(* ---- text: values next to a tie of the requested digits ---- *)
FmtArg(kind, p) == <<kind, 0, 0, 0, 0, -1, p>>
FmtSci(far) ==
  \E p \in {Draw({Pick(0, 75), Pick(0, 20), 70, 71, 72})} :
  \E k \in {IF far THEN Pick(-78900, 78900) ELSE Draw({Pick(-60, 60), Pick(-150, 160)})} :
  \E h \in {Draw({2 * (10^p + (Rand(250) % (9 * 10^p))) + 1, 2 * 10^(p + 1) - 1, 2 * 10^p + 1})} :     \* (2d+1) * 10^(k-p) / 2
    LET e == k - p
        x == IF e >= 0 THEN Round(Sign, h * 10^e, 2, 0) ELSE Round(Sign, h, 2 * 10^(-e), 0)
    IN Emit("fmt", <<Neighbour(x, Pick(-1, 1))>>, FmtArg(Pick(1, 2), p), <<>>)
FmtFixed ==
  \E p \in {Draw({Pick(0, 75), Pick(0, 20), 18, 19, 37, 38, 56, 57, 75})}, b \in {Pick(1, 230)} :
  \E h \in {Draw({2 * Rand(b) + 1, 2 * 10^Pick(0, 75) - 1})} :
    Emit("fmt", <<Neighbour(Round(Sign, h, 2 * 10^p, 0), Pick(-1, 1))>>, FmtArg(0, p), <<>>)
(* short decimals, and numbers whose rounding interval ends in one *)
ShortCase ==
  \E n \in {Pick(1, 72)}, k \in {Draw({Pick(-100, 100), Pick(-400, 400), Pick(-78900, 78800)})} :
  \E d \in {10^(n - 1) + (Rand(250) % (9 * 10^(n - 1)))} :
    Emit("round", <<Neighbour(IF k >= 0 THEN Round(Sign, d * 10^k, 1, 0) ELSE Round(Sign, d, 10^(-k), 0), Pick(-1, 1))>>,
         <<IF k > 400 \/ k < -400 THEN Pick(1, 2) ELSE Pick(0, 2)>>, <<>>)
ShortEdge ==
  \E k \in {Pick(1, 102)} : \E c \in {OddBits(Max2(1, P + 1 - BitLen(5^k)))}, j \in {Pick(0, 60)}, d \in {Pick(-1, 1)} :
    LET h == c * 5^k                                             \* odd: midpoint h * 2^(j+k) of two neighbours
    IN Emit("round", <<Datum(Sign, (h + d) \div 2, k + j + 1)>>, <<Pick(0, 2)>>, <<>>)

(* ---- arguments of sin, cos, tan next to multiples of pi/2 ---- *)
Trigs == {"sin", "cos", "tan", "sincos"}
TrigMultiple ==
  \E b \in {Draw({Pick(1, 30), Pick(105, 130), Pick(1, 236), Pick(237, 2000), Pick(237, 262000)})} :
  \E n \in {IF b <= 236 THEN Bits(b) ELSE Bits(236) * 2^(b - 236)}, d \in {Pick(-2, 2)} :
    LET w == Max2(0, 600 - b)
    IN Emit(Draw(Trigs), <<Neighbour(Round(Sign, n * PiAt(b + 600), 2, -(b + 600)), d)>>, <<>>, <<>>)
(* ... and at a given distance of about 2^t from them *)
TrigDist ==
  \E t \in {Pick(-235, -1)} : \E b \in {Pick(1, 236 + t)} :
  \E n \in {Bits(b)}, d \in {Draw({1, -1}) * Bits(Pick(1, 40))} :
    Emit(Draw(Trigs), <<Round(Sign, n * PiAt(b + 600) + Shift(d, t + b + 601 - BitLen(Abs(d))), 2, -(b + 600))>>, <<>>, <<>>)
(* best approximations m*2^q ~ n*pi/2 from the continued fraction of 2^(q+1)/pi *)
RECURSIVE Conv(_, _, _, _)                 \* a/b expanded while the denominator has at most P bits
Conv(a, b, h, g) ==                        \* h = <<h1, h0>> numerators, g likewise (g = multiplier m)
  IF b = 0 THEN g[1]
  ELSE LET t == a \div b
           g2 == t * g[1] + g[2]
       IN IF BitLen(g2) > P THEN g[1] ELSE Conv(b, a - t * b, h, <<g2, g[1]>>)
TrigWorst ==
  \E q \in {Draw({Pick(-236, 100), Pick(0, 3000), Pick(0, 261900)})}, k \in {Pick(1, 3)} :
    LET w == Max2(q, 0) + 1200
        \* fraction of m * 2^q * 2/pi close to 0: convergents of frac(2^(q+1)/pi)
        den == PiAt(w)                                            \* pi * 2^w
        num == Shift(1, w + q + 1 + 0) % den                      \* 2^(q+1)/pi mod 1 = num/den
        m == Conv(num, den, <<0, 1>>, <<0, 1>>)
    IN m > 0 => Emit(Draw(Trigs), <<Datum(Sign, k * m, q)>>, <<>>, <<>>)
TrigPlain ==
  \E q \in {Draw({Pick(-600, -200), Pick(-240, 10), Pick(-300, 261900), QMIN})}, m \in {Bits(P)} :
    Emit(Draw(Trigs), <<Datum(Sign, m, q)>>, <<>>, <<>>)

(* ---- logarithms next to 1, powers of two and ten ---- *)
Logs == {"ln", "log2", "log10"}
LogNear ==
  \E x \in {Draw({ONE, FromInt(2^Pick(1, 300)), FromInt(10^Pick(1, 100)), Round(0, 1, 10^Pick(1, 100), 0), Round(0, 1, 2^Pick(1, 200), 0)})} :
  \E d \in {Draw({Pick(-3, 3), 2^Pick(0, 235), -(2^Pick(0, 235)), Rand(Pick(1, 235)), -Rand(Pick(1, 235))})} :
    Emit(Draw(Logs), <<Neighbour(x, d)>>, <<>>, <<>>)
LogAny ==
  \E m \in {Bits(P)}, q \in {Draw({Pick(QMIN \div 16, QMAX \div 16) * 16, Pick(-260, -210), QMIN})} :
    Emit(Draw(Logs), <<Datum(0, m, q)>>, <<>>, <<>>)

(* ---- inverse functions ---- *)
AsinNear ==
  \E b \in {Draw({ONE, ONE - HID, Round(0, SqrtFix(1, 2), 1, -W), Round(0, SqrtFix(3, 1), 2, -W)})} :
  \E d \in {Draw({Pick(-3, 0), -(2^Pick(0, 235)), -Rand(Pick(1, 235))})} :
    Emit(Draw({"asin", "acos", "atan"}), <<WithSign(Sign, b + d)>>, <<>>, <<>>)
AsinAny ==
  \E m \in {Bits(P)}, q \in {Draw({-P, Pick(-P - 260, -P), Pick(-P - 20, -P)})} :
    Emit(Draw({"asin", "acos", "atan"}), <<Datum(Sign, m, q)>>, <<>>, <<>>)
AtanAny ==
  \E m \in {Bits(P)}, q \in {Draw({Pick(-250, -220), Pick(-600, 300), Pick(-262000, 261000)})} :
    Emit("atan", <<Datum(Sign, m, q)>>, <<>>, <<>>)
Atan2Any ==
  \E m \in {Bits(P)}, n \in {Bits(P)}, q \in {Draw({Pick(-250, 250), Pick(-261000, 261000), QMIN, QMAX})}, d \in {Draw({0, Pick(-3, 3), Pick(-260, 260), Pick(-1200, 1200)})} :
    Emit("atan2", IF Coin THEN <<Datum(Sign, m, q), Datum(Sign, n, q + d)>> ELSE <<Datum(Sign, m, q), Neighbour(Datum(Sign, m, q), Pick(-1, 1))>>, <<>>, <<>>)

(* ---- rounding to integers ---- *)
IntegralCase ==
  \E b \in {Pick(1, P)}, d \in {Pick(-2, 2)} : \E n \in {Draw({Bits(b), OddBits(b), 2^b, 2^b - 1})} :
    Emit("integral", <<Neighbour(Round(Sign, n, Draw({1, 2, 2, 4}), 0), d)>>, <<>>, <<>>)
ScaleCase ==
  \E m \in {Bits(Pick(1, P))}, q \in {Draw({QMIN, QMIN + Pick(0, 300), QMAX - Pick(0, 300), Pick(-1000, 1000)})} :
    LET k == Draw({Pick(0, 3), Pick(0, 500), Pick(261000, 263000), Abs(q - QMIN + Pick(-240, 240)), Abs(QMAX - q + Pick(-240, 240)),
                            Pick(524000, 524800)})
    IN Emit(Draw({"mulp2", "divp2"}), <<Datum(Sign, m, q)>>, <<k>>, <<>>)
UlpCase == \E m \in {Bits(Pick(1, P))}, q \in {Draw({QMIN + Pick(0, 500), Pick(-262000, 261000)})} :
    Emit(Draw({"ulp", "class", "parts"}), <<Datum(Sign, m, q)>>, <<>>, <<>>)
AngleCase ==
  \E n \in {Bits(Pick(1, P))}, q \in {Draw({Pick(-300, 300), QMIN, QMIN + Pick(0, 240), QMAX - Pick(0, 8)})} :
    Emit(Draw({"deg", "rad"}), <<Datum(Sign, n, q)>>, <<>>, <<>>)

Step(kind) ==
  CASE kind = "mul" -> MulCase("mul")   [] kind = "square" -> SquareCase
    [] kind = "div" -> DivCase("div")   [] kind = "divedge" -> DivEdge
    [] kind = "sqrt" -> SqrtCase        [] kind = "add" -> AddCase
    [] kind = "fma" -> FmaCase          [] kind = "fmacancel" -> FmaCancel  [] kind = "fmatail" -> FmaTail
    [] kind = "mulwords" -> MulWords    [] kind = "divwords" -> DivWords  [] kind = "remwords" -> RemWords [] kind = "fmawords" -> FmaWords
    [] kind = "fmafar" -> FmaFar        [] kind = "addtie" -> AddTie
    [] kind = "sos" -> SosCase          [] kind = "sostie" -> SosTie
    [] kind = "rem" -> RemCase          [] kind = "remnear" -> RemNear
    [] kind = "parsemid" -> ParseMid    [] kind = "parseshort" -> ParseShort [] kind = "parsefar" -> ParseFar
    [] kind = "parsenear" -> ParseNear
    [] kind = "fmtsci" -> FmtSci(FALSE) [] kind = "fmtfar" -> FmtSci(TRUE)   [] kind = "fmtfixed" -> FmtFixed
    [] kind = "short" -> ShortCase      [] kind = "shortedge" -> ShortEdge
    [] kind = "trigmult" -> TrigMultiple [] kind = "trigworst" -> TrigWorst [] kind = "trigdist" -> TrigDist  [] kind = "trig" -> TrigPlain
    [] kind = "lognear" -> LogNear      [] kind = "log" -> LogAny
    [] kind = "asinnear" -> AsinNear    [] kind = "asin" -> AsinAny [] kind = "atan" -> AtanAny [] kind = "atan2" -> Atan2Any
    [] kind = "integral" -> IntegralCase [] kind = "scale" -> ScaleCase
    [] kind = "ulp" -> UlpCase          [] kind = "angle" -> AngleCase

(* the kinds named in the environment, separated by blanks *)
RECURSIVE Split(_, _, _)
Split(t, i, w) == IF i > Len(t) THEN {w} \ {""}
                  ELSE IF SubSeq(t, i, i) = " " THEN ({w} \ {""}) \union Split(t, i + 1, "")
                  ELSE Split(t, i + 1, w \o SubSeq(t, i, i))
Kinds == Split(IOEnv.KINDS, 1, "")

Init == made = "" /\ step = 0
Next == \E k \in {Draw(Kinds)} : Step(k) /\ made' = k /\ step' = step + 1
=============================================================================
