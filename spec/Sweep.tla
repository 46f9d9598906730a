-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* Systematic scenarios: every member of a family that is indexed by       *)
(* something countable in the format or in the way numbers are computed    *)
(* with: every distance of two exponents, every number of bits lost to     *)
(* underflow, every length of a subnormal significand, every decimal       *)
(* exponent near 0 and a grid of the others, every binade next to 1, every *)
(* 256th of the unit interval, every block of digits of 2/pi, every short  *)
(* string, all pairs of special data, ...  What is not determined by the   *)
(* index is drawn at random.                                               *)
(***************************************************************************)
EXTENDS Gen

Emn(op, xs, ns) == Emit(op, xs, ns, <<>>)
Em(op, xs) == Emit(op, xs, <<>>, <<>>)
Cyc(s, i) == s[(i % Len(s)) + 1]

(* ---- arithmetic: every distance of the exponents ---- *)
SwAdd(i) ==
  \E k \in {i % 481}, v \in {i \div 481} :
  \E x \in {CASE v = 0 -> 2^(P - 1) [] v = 1 -> 2^P - 1 [] OTHER -> Bits(P)},
     y \in {CASE v = 0 -> 2^P - 1 - Rand(3) [] v = 1 -> 2^(P - 1) + Rand(3) [] OTHER -> Draw({Bits(P), OddBits(P)})},
     q \in {Draw({Pick(-300, 300), QMAX - k, QMAX - 1 - k, QMIN})}, op \in {Draw({"add", "sub"})} :
    IF Coin THEN Em(op, <<Datum(Sign, x, q + k), Datum(Sign, y, q)>>) ELSE Em(op, <<Datum(Sign, y, q), Datum(Sign, x, q + k)>>)
(* a significand of P bits whose last t bits are 1000..0 + d *)
TieBits(t, d) == 2^(P - 1) + ((Rand(P) * 2^t) % 2^(P - 1)) + 2^(t - 1) + d
(* results below the normal range: k bits are lost *)
SwMulUnder(i) ==
  \E k \in {i % 482}, v \in {i \div 482} : \E t \in {k - (P - 1)}, qx \in {Pick(-131000, -125000)} :
    IF v = 0 \/ t < 1 \/ t > P - 1
    THEN Em("mul", <<Datum(Sign, Bits(P), qx), Datum(Sign, Bits(P), QMIN - k - qx)>>)
    ELSE Em("mul", <<Datum(Sign, TieBits(t, Pick(-1, 1)), qx), Datum(Sign, 2^(P - 1), QMIN - k - qx)>>)
SwDivUnder(i) ==
  \E k \in {(i % 244) - 3}, v \in {i \div 244} : \E qy \in {Pick(0, 100000)} : \E qx \in {QMIN + P - 1 - k + qy} :
    IF v = 0 \/ k < 1 \/ k > P - 1
    THEN Em("div", <<Datum(Sign, Bits(P), qx), Datum(Sign, Bits(P), qy)>>)
    ELSE Em("div", <<Datum(Sign, TieBits(k, Pick(-1, 1)), qx), Datum(Sign, 2^(P - 1), qy)>>)
(* subnormal results of short operands: the exact result is on, or a little off, the middle of two data; the part that *)
(* tells which is in the bits cut off by the multiplication proper, or in the remainder of the division                *)
SwMulShort(i) ==
  \E b \in {(i % 235) + 2}, s \in {(i \div 235) - 1} : \E y \in {OddBits(b)}, w \in {Min2(b + s, P - 1)} :
  \E d \in {Draw({0, 1, -1, OneBit(w - 1), -OneBit(w - 1)})}, qx \in {Pick(-131000, -125000)} :
  \E x \in {2^(P - 1) + ((Rand(P) * 2^w) % 2^(P - 1)) + (((2^(w - 1) + d) * Inv2(y, w)) % 2^w)} :
    IF Pick(0, 3) > 0 THEN Em("mul", IF Coin THEN <<Datum(Sign, x, qx), Datum(Sign, y, QMIN - w - qx)>> ELSE <<Datum(Sign, y, QMIN - w - qx), Datum(Sign, x, qx)>>)
    ELSE Em("fma", <<Datum(Sign, x, qx), Datum(Sign, y, QMIN - w - qx), Draw({Zero(0), Zero(1), Datum(Sign, 1, QMIN)})>>)
SwMulSub(i) ==                                           \* the same with a subnormal operand
  \E b \in {(i % 235) + 2}, s \in {(i \div 235) - 1} : \E y \in {OddBits(b)}, w \in {Min2(b + s, P - 1)} :
  \E d \in {Draw({0, 1, -1, OneBit(w - 1), -OneBit(w - 1)})} :
  \E x \in {2^(P - 1) + ((Rand(P) * 2^w) % 2^(P - 1)) + (((2^(w - 1) + d) * Inv2(y, w)) % 2^w)}, z \in {Pick(0, P - b)} :
    Em("mul", IF Coin THEN <<Datum(Sign, x, -w - z), Datum(Sign, y * 2^z, QMIN)>> ELSE <<Datum(Sign, y * 2^z, QMIN), Datum(Sign, x, -w - z)>>)
SwDivShort(i) ==
  \E b \in {(i % 236) + 1}, s \in {(i \div 236) + 1} : \E y \in {OddBits(b)}, ex \in {Max2(0, b - s + 2)}, d \in {Draw({1, -1, 3, -5})}, qy \in {Pick(1, 131000)} :
  \E t \in {2^(P - s) + (IF ex = 0 THEN 1 + ((2 * Rand(P)) % 2^(P - s)) ELSE ((Rand(P) * 2^ex) % 2^(P - s)) + ((-d * Inv2(y, ex)) % 2^ex))} :
    Em("div", <<Datum(Sign, (y * t + d) \div 2^ex, ex + qy + QMIN - 1), Datum(Sign, y, qy)>>)
SwFmaShort(i) ==
  \E b \in {(i % 235) + 2}, s \in {(i \div 235) - 1} : \E y \in {OddBits(b)}, w \in {Min2(b + s, P - 1)} :
  \E d \in {Draw({0, 1, -1, OneBit(w - 1), -OneBit(w - 1)})}, qx \in {Pick(-131000, -125000)} :
  \E x \in {2^(P - 1) + ((Rand(P) * 2^w) % 2^(P - 1)) + (((2^(w - 1) + d) * Inv2(y, w)) % 2^w)} :
  \E z \in {Draw({1, 2^(P - 1), Bits(Pick(1, P)), Bits(P), (x * y) \div 2^w, ((x * y) \div 2^w) + 1})} :
    Em("fma", IF Coin THEN <<Datum(Sign, x, qx), Datum(Sign, y, QMIN - w - qx), Datum(Sign, z, QMIN + Draw({0, 0, 1, Pick(1, 20)}))>>
              ELSE <<Datum(Sign, y, QMIN - w - qx), Datum(Sign, x, qx), Datum(Sign, z, QMIN)>>)
SwSosShort(i) ==
  \E w \in {2 * (i % 110) + 8}, s \in {i \div 110}, d \in {8 * Pick(-30, 30) + 1}, y \in {OddBits(Pick(1, 40))}, j \in {Pick(2, 6)} :
  \E c \in {2^(w - 1) + d - y * y * 2^(2 * j)} : \E r \in {Root2(c, 1, 3, w + 3) % 2^w} :
  \E x \in {r + 2^w * Rand(Max2(1, (P - w - s) \div 2))} :
    Em("sos", IF Coin THEN <<Datum(Sign, x, (QMIN - w) \div 2), Datum(Sign, y, (QMIN - w) \div 2 + j)>>
              ELSE <<Datum(Sign, y, (QMIN - w) \div 2 + j), Datum(Sign, x, (QMIN - w) \div 2)>>)
(* every length of a subnormal operand *)
SwSubOps(op, i) ==
  \E b \in {i + 1} : \E q \in {Draw({Pick(-240, 240), Pick(261000, QMAX), QMIN, QMIN + Pick(0, 300)})} :
    IF Coin THEN Em(op, <<Datum(Sign, Bits(b), QMIN), Datum(Sign, Bits(P), q)>>)
    ELSE Em(op, <<Datum(Sign, Bits(P), q), Datum(Sign, Bits(b), QMIN)>>)
SwRem(i) ==
  \E k \in {i % 701}, v \in {i \div 701} : \E q \in {IF v = 0 THEN Pick(-300, 300) ELSE Draw({QMIN, QMIN + Pick(0, 300)})} :
    Em("rem", <<Datum(Sign, Bits(P), q + k), Datum(Sign, IF v = 0 THEN Bits(P) ELSE OddBits(Pick(1, P)), q)>>)
SwFma(i) ==
  \E off \in {(i % 1001) - 500}, v \in {i \div 1001}, x \in {Draw({Bits(P), OddBits(P), 2^(P - 1)})}, y \in {Draw({Bits(P), OddBits(P), 2^(P - 1)})},
     qx \in {Pick(-1000, 1000)} :
  \E q \in {IF v = 0 THEN Pick(-300, 300) ELSE QMIN - Pick(0, 2 * P + 3)} :
    Em("fma", <<Datum(Sign, x, qx), Datum(Sign, y, q - qx), Datum(Sign, Draw({Bits(P), OddBits(Pick(1, P)), 2^(P - 1)}), Max2(q + off, QMIN))>>)
SwSos(i) ==
  \E k \in {i % 301}, v \in {i \div 301} :
  \E q \in {CASE v = 0 -> Pick(-300, 300) [] v = 1 -> (QMIN \div 2) - Pick(0, 250) [] OTHER -> Pick(130600, 130700)} :
    IF Coin THEN Em("sos", <<Datum(Sign, Bits(P), q), Datum(Sign, OddBits(P), q - k)>>)
            ELSE Em("sos", <<Datum(Sign, OddBits(P), q - k), Datum(Sign, Bits(P), q)>>)
SwSqrt(i) ==
  CASE i < 237 -> Em("sqrt", <<Datum(0, Bits(i + 1), QMIN + Pick(0, 1))>>)
    [] i >= 237 /\ i < 474 -> \E b \in {i - 236} : \E m \in {OddBits((b + 1) \div 2)} :
                                Em("sqrt", <<Neighbour(Datum(0, m * m, 2 * Pick(-300, 300)), Pick(-1, 1))>>)
    [] OTHER -> Em("sqrt", <<Datum(0, Bits(P), QMIN + 512 * (i - 474) + Pick(0, 511))>>)
SwScale(i) ==
  \E k \in {i % 521}, v \in {i \div 521} :
    CASE v = 0 -> Emn("divp2", <<Datum(Sign, Bits(Pick(1, P)), QMIN + Pick(0, 260))>>, <<k>>)
      [] v = 1 -> Emn("mulp2", <<Datum(Sign, Bits(Pick(1, P)), QMIN)>>, <<k>>)
      [] v = 2 -> Emn("mulp2", <<Datum(Sign, Bits(P), QMAX - k + Pick(-1, 1))>>, <<k>>)
      [] v = 3 -> Emn(IF Coin THEN "mulp2" ELSE "divp2", <<Datum(Sign, Bits(Pick(1, P)), Draw({QMIN, 0, QMAX}))>>,
                      <<Cyc(<<2^31 - 1, 2^31, 2^32 - 1, 2^32 - 2 - k, 524287, 524286, 524288, EMAX, EMAX + 1, 2^31 - 1 - k, 2^32 - 1 - EMAX, 524287 + P + Pick(-2, 2)>>, k)>>)
      [] OTHER -> Em(IF Coin THEN "mul2" ELSE "div2", <<Datum(Sign, Bits(Pick(1, P)), Draw({QMIN, QMIN + 1, QMAX, Pick(-300, 300)}))>>)
SwIntegral(i) ==
  \E b \in {(i % 245) - 4}, v \in {i \div 245} : \E f \in {P - b} :
    LET m == CASE v = 0 -> Bits(P) [] v = 1 -> 2^(P - 1) [] v = 2 -> 2^P - 1
               [] OTHER -> IF f < 1 \/ f > P THEN OddBits(P)
                           ELSE (IF b = 0 THEN 2^(P - 1) ELSE Bits(b) * 2^f + (IF v = 6 THEN Pick(1, 2) - 1 ELSE 2^(f - 1)))
                                + (CASE v = 4 -> 1 [] v = 5 -> -1 [] OTHER -> 0)
    IN Em("integral", <<Datum(Sign, m, -f)>>)
SwUlp(i) ==
  \E op \in {Cyc(<<"ulp", "parts", "class", "bytes">>, i)}, j \in {i \div 4} :
    IF j < 236 THEN Em(op, <<Datum(Sign, Draw({2^j, 2^(j + 1) - 1, OddBits(j + 1)}), QMIN)>>)
    ELSE Em(op, <<Datum(Sign, Draw({2^(P - 1), 2^P - 1, Bits(P)}), Min2(QMAX, QMIN + 2048 * (j - 236) + Pick(0, 2047)))>>)
(* one bit set or cleared, anywhere in the encoding *)
SwBits(op, i) == Em(op, <<CASE i < 256 -> 2^i [] i >= 256 /\ i < 512 -> 2^256 - 1 - 2^(i - 256)
                            [] OTHER -> (EXPMASK + (IF i < 768 THEN 2^(i - 512) ELSE 2^(i - 768) + 2^255)) % 2^256>>)
SwInt(i) ==
  \E t \in {Cyc(<<8, 16, 32, 64, 128, -8, -16, -32, -64, -128>>, i)}, j \in {(i \div 10) % 128} :
  \E w \in {IF t < 0 THEN -t - 1 ELSE t} : \E b \in {(j % w) + 1} :
    \E v \in {Draw({2^b - 1, 2^(b - 1), Bits(b), OddBits(b)})} :
                  Emn("fromint", <<>>, <<t, IF t < 0 /\ Coin THEN (IF b = w /\ Coin THEN -(2^w) ELSE -v) ELSE v>>)
SwFloat(i) ==
  IF i < 2048 THEN Emn("fromf64", <<>>, <<Sign * 2^63 + i * 2^52 + Draw({0, 2^52 - 1, Rand(52), 1, 2^51, 2^Pick(0, 51)})>>)
  ELSE IF i < 2304 THEN Emn("fromf32", <<>>, <<Sign * 2^31 + (i - 2048) * 2^23 + Draw({0, 2^23 - 1, Rand(23), 1, 2^22, 2^Pick(0, 22)})>>)
  ELSE IF i < 2356 THEN Emn("fromf64", <<>>, <<Sign * 2^63 + Bits(i - 2303)>>)
  ELSE Emn("fromf32", <<>>, <<Sign * 2^31 + Bits(i - 2355)>>)

(* ---- reading ---- *)
Alphabet == <<48, 57, 46, 101, 69, 43, 45, 105, 110, 102, 97, 95, 32>>       \* 0 9 . e E + - i n f a _ blank
RECURSIVE StringNo(_)
StringNo(n) == IF n = 0 THEN <<>> ELSE Append(StringNo((n - 1) \div 13), Alphabet[((n - 1) % 13) + 1])
SwGram(i) == Emit("parse", <<>>, <<>>, StringNo(i))
(* every character at every place of a literal *)
SwChar(i) ==
  \E c \in {i % 128}, j \in {(i \div 128) + 1} :
  \E base \in {Cyc(<<<<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56>>,
                     <<50, 53, 46, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 69, 45, 49, 50>>>>, i)} :
    Emit("parse", <<>>, <<>>, [base EXCEPT ![j] = c])
InfNan == <<INFTXT, INFINITYTXT, NANTXT>>
SwSpell(i) ==                                            \* inf, infinity, nan in every case, also damaged
  \E w \in {IF i < 8 THEN INFTXT ELSE IF i < 16 THEN NANTXT ELSE INFINITYTXT},
     m \in {IF i < 16 THEN i % 8 ELSE i - 16} :
  \E t \in {[j \in DOMAIN w |-> IF (m \div 2^(j - 1)) % 2 = 1 THEN w[j] - 32 ELSE w[j]]} :
    \/ Emit("parse", <<>>, <<>>, SignText \o t)
    \/ Emit("parse", <<>>, <<>>, SignText \o Draw({t \o <<Draw({48, 32, 120, 46, 101})>>, SubSeq(t, 1, Len(t) - 1), SubSeq(t, 2, Len(t)), <<48>> \o t,
                                                  [t EXCEPT ![Pick(1, Len(t))] = Draw({73, 48, 49})], t \o t, <<Minus>> \o t}))
(* literal ~ midpoint, with significand of 77 digits (or fewer than P bits), for every exponent *)
NearMid(k, b, d) ==                                      \* digits v of about b bits: v * 10^k next to a midpoint
  \E h \in {2 * Bits(P) + 1} : \E sh \in {b + (k * 33219) \div 10000 - P - 1} :
    LET num == (IF sh >= 0 THEN h * 2^sh ELSE h) * (IF k < 0 THEN 10^(-k) ELSE 1)
        den == (IF sh < 0 THEN 2^(-sh) ELSE 1) * (IF k >= 0 THEN 10^k ELSE 1)
        v == (num \div den) + d
    IN v > 0 => \E ds \in {DecDigits(v)} : \E j \in {SpellPoint(ds)} : Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, k, j))
SwParse(i) == NearMid((i % 2061) - 1030, Draw({255, 255, 254, 253}), i \div 2061)
SwParseExact(i) == NearMid((i % 211) - 105, P - Draw({0, 0, 1, Pick(1, 60)}), Pick(0, 1))
SwParseFar(i) ==
  \E ds \in {DecDigits(Bits(Pick(1, 250)))}, e \in {-79000 + 500 * i + Pick(0, 499)} : \E j \in {SpellPoint(ds)} :
    Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, e, j))
(* the edges of the range, and the middles beside them, cut to every number of digits and the next decimal above *)
Edges == <<(* the greatest number *) <<2^P - 1, QMAX>>, <<2^(P + 1) - 1, QMAX - 1>>, <<1, EMAX + 1>>,
           (* the least normal one *) <<HID, QMIN>>, <<2 * HID - 1, QMIN - 1>>, (* the least one *) <<1, QMIN>>, <<1, QMIN - 1>>, <<3, QMIN - 1>>>>
SwParseEdge(i) ==
  IF i >= 1760                                            \* anything with an exponent next to the greatest or the least that matter
  THEN \E ds \in {DecDigits(Bits(Pick(1, 254)))}, e \in {IF i < 1824 THEN 78913 - Draw({-1, 0, Pick(0, 80)}) ELSE -78983 - Draw({Pick(-2, 3), Pick(74, 80), Pick(0, 80)})} :
         Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, e, SpellPoint(ds)))
  ELSE
  \E d \in {(i % 110) + 1}, j \in {((i \div 110) % 8) + 1}, up \in {i \div 880} :
  \E c \in {Edges[j][1]}, q \in {Edges[j][2]} :
  \E k \in {(IF j <= 3 THEN 78914 ELSE IF j <= 5 THEN -78912 ELSE -78983) - d} :
  \E v \in {(IF q > 0 THEN (c * 2^q) \div 10^k ELSE (c * 10^(-k)) \div 2^(-q)) + up} :
  \E ds \in {DecDigits(v)} : \E p \in {SpellPoint(ds)} : Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, k, p))
(* 5^a (times a power of two) and its neighbours: the numbers at which a shifted decimal gains a digit *)
SwParsePow(i) ==
  \E a \in {(i % 310) + 1}, b \in {Draw({0, 0, 0, Pick(0, 200)})}, d \in {Draw({0, 0, -1, 1})}, z \in {Pick(0, 12)},
     e \in {IF i < 620 THEN -Pick(1025, 1420) ELSE Draw({Pick(1025, 1200), -Pick(330, 420), -Pick(1025, 1300)})} :
    \E ds \in {DecDigits(5^a * 2^b * 10^z + d)} : Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, e, SpellPoint(ds)))

(* exact midpoints c * 5^k * 2^n written with every k; the digits are c * 2^j of every length around P and 256 bits *)
SwParseTie(i) ==
  \E k \in {(i % 102) + 1}, v \in {i \div 102} : \E c \in {OddBits(Max2(1, P + 1 - BitLen(5^k) + Pick(0, 1)))} :
  \E j \in {CASE v = 0 -> Pick(0, P - BitLen(c)) [] v \in {1, 2, 3} -> Pick(P - BitLen(c), 256 - BitLen(c)) [] v = 4 -> Pick(257, 300) - BitLen(c) [] OTHER -> Pick(0, 200)} :
  \E z \in {CASE v < 5 -> c * 2^j [] v = 5 -> c * 2^j * 10^Pick(20, 60) + Pick(-1, 1)                      \* almost a midpoint
              [] OTHER -> c * 5^(k + Pick(1, 200))} :
  \E ds \in {DecDigits(z)} :
  \E e \in {CASE v < 5 -> k [] v = 5 -> k - Len(ds) + Len(DecDigits(c * 2^j)) [] OTHER -> -Pick(1, 300)} :
    Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, e, SpellPoint(ds)))

(* complete decimal expansions (of numbers and of the middles between them) and literals that differ from them far behind   *)
ExactArgs(x) == \E half \in {Draw({0, 1, 1})}, t \in {Pick(-1, 1)}, style \in {Pick(0, 3)}, z \in {Draw({0, 1, 20, Pick(0, 300)})} :
  (half = 1 \/ ~IsZero(x)) => Emn("exact", <<x>>, <<half, t, style, z>>)
SwExact(i) ==                                             \* every binade near 1, and short numbers further out
  IF i < 1400 THEN ExactArgs(Datum(Sign, Draw({Bits(P), OddBits(P), 2^(P - 1), 2^P - 1}), i - 900))
  ELSE ExactArgs(Datum(Sign, Bits(Pick(1, P)), Pick(-6000, 6000)))
SwExactFar(i) ==                                          \* the longest
  \E j \in {i % 6} :
  \E x \in {CASE i >= 20 -> Datum(Sign, 2 * Bits(Draw({P - 1, P - 1, Pick(1, P - 1)})), QMIN + Draw({0, 0, Pick(0, 400)}))
              [] i >= 12 -> Datum(Sign, Bits(Pick(1, P)), Draw({QMIN, QMIN, QMIN + Pick(0, 300), Pick(QMIN, QMAX), Pick(-100000, -20000)}))
              [] j = 0 -> Datum(Sign, HID - 1, QMIN) [] j = 1 -> Datum(Sign, 2^P - 1, QMIN) [] j = 2 -> Datum(Sign, HID, QMIN)
              [] j = 3 -> Datum(Sign, 2^P - 1, QMAX) [] j = 4 -> Sign * 2^255 [] OTHER -> Datum(Sign, 1, QMIN)} :
    Emn("exact", <<x>>, <<IF i < 12 \/ i >= 20 THEN 1 ELSE Pick(0, 1), IF i < 6 \/ i >= 20 THEN 1 ELSE IF IsZero(x) THEN 0 ELSE Pick(-1, 0), Pick(0, 2), Draw({0, 1, 50, Pick(0, 2000)})>>)
(* a middle between two numbers, and a last digit that makes it more or less just before or behind the 183467 digits that are kept *)
SwExactLong(i) ==
  \E x \in {Datum(Sign, 2 * Bits(P - 1), IF i < 300 THEN 37 - P - (i % 100) ELSE i - 550)} :
  \E n \in {Len(DecDigits(IF Q(x) <= 0 THEN (2 * M(x) + 1) * 5^(1 - Q(x)) ELSE (2 * M(x) + 1) * 2^(Q(x) - 1)))} :
    Emn("exact", <<x>>, <<1, Draw({-1, 1, 1, 1}), Pick(0, 3), 183466 - n + (IF i % 3 = 0 THEN Pick(-75, 4) ELSE Draw({-2, -1, 0, 0, 0, 1, 2}))>>)
(* the slow conversion shifts decimals to the left by these numbers of bits and has to know whether that adds a digit *)
ShiftsUsed == <<1, 2, 3, 6, 9, 13, 16, 19, 23, 26, 29, 33, 36, 39, 43, 46, 49, 53, 56, 59, 60, 57>>
SwExactShift(i) ==
  \E k \in {(i % 22) + 1}, j \in {i \div 22} : \E n \in {ShiftsUsed[k]} : \E b \in {60 * (IF n >= 57 THEN j % 4 ELSE 0)} :
  \E z \in {IF n < 57 \/ j % 8 >= 4 THEN -Len(DecDigits(5^n)) - (IF k < 3 THEN 0 ELSE Min2(k - 2, 18) + (IF k = 21 THEN Pick(0, 30) ELSE 0))
             ELSE -Len(DecDigits(5^n)) + Len(DecDigits(2^b))} :
  \E d \in {Pick(-1, 1)}, w \in {Pick(20, 76)} :
    ExactArgs(Round(Sign, 5^n * 10^w + d, 10^(w - z) * 2^b, 0))

(* ---- best approximations: of the multiples m * a / b, m = 1 .. max, the one that is least above an integer, and the one least below ---- *)
RECURSIVE Closest(_, _, _, _, _)
Closest(m, v, n, w, max) ==                              \* m * a mod b = v, -n * a mod b = w
  IF v = 0 \/ w = 0 \/ m + n > max THEN <<m, n>>
  ELSE IF w >= v
  THEN LET k == Min2((w - 1) \div v, (max - n) \div m) IN IF k = 0 THEN <<m, n>> ELSE Closest(m, v, n + k * m, w - k * v, max)
  ELSE LET k == IF n = 0 THEN (v - 1) \div w ELSE Min2((v - 1) \div w, (max - m) \div n) IN IF k = 0 THEN <<m, n>> ELSE Closest(m + k * n, v - k * w, n, w, max)
ClosestOf(a, b, max) == LET c == Closest(1, a % b, 0, b, max) IN {x \in {c[1], c[2]} : x > 0}
(* literals of at most 256 bits that are closest to (half of) the quanta of their binade *)
SwParseClose(i) ==
  \E k \in {(i % 2061) - 1030}, max \in {IF i < 2061 THEN 2^256 ELSE 2^Pick(239, 256)} : \E q \in {BitLen(max) - 1 + ((k * 33219) \div 10000) - P - Pick(0, 2)} :
  \E n \in {2 * (IF k >= 0 THEN 10^k ELSE 1) * (IF q < 0 THEN 2^(-q) ELSE 1)}, d \in {(IF k < 0 THEN 10^(-k) ELSE 1) * (IF q >= 0 THEN 2^q ELSE 1)} :
  \E c \in {Draw(ClosestOf(n, d, max))} : \E ds \in {DecDigits(c * Draw({1, 1 + (Rand(256) % (max \div c))}))} :
    Emit("parse", <<>>, <<>>, SignText \o SpellAt(ds, k, SpellPoint(ds)))

(* ---- writing ---- *)
SwSci(i) ==
  \E k \in {(i % 341) - 170}, v \in {i \div 341} : \E p \in {CASE v = 0 -> Pick(0, 75) [] v = 1 -> 75 [] v = 2 -> Pick(60, 75) [] OTHER -> Pick(0, 20)} :
  \E h \in {Draw({2 * (10^p + (Rand(250) % (9 * 10^p))) + 1, 2 * 10^(p + 1) - 1, 2 * 10^p + 1})} : \E e \in {k - p} :
    Emn("fmt", <<Neighbour(IF e >= 0 THEN Round(Sign, h * 10^e, 2, 0) ELSE Round(Sign, h, 2 * 10^(-e), 0), Pick(-1, 1))>>, FmtArg(Pick(1, 2), p))
SwPrec(i) ==                                             \* every precision
  \E p \in {i % 76}, v \in {i \div 76} :
  \E x \in {CASE v = 0 -> Datum(Sign, Bits(P), Pick(-P - 20, 0)) [] v = 1 -> Datum(Sign, Bits(P), Pick(-P, -P + 40)) [] v = 2 -> Datum(Sign, Bits(P), Pick(-300, 300))
              [] v = 3 -> Neighbour(Round(Sign, 2 * Rand(Pick(1, 230)) + 1, 2 * 10^p, 0), Pick(-1, 1)) [] OTHER -> Datum(Sign, OddBits(Pick(1, 60)), -Pick(0, p + 3))} :
    Emn("fmt", <<x>>, FmtArg(IF v = 2 THEN Pick(1, 2) ELSE Draw({0, 0, 1}), p))
SwShortExp(i) == Emn("round", <<Datum(Sign, Draw({Bits(P), 2^(P - 1), OddBits(P)}), Min2(QMAX, QMIN + 512 * i + Pick(0, 511)))>>, <<Pick(1, 2)>>)
SwShortSub(i) == Emn("round", <<Datum(Sign, Draw({2^i, Bits(i + 1), 2^(i + 1) - 1}), QMIN + (i \div 236) * Pick(0, 1))>>, <<Pick(1, 2)>>)
SwShortInt(i) ==                                          \* numbers of -300 .. 300 binary places, and those that end a rounding interval in 5^k
  IF i < 601 THEN Emn("round", <<Datum(Sign, Draw({Bits(P), OddBits(P), 2^(P - 1)}), i - 300 - P)>>, <<Pick(0, 2)>>)
  ELSE \E k \in {((i - 601) % 102) + 1} : \E c \in {OddBits(Max2(1, P + 1 - BitLen(5^k)))}, j \in {Pick(0, 60)}, d \in {Cyc(<<-1, 1, 0>>, i)} :
         Emn("round", <<Datum(Sign, (c * 5^k + d) \div 2, k + j + 1)>>, <<Pick(0, 2)>>)
(* Numbers for which the ends of the rounding interval, divided by a power of ten, come closest to an integer: for the binary  *)
(* exponents where they come closest of all, and for others                                                                    *)
Tight == <<
    110042, -126483, 28143, -165121, 256529, -165120, 202807, -225978, 202810, -145212, 117442, -212556, 117443, -212555, 256528,
    -212554, 74152, -225979, 74155, -212558, 77344, -212557, 5700, -8304, 202806, -8303, 202809, -8302, 117441, -8099,
    200431, -237944, 109248, -233274, 47875, -233273, 184553, -178730, 175185, -8305, 117440, -258422, 119009, -258421, 119010,
    -258420, 119011, -181949, 74151, -47667, 107245, -19839, 77345, -165731, 77346, -165728, 77347, -190246, 5701, -190245,
    5702, -190244, 5703, -258426, 119008, -258425, 5699, -258424, 133913, -258423, 202805, -8100, 202808, -190247, 32232,
    -124317, 119012, -258428, 119013, -258427, 119014, -205486, 200430, -205485, 34056, -125063, 94502, -125062, 258427, -125061,
    258428, -233275, 258429, -251548, 143952, -251547, 107244, -182412, 200428, -182411, 258424, -204251, 258425, -204250, 258426,
    -204249, 80023, -215085, 80024, -174432, 80025, -174429, 133912, -174428, 133916, -258430, 531, -13518, 5996, -13517 >>
SwShortClose(i) ==
  \E e \in {IF i < Len(Tight) THEN Tight[i + 1] ELSE Draw({Pick(-700, 700), Pick(QMIN - 2, QMAX - 2)})}, w \in {1100} :
  \E g \in {IF e >= 0 THEN Max2(0, ((e * 1292913986) \div 2^32) - 1) ELSE Max2(0, ((-e * 1501026655) \div 2^31) - 1)} :
  \E a \in {IF e >= 0 THEN (2^(e - g + w) \div 5^g) % 2^w ELSE ((5^(-e - g) * 2^w) \div 2^g) % 2^w} :
  \E m \in {Draw(ClosestOf(a, 2^w, 2^(P + 2)))} :
  \E s \in {(m * Max2(1, 2^(P + 2) \div m)) \div 4} :
    Emn("round", <<Datum(Sign, s + Draw({0, 0, 1}), e + 2)>>, <<Pick(1, 2)>>)
SwPow10(i, sci) ==                                        \* powers of ten and their neighbours
  \E e \in {IF i < 401 THEN i - 200 ELSE -78913 + 620 * (i - 401)} :
  \E x \in {Neighbour(IF e >= 0 THEN Round(Sign, 10^e, 1, 0) ELSE Round(Sign, 1, 10^(-e), 0), Pick(-1, 1))} :
    IF ~sci THEN Emn("round", <<x>>, <<IF Abs(e) > 200 THEN 1 ELSE Pick(0, 2)>>) ELSE Emn("fmt", <<x>>, FmtArg(Pick(1, 2), Pick(0, 75)))
(* numbers whose rounding interval ends in (or that are themselves) a multiple of 10^k, where the interval is about 10^k wide *)
SwShortTie(i) ==
  \E k \in {(i % 102) + 1}, d \in {Cyc(<<-1, 1>>, i \div 102)}, f \in {Cyc(<<1, 2, 0, 1>>, i \div 204)} :
  \E c \in {OddBits(Max2(1, P + 1 - BitLen(5^(k + f))))}, q \in {((33219 * (k + 1)) \div 10000) + Pick(2, 6)} :
    Emn("round", <<IF i < 714 THEN Datum(Sign, (c * 5^(k + f) + d) \div 2, q) ELSE Datum(Sign, c * 5^k, q)>>, <<Pick(0, 2)>>)
(* exact middles of two outputs: large numbers, numbers with a fraction, every number of places *)
SwTie(i) ==
  IF i < 408
  THEN \E k \in {(i % 102) + 1} : \E t \in {2 * Bits(Pick(1, Max2(2, P - BitLen(5^k) - 1))) + 1} :
         t * 5^k < 2^P => Emn("fmt", <<Neighbour(Round(Sign, t * 10^k, 2, 0), Draw({0, 0, 0, 1, -1}))>>, FmtArg(Pick(1, 2), Len(DecDigits(t \div 2)) - 1))
  ELSE IF i < 844
  THEN \E j \in {(i - 408) % 109} : \E t \in {2 * Bits(Pick(1, Min2(P - 1, Max2(1, 251 - BitLen(5^j))))) + 1} : \E n \in {Len(DecDigits((t * 5^j) \div 2))} :
         n <= 76 => Emn("fmt", <<Neighbour(Round(Sign, t, 2^(j + 1), 0), Draw({0, 0, 0, 1, -1}))>>, FmtArg(Pick(1, 2), n - 1))
  ELSE \E p \in {(i - 844) % 76} : \E t \in {OddBits(Pick(1, P))} :
         Emn("fmt", <<Neighbour(Round(Sign, t, 2^(p + 1), 0), Draw({0, 0, 0, 1, -1}))>>, FmtArg(0, p))
(* numbers x * 2^e for which x times the upper 128 bits of a table of quotients (of 384 bits: t = 2^s / 10^(19 c) or 10^(19 c) * 2^s, *)
(* modulo 10^19 * 2^304) is just less than a multiple of 2^256: adding the product with the lower bits carries all the way up       *)
CarryOf(t) ==
  LET l == BitLen(t \div 2^256) IN
  IF l < 30 THEN {2^P - 1}
  ELSE UNION {{IF n = 0 THEN 2^P - 1 ELSE n * ((2^P - 1) \div n - Rand(l - 27)) : n \in {Closest(1, t \div 2^256, 0, 2^256, max)[2]}} : max \in {2^(257 - l + Pick(0, 3))}}
TabMod == 10^19 * 2^304
FracTab(e, c) ==                                         \* e <= -P, c = 0 .. : the digits after the c-th group of 19 that is not nought
  LET u == 32 * ((-e) \div 32)  g == ((u - P) * 30103) \div 1900000 + 1 + c  sh == 273 - u
  IN (IF sh >= 0 THEN 10^(19 * g) * 2^sh ELSE (10^(19 * g)) \div 2^(-sh)) % TabMod
IntTab(e, c) ==                                          \* e > 275
  LET u == 32 * (e \div 32)  g == Max2(0, ((u + P + 30) * 30103 + 200000) \div 1900000 - c)
  IN ((2^(u + 304)) \div 10^(19 * g) + 1) % TabMod
SwCarry(i) ==
  \E v \in {i % 8}, j \in {i \div 8}, c \in {Draw({3, 4, 4, 4, 5})} :
  \E e \in {CASE v \in 0..2 -> -237 - j - 64 * v [] v \in {3, 4} -> Draw({-Pick(300, 6000), -Pick(300, 20000)}) [] OTHER -> Draw({Pick(276, 700), Pick(276, 6000), Pick(300, 20000)})} :
  \E y \in {IF e < 0 THEN FracTab(e, c) ELSE IntTab(e, c)} : \E x \in CarryOf(y) :
    Emn("fmt", <<Datum(Sign, x, e)>>, FmtArg(Pick(1, 2), 75 - Draw({0, 0, Pick(0, 20)})))
SwPad(i) ==                                               \* every combination of flags with widths -1 (none) .. 23
  \E kind \in {i % 3}, fa \in {(i \div 3) % 13}, plus \in {(i \div 39) % 2}, zero \in {(i \div 78) % 2}, w \in {(i \div 156) - 1} :
  \E x \in {Draw({Zero(0), Zero(1), Inf(0), Inf(1), NAN, FromInt(Pick(-1200, 1200)), Round(Sign, Pick(1, 9999), 1000, 0), Datum(Sign, Bits(P), Pick(-500, 300)),
                  Round(Sign, Pick(1, 99), 10^Pick(1, 30), 0), FromInt(10^Pick(0, 12))})} :
    Emn("fmt", <<x>>, <<kind, IF fa = 0 THEN 0 ELSE (fa - 1) \div 3, IF fa = 0 THEN 0 ELSE ((fa - 1) % 3) + 1, plus, IF w < 0 THEN 0 ELSE zero, w, IF Coin THEN -1 ELSE Pick(0, 6)>>)

(* ---- elementary functions ---- *)
Logs3 == <<"ln", "log2", "log10">>
SwAngle(i) ==
  IF i < 474 THEN Em(IF i < 237 THEN "deg" ELSE "rad", <<Datum(Sign, Draw({Bits((i % 237) + 1), 2^(i % 237)}), QMIN + Pick(0, 1))>>)
  ELSE Em(IF Coin THEN "deg" ELSE "rad", <<Datum(Sign, Bits(P), Min2(QMAX, QMIN + 512 * (i - 474) + Pick(0, 511)))>>)
SwLog(i) ==
  IF i < 711 THEN \E n \in {(i % 237) + 1} : \E x \in {ONE + (HID \div 2^n) + Rand(Max2(0, 235 - n))} :
                   Em(Cyc(Logs3, i \div 237), <<IF n > 3 /\ Draw(1..4) = 1 THEN 2 * ONE - x ELSE x>>)
  ELSE Em(Draw(Logs), <<Datum(0, Bits(P), Min2(QMAX, QMIN + 1024 * (i - 711) + Pick(0, 1023)))>>)
SwTrigExp(i) == Em(Cyc(<<"sin", "cos", "tan", "sincos">>, i), <<Datum(Sign, Bits(P), (i \div 4) - 560)>>)
SwTrigSeg(i) ==                                           \* every 64th of 0 .. 8
  Em(Cyc(<<"sin", "cos", "tan", "sincos">>, i \div 512), <<Round(Sign, (i % 512) * 2^200 + Rand(200), 2^206, 0)>>)
SwTrigBig(i) == Em(Draw({"sin", "cos", "sincos"}), <<Datum(Sign, Bits(P), Min2(QMAX, 200 * i + Pick(0, 20)))>>)
SwAtan(i) ==                                              \* every 256th of 0 .. 1
  \E m \in {((i % 256) * 2^240 + Rand(240))} :
    CASE i < 256 -> Em("atan", <<Round(Sign, m, 2^248, 0)>>)
      [] i >= 256 /\ i < 512 -> Em("atan", <<Round(Sign, 2^248, m + 1, 0)>>)
      [] i >= 512 /\ i < 768 -> Em(Draw({"asin", "acos"}), <<Round(Sign, m, 2^248, 0)>>)
      [] OTHER -> \E y \in {Bits(P)} : \E a \in {Datum(Sign, m, 0)}, b \in {Datum(Sign, y, 248 - P)} : Em("atan2", IF Coin THEN <<a, b>> ELSE <<b, a>>)
SwAtanExp(i) ==
  \E q \in {(i \div 2) - P - 270}, m \in {Bits(P)} :
    IF i % 2 = 0 THEN Em("atan", <<Datum(Sign, m, q)>>)
    ELSE IF q < -P THEN Em(Draw({"asin", "acos"}), <<Datum(Sign, m, q)>>)
    ELSE \E y \in {Bits(P)}, q2 \in {Pick(-130000, 130000)} : Em("atan2", <<Datum(Sign, m, q2), Datum(Sign, y, q2 + (IF Coin THEN q + P ELSE -q - P))>>)

(* ---- all combinations of special data ---- *)
Specials == <<0, 2^255, 1, 2^255 + 1, HID - 1, HID, 2^255 + HID, ONE, 2^255 + ONE, 2 * HID - 1, 2^128, 2^128 - 1,
              EXPMASK - 1, 2^255 + EXPMASK - 1, EXPMASK, 2^255 + EXPMASK, EXPMASK + 1, 2^255 + EXPMASK + 2^128, EXPMASK + 2^235, 2^256 - 1,
              EXPMASK - HID, ONE + 1, ONE - 1, 2^255 + ONE + HID>>
NSp == Len(Specials)
Few == <<0, 2^255, 1, 2^255 + HID, ONE, 2^255 + ONE, EXPMASK - 1, 2^255 + EXPMASK - 1, EXPMASK, 2^255 + EXPMASK, EXPMASK + 1, 2^128 - 1>>
NFew == Len(Few)
Pair(op, i) == Em(op, <<Specials[(i % NSp) + 1], Specials[((i \div NSp) % NSp) + 1]>>)
Triple(op, i) == Em(op, <<Few[(i % NFew) + 1], Few[((i \div NFew) % NFew) + 1], Few[((i \div NFew^2) % NFew) + 1]>>)
Binaries == <<"add", "sub", "mul", "div", "rem", "sqadd", "sos", "atan2">>
Unaries == <<"square", "sqrt", "recip", "deg", "rad", "mul2", "div2", "integral", "neg", "abs", "class", "ulp", "bytes", "ln", "log2", "log10",
             "sin", "cos", "tan", "sincos", "asin", "acos", "atan", "ntrait", "debug">>
Orders == <<"cmp", "minmax", "tcmp">>
SwUnary(i) == Em(Unaries[(i % Len(Unaries)) + 1], <<Specials[(i \div Len(Unaries)) + 1]>>)
SwUnaryN(i) ==
  \E x \in {Specials[(i % NSp) + 1]}, v \in {i \div NSp} :
    IF v < 16 THEN Emn(IF v < 8 THEN "mulp2" ELSE "divp2", <<x>>, <<Cyc(<<0, 1, 236, 237, 524287, EMAX, 2^31, 2^32 - 1>>, v)>>)
    ELSE IF v < 19 THEN Emn("round", <<x>>, <<v - 16>>)
    ELSE Emn("fmt", <<x>>, <<(v - 19) % 3, 0, 0, 0, 0, Pick(-1, 12), Cyc(<<0, 1, 75, 76>>, (v - 19) \div 3)>>)
SwLater(i) == IF i < NSp THEN Em("ln1p", <<Specials[i + 1]>>) ELSE Em("logb", <<Specials[(i % NSp) + 1], Specials[((i * 7) % NSp) + 1]>>)
SwClamp(i) == Triple("clamp", i)

Count(kind) ==
  CASE kind = "add" -> 1443 [] kind = "mulunder" -> 964 [] kind = "divunder" -> 732 [] kind = "mulshort" -> 1645 [] kind = "mulsub" -> 1175
    [] kind = "divshort" -> 1416 [] kind = "fmashort" -> 1645 [] kind = "sosshort" -> 550
    [] kind \in {"muls", "divs", "rems", "adds", "soss", "atan2s"} -> 237
    [] kind = "rem" -> 1402 [] kind = "fma" -> 2002 [] kind = "sos" -> 903 [] kind = "sqrt" -> 1498 [] kind = "scale" -> 2200
    [] kind = "integral" -> 1715 [] kind = "ulp" -> 1968 [] kind = "bits" -> 1024 [] kind = "classbits" -> 1024 [] kind = "int" -> 1280 [] kind = "float" -> 2379
    [] kind = "gram3" -> 2380 [] kind = "gram4" -> 30941 [] kind = "char" -> 2304 [] kind = "spell" -> 272
    [] kind = "parse" -> 4122 [] kind = "parseexact" -> 422 [] kind = "parsefar" -> 317 [] kind = "parseedge" -> 1888 [] kind = "parsepow" -> 930 [] kind = "parsetie" -> 714 [] kind = "parseclose" -> 4122
    [] kind = "exact" -> 1800 [] kind = "exactfar" -> 40 [] kind = "exactlong" -> 550 [] kind = "exactshift" -> 880
    [] kind = "sci" -> 1364 [] kind = "prec" -> 380 [] kind = "tie" -> 1148 [] kind = "shorttie" -> 1020 [] kind = "shortexp" -> 1024 [] kind = "shortsub" -> 236 [] kind = "shortint" -> 907 [] kind = "shortclose" -> 240 [] kind = "pow10" -> 401 [] kind = "pow10far" -> 254 [] kind = "pow10sci" -> 655 [] kind = "carry" -> 512 [] kind = "pad" -> 3900
    [] kind = "angle" -> 1498 [] kind = "log" -> 1223 [] kind = "trigexp" -> 2400 [] kind = "trigseg" -> 2048 [] kind = "trigbig" -> 1310
    [] kind = "atan" -> 1024 [] kind = "atanexp" -> 1080
    [] kind = "pairs" -> NSp * NSp * Len(Binaries) [] kind = "orders" -> NSp * NSp * 3 [] kind = "unary" -> NSp * Len(Unaries) [] kind = "unaryn" -> NSp * 31
    [] kind = "later" -> 2 * NSp [] kind = "clamp" -> NFew^3 [] kind = "fmas" -> NFew^3

Case(kind, i) ==
  CASE kind = "add" -> SwAdd(i) [] kind = "mulunder" -> SwMulUnder(i) [] kind = "divunder" -> SwDivUnder(i)
    [] kind = "mulshort" -> SwMulShort(i) [] kind = "mulsub" -> SwMulSub(i) [] kind = "divshort" -> SwDivShort(i) [] kind = "fmashort" -> SwFmaShort(i) [] kind = "sosshort" -> SwSosShort(i)
    [] kind = "muls" -> SwSubOps("mul", i) [] kind = "divs" -> SwSubOps("div", i) [] kind = "rems" -> SwSubOps("rem", i) [] kind = "adds" -> SwSubOps("add", i)
    [] kind = "soss" -> SwSubOps("sos", i) [] kind = "atan2s" -> SwSubOps("atan2", i)
    [] kind = "rem" -> SwRem(i) [] kind = "fma" -> SwFma(i) [] kind = "sos" -> SwSos(i) [] kind = "sqrt" -> SwSqrt(i) [] kind = "scale" -> SwScale(i)
    [] kind = "integral" -> SwIntegral(i) [] kind = "ulp" -> SwUlp(i) [] kind = "bits" -> SwBits("bytes", i) [] kind = "classbits" -> SwBits("class", i)
    [] kind = "int" -> SwInt(i) [] kind = "float" -> SwFloat(i)
    [] kind \in {"gram3", "gram4"} -> SwGram(i) [] kind = "char" -> SwChar(i) [] kind = "spell" -> SwSpell(i)
    [] kind = "parse" -> SwParse(i) [] kind = "parseexact" -> SwParseExact(i) [] kind = "parsefar" -> SwParseFar(i) [] kind = "parseedge" -> SwParseEdge(i) [] kind = "parsepow" -> SwParsePow(i) [] kind = "parsetie" -> SwParseTie(i) [] kind = "parseclose" -> SwParseClose(i)
    [] kind = "exact" -> SwExact(i) [] kind = "exactfar" -> SwExactFar(i) [] kind = "exactlong" -> SwExactLong(i) [] kind = "exactshift" -> SwExactShift(i)
    [] kind = "sci" -> SwSci(i) [] kind = "prec" -> SwPrec(i) [] kind = "tie" -> SwTie(i) [] kind = "shorttie" -> SwShortTie(i) [] kind = "shortexp" -> SwShortExp(i) [] kind = "shortsub" -> SwShortSub(i)
    [] kind = "shortint" -> SwShortInt(i) [] kind = "shortclose" -> SwShortClose(i) [] kind = "pow10" -> SwPow10(i, FALSE) [] kind = "pow10far" -> SwPow10(i + 401, FALSE)
    [] kind = "pow10sci" -> SwPow10(i, TRUE) [] kind = "carry" -> SwCarry(i) [] kind = "pad" -> SwPad(i)
    [] kind = "angle" -> SwAngle(i) [] kind = "log" -> SwLog(i) [] kind = "trigexp" -> SwTrigExp(i) [] kind = "trigseg" -> SwTrigSeg(i)
    [] kind = "trigbig" -> SwTrigBig(i) [] kind = "atan" -> SwAtan(i) [] kind = "atanexp" -> SwAtanExp(i)
    [] kind = "pairs" -> Pair(Binaries[(i \div (NSp * NSp)) + 1], i) [] kind = "orders" -> Pair(Orders[(i \div (NSp * NSp)) + 1], i)
    [] kind = "unary" -> SwUnary(i) [] kind = "unaryn" -> SwUnaryN(i) [] kind = "later" -> SwLater(i) [] kind = "clamp" -> Triple("clamp", i) [] kind = "fmas" -> Triple("fma", i)

(* process PROC of PROCS takes every PROCS-th index of each of the kinds SWEEP *)
RECURSIVE StrNat(_)
StrNat(s) == IF s = "" THEN 0 ELSE 10 * StrNat(SubSeq(s, 1, Len(s) - 1)) + HexDigit(SubSeq(s, Len(s), Len(s)))
Proc == StrNat(IOEnv.PROC)
Procs == StrNat(IOEnv.PROCS)
KindSeq == SetToSeq(Split(IOEnv.SWEEP, 1, ""))
(* of the kinds that are slow to judge only every THIN-th case, from OFFSET on *)
Slow == {"pow10far", "parsefar", "parseedge", "shortexp", "shortsub"}
Thin(k) == IF k = "parseedge" THEN Max2(8, 2 * StrNat(IOEnv.THIN)) ELSE IF k \in Slow THEN StrNat(IOEnv.THIN) ELSE 1
Offset(k) == StrNat(IOEnv.OFFSET) % Thin(k)
(* then MORE cases of the kinds KINDS of Gen *)
More == StrNat(IOEnv.MORE)
VARIABLE part                                             \* which of the kinds
SInit == made = "" /\ step = 0 /\ part = 1
SNext == \/ /\ part <= Len(KindSeq)
            /\ \E k \in {KindSeq[part]} : \E i \in {(step * Procs + Proc) * Thin(k) + Offset(k)} :
                 IF i < Count(k) THEN Case(k, i) /\ made' = k /\ step' = step + 1 /\ part' = part
                 ELSE PrintT("SWEPT:" \o k \o ":" \o ToString(Count(k))) /\ made' = k /\ step' = 0 /\ part' = part + 1
         \/ /\ part = Len(KindSeq) + 1
            /\ step < More
            /\ \E k \in {Draw(Kinds)} : Step(k) /\ made' = k /\ step' = step + 1 /\ part' = part
         \/ /\ part = Len(KindSeq) + 1
            /\ step = More
            /\ PrintT("SWEPT:end") /\ made' = "end" /\ step' = 0 /\ part' = part + 1
=============================================================================
