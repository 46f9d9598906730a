------------------------------ MODULE SelfTest ------------------------------
(* Checks the Java implementations of BigNum's operators, and of unlimited   *)
(* integers, against their definitions.                                      *)
EXTENDS BigNum, TLC

RECURSIVE BitLenD(_), TrailZD(_), HexValD(_), DecValD(_), DecDigitsD(_)
BitLenD(n) == IF n = 0 THEN 0 ELSE 1 + BitLenD(n \div 2)
TrailZD(n) == IF Odd(n) THEN 0 ELSE 1 + TrailZD(n \div 2)
ShiftD(n, k) == IF k >= 0 THEN n * 2^k ELSE n \div 2^(-k)
HexValD(s) == IF Len(s) = 0 THEN 0
              ELSE 16 * HexValD(SubSeq(s, 1, Len(s) - 1)) + HexDigit(SubSeq(s, Len(s), Len(s)))
DecValD(cs) == IF Len(cs) = 0 THEN 0
               ELSE 10 * DecValD(SubSeq(cs, 1, Len(cs) - 1)) + (cs[Len(cs)] - 48)
DecDigitsD(n) == IF n < 10 THEN <<48 + n>>
                 ELSE Append(DecDigitsD(n \div 10), 48 + (n % 10))

Big == {2^31 - 1, 2^31, 2^31 + 1, 2^32, 2^63, 2^64 - 1, 3^100, 10^50 + 7, 7^300, 2^512 - 2^200}
Nums == {n + 0 : n \in 0..300} \union Big
Signed == Nums \union {-n : n \in Nums}

(* Integer laws that pin +, -, *, \div, % on numbers of any size. *)
Laws == \A a, b \in Signed :
          /\ a + b = b + a /\ a * b = b * a /\ (a - b) + b = a
          /\ (a < b) = ~(b <= a) /\ (a = b) = (a <= b /\ b <= a) /\ (a < b) = (b - a > 0)
          /\ a * (b + 1) = a * b + a
          /\ b > 0 => LET q == a \div b r == a % b
                      IN a = b * q + r /\ 0 <= r /\ r < b
Ops == /\ \A n \in Nums : /\ BitLen(n) = BitLenD(n)
                          /\ n > 0 => TrailZ(n) = TrailZD(n)
                          /\ DecDigits(n) = DecDigitsD(n) /\ DecVal(DecDigits(n)) = n
                          /\ DecVal(<<48, 48>> \o DecDigits(n)) = DecValD(<<48, 48>> \o DecDigits(n))
                          /\ LET r == ISqrt(n) IN r * r <= n /\ n < (r + 1) * (r + 1)
       /\ \A n \in Signed, k \in -70..70 : Shift(n, k) = ShiftD(n, k)
       /\ \A s \in {"", "0", "00ff", "123456789abcdef", "7fffffff", "80000000",
                    "7ffff00000000000000000000000000000000000000000000000000000000001"} :
            HexVal(s) = HexValD(s)
       /\ 2^31 - 1 = 2147483647 /\ 2^31 = 2147483647 + 1 /\ -(2^31) = 0 - 2147483647 - 1

VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = 1
Inv == Laws /\ Ops
=============================================================================
