------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Helper operators on integers of unlimited size.  The definitions below  *)
(* are the meaning of the operators.  For speed, TLC evaluates them with   *)
(* the Java class BigNumOverrides (see /verif/java); SelfTest.tla checks    *)
(* the Java versions against these definitions (copied there under other   *)
(* names so that they are not overridden).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Odd(n) == n % 2 = 1
B2I(b) == IF b THEN 1 ELSE 0

(* Number of binary digits of n >= 0. *)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

(* floor(sqrt(n)) *)
ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ n < (r + 1) * (r + 1)

(* Largest k with 2^k dividing n > 0. *)
RECURSIVE TrailZ(_)
TrailZ(n) == IF Odd(n) THEN 0 ELSE 1 + TrailZ(n \div 2)

(* floor(n * 2^k) for any integer k *)
Shift(n, k) == IF k >= 0 THEN n * 2^k ELSE n \div 2^(-k)

(* Value of a string of hexadecimal digits. *)
HexDigits == "0123456789abcdef"
HexDigit(c) == (CHOOSE i \in 1..16 : SubSeq(HexDigits, i, i) = c) - 1
RECURSIVE HexVal(_)
HexVal(s) == IF Len(s) = 0 THEN 0
             ELSE 16 * HexVal(SubSeq(s, 1, Len(s) - 1)) + HexDigit(SubSeq(s, Len(s), Len(s)))

(* Value of a sequence of character codes '0'..'9'; the empty sequence is 0. *)
RECURSIVE DecVal(_)
DecVal(cs) == IF Len(cs) = 0 THEN 0
              ELSE 10 * DecVal(SubSeq(cs, 1, Len(cs) - 1)) + (cs[Len(cs)] - 48)

(* Shortest sequence of character codes '0'..'9' whose value is n >= 0. *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>>
                ELSE Append(DecDigits(n \div 10), 48 + (n % 10))

(* Round n/d (n >= 0, d > 0) to the nearest integer, ties to even. *)
DivRNE(n, d) == LET f == n \div d
                    r == n - f * d
                IN f + B2I(2 * r > d \/ (2 * r = d /\ Odd(f)))
=============================================================================
