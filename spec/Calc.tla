-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* A calculator: registers hold data, a step applies an operation to some  *)
(* registers and stores the result in one.  This is how programs use the   *)
(* type; its behaviours are the histories of C28.  Data are kept as        *)
(* hexadecimal encodings of HL digits.                                     *)
(***************************************************************************)
EXTENDS Text
CONSTANTS NR, HL

RECURSIVE HexN(_, _)
HexN(n, k) == IF k = 0 THEN "" ELSE LET d == n % 16 IN HexN(n \div 16, k - 1) \o SubSeq(HexDigits, d + 1, d + 1)
Enc(v) == HexN(v, HL)

Binops == {"add", "sub", "mul", "div", "rem", "sos", "sqadd", "min", "max"}
Unops  == {"neg", "abs", "sqrt", "square", "recip", "trunc", "floor", "ceil", "round", "rte", "fract", "mul2", "div2", "ulp", "copy"}
Scalings == {"mulp2", "divp2"}
Arity(op) == IF op \in Binops THEN 2 ELSE IF op = "fma" THEN 3 ELSE 1

(* What the operation yields for operands v (and an integer n). *)
Value(op, v, n) ==
  CASE op = "add"    -> Add(v[1], v[2])
    [] op = "sub"    -> Sub(v[1], v[2])
    [] op = "mul"    -> Mul(v[1], v[2])
    [] op = "div"    -> Div(v[1], v[2])
    [] op = "rem"    -> Rem(v[1], v[2])
    [] op = "sos"    -> SumSq(v[1], v[2])
    [] op = "sqadd"  -> Fma(v[1], v[1], v[2])
    [] op = "fma"    -> Fma(v[1], v[2], v[3])
    [] op = "min"    -> IF IsNaN(v[1]) THEN v[2] ELSE IF IsNaN(v[2]) \/ Key(v[1]) <= Key(v[2]) THEN v[1] ELSE v[2]
    [] op = "max"    -> IF IsNaN(v[1]) THEN v[2] ELSE IF IsNaN(v[2]) \/ Key(v[1]) >= Key(v[2]) THEN v[1] ELSE v[2]
    [] op = "neg"    -> Neg(v[1])
    [] op = "abs"    -> AbsOf(v[1])
    [] op = "sqrt"   -> Sqrt(v[1])
    [] op = "square" -> Mul(v[1], v[1])
    [] op = "recip"  -> Div(ONE, v[1])
    [] op = "trunc"  -> ToIntegral(v[1], "trunc")
    [] op = "floor"  -> ToIntegral(v[1], "floor")
    [] op = "ceil"   -> ToIntegral(v[1], "ceil")
    [] op = "round"  -> ToIntegral(v[1], "away")
    [] op = "rte"    -> ToIntegral(v[1], "even")
    [] op = "fract"  -> Fract(v[1])
    [] op = "mul2"   -> Scale(v[1], 1)
    [] op = "div2"   -> Scale(v[1], -1)
    [] op = "mulp2"  -> Scale(v[1], n)
    [] op = "divp2"  -> Scale(v[1], -n)
    [] op = "ulp"    -> Ulp(v[1])
    [] op = "copy"   -> v[1]

(* The interface leaves the answer open (sign of a zero), or it is the     *)
(* recorded deviation of the order of negative numbers.                    *)
Open(op, v) ==
  CASE op \in {"min", "max"} -> ~Unordered(v[1], v[2]) /\ (Key(v[1]) = Key(v[2]) \/ BothNeg(v[1], v[2]))
    [] op = "fract" -> IsZero(Fract(v[1]))
    [] OTHER -> FALSE

(* IEEE 754, 7.2: the invalid operations. *)
Invalid(op, v) ==
  CASE op = "add" -> IsInf(v[1]) /\ IsInf(v[2]) /\ SignOf(v[1]) # SignOf(v[2])
    [] op = "sub" -> IsInf(v[1]) /\ IsInf(v[2]) /\ SignOf(v[1]) = SignOf(v[2])
    [] op = "mul" -> (IsZero(v[1]) /\ IsInf(v[2])) \/ (IsInf(v[1]) /\ IsZero(v[2]))
    [] op = "div" -> (IsZero(v[1]) /\ IsZero(v[2])) \/ (IsInf(v[1]) /\ IsInf(v[2]))
    [] op = "rem" -> IsInf(v[1]) \/ IsZero(v[2])
    [] op = "sqadd" -> IsInf(v[1]) /\ IsInf(v[2]) /\ IsNeg(v[2])
    [] op = "fma" -> \/ (IsZero(v[1]) /\ IsInf(v[2])) \/ (IsInf(v[1]) /\ IsZero(v[2]))
                     \/ ((IsInf(v[1]) \/ IsInf(v[2])) /\ IsInf(v[3]) /\ SignOf(v[3]) # XorSign(v[1], v[2]))
    [] op = "sqrt" -> IsNeg(v[1]) /\ ~IsZero(v[1])
    [] op \in {"fract", "ulp"} -> IsInf(v[1])
    [] OTHER -> FALSE
(* 7.3: infinity as an exact result of finite operands *)
DivByZero(op, v) ==
  CASE op = "div" -> IsZero(v[2]) /\ ~IsZero(v[1])
    [] op = "recip" -> IsZero(v[1])
    [] OTHER -> FALSE

VARIABLES regs, pc
Val(i) == HexVal(regs[i])
=============================================================================
