------------------------------ MODULE CalcTiny ------------------------------
(* All programs of the calculator on a tiny format, by exhaustive search.   *)
EXTENDS Calc

Ops == Binops \union Unops \union {"fma"}
Regs == 1..NR
Init == regs \in [Regs -> {Enc(v) : v \in {0, ONE, MAXABS, 1}}] /\ pc = 0
Steps(op) == [1..Arity(op) -> Regs]
Do(op, s, d) == LET v == [i \in DOMAIN s |-> Val(s[i])]
                IN ~Open(op, v) /\ regs' = [regs EXCEPT ![d] = Enc(Value(op, v, 0))]
Next == pc' = 0 /\ \E op \in Ops : \E s \in Steps(op), d \in Regs : Do(op, s, d)

Spec == Init /\ [][Next]_<<regs, pc>>

(* every register always holds an encoding, and a NaN is the canonical one up to its sign *)
TypeOK == \A r \in Regs : Val(r) \in AllBits /\ (IsNaN(Val(r)) => AbsOf(Val(r)) = AbsOf(NAN))
(* a NaN comes from a NaN or from an invalid operation, and an invalid operation gives NaN;
   an infinity comes from an infinity, a division by zero, or a result beyond the range *)
Provenance ==
  \A op \in Ops : \A s \in Steps(op) :
    LET v == [i \in DOMAIN s |-> Val(s[i])]
        r == Value(op, v, 0)
        anyNaN == \E i \in DOMAIN v : IsNaN(v[i])
        anyInf == \E i \in DOMAIN v : IsInf(v[i])
    IN /\ IsNaN(r) => (anyNaN \/ Invalid(op, v))
       /\ (Invalid(op, v) /\ ~anyNaN) => IsNaN(r)
       /\ (anyNaN /\ op \notin {"min", "max"}) => IsNaN(r)
       /\ DivByZero(op, v) => (anyNaN \/ IsInf(r) )
       /\ (IsInf(r) /\ ~anyInf /\ ~DivByZero(op, v)) => op \in {"add", "sub", "mul", "div", "fma", "sqadd", "sos", "square", "recip", "mul2", "round", "ceil", "floor", "rte"}
       /\ (op = "rem" /\ IsFin(r) /\ IsFin(v[2]) /\ IsFin(v[1])) => Key(AbsOf(r)) < Key(AbsOf(v[2]))
       /\ r \in AllBits
=============================================================================
