------------------------------ MODULE ProgTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded programs: each line of the log is one program,   *)
(* the initial content of its registers and the calls it made.  A behaviour *)
(* of this specification is one program: every step must take its operands  *)
(* from the registers, must be a call the contract allows, and puts its     *)
(* (first) result in the destination register.                              *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
Batch == 8

VARIABLES prog, pos, regs, bad
vars == <<prog, pos, regs, bad>>

Ev(p, k) == Log[p].events[k]
Len1(p) == Len(Log[p].events)

(* the operands are what the registers hold *)
Reads(e, r) == Len(e.src) = Len(e.a) /\ \A i \in DOMAIN e.src : e.a[i] = r[e.src[i]]
Write(e, r) == IF e.dst = 0 THEN r ELSE [r EXCEPT ![e.dst] = e.r[1]]
Allowed(e) == IF e.op = "load" THEN TRUE ELSE Conforms(e)

RECURSIVE Play(_, _, _, _, _)
Play(p, k, hi, r, b) ==
  IF k > hi THEN <<r, b>>
  ELSE LET e == Ev(p, k)
           good == (Reads(e, r) /\ Allowed(e)) \/ ~PrintT(<<"MISMATCH", p, k, IF Reads(e, r) THEN Known(e) ELSE "frame">>)
       IN Play(p, k + 1, hi, Write(e, r), IF good THEN b ELSE b + 1)

Init == prog \in 1..N /\ pos = 0 /\ regs = Log[prog].init /\ bad = 0
Next ==
  /\ pos < Len1(prog)
  /\ LET hi == Min2(pos + Batch, Len1(prog)) IN
     \E z \in {Play(prog, pos + 1, hi, regs, 0)} : regs' = z[1] /\ bad' = bad + z[2] /\ pos' = hi
  /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars

Conformance == bad = 0

BatchesOf(p) == (Len1(p) + Batch - 1) \div Batch + 1
RECURSIVE Sum(_), Steps(_)
Sum(p) == IF p = 0 THEN 0 ELSE Sum(p - 1) + BatchesOf(p)
Steps(p) == IF p = 0 THEN 0 ELSE Steps(p - 1) + Len1(p)
Complete == PrintT(<<"PROGRAMS", N, "EVENTS", Steps(N), "STATES", TLCGet("distinct"), Sum(N)>>) /\ TLCGet("distinct") = Sum(N)
=============================================================================
