--------------------------------- MODULE Api ---------------------------------
(* The whole interface: which events the contract allows. *)
EXTENDS Elem
(* in the interface, but not implemented: the accuracy of the answers is not specified *)
LaterOps == {"ln1p", "logb"}
Conforms(e) ==
  CASE e.op \in ArithOps -> ArithOK(e)
    [] e.op \in TextOps  -> TextOK(e)
    [] e.op \in ElemOps  -> ElemOK(e)
    [] e.op \in LaterOps -> ~Panics(e.r)
(* For an event that the contract does not allow: the recorded deviation   *)
(* that explains it, or nothing.                                           *)
Known(e) == IF KnownOrder(e) THEN "KF-order" ELSE IF KnownTable(e) THEN "KF-table"
            ELSE IF e.op \in LaterOps /\ Panics(e.r) THEN "KF-unimplemented" ELSE ""
=============================================================================
