---------------------------- MODULE GradientTrace ----------------------------
(***************************************************************************)
(* Conformance of derivatives.  in: rough (values have kinks: single rays  *)
(* pass from pixel to pixel), edge (a point where only finiteness counts); *)
(* out: finite, quotients[step][cut], blur (rounding of the goal) and bend *)
(* (half the difference between both sides of the finest step), in the     *)
(* same unit.                                                              *)
(***************************************************************************)
EXTENDS Gradients, TraceBase
VARIABLE l

Limit(e) == IF e.in.rough = 1 THEN S \div 12 ELSE S \div 25
Tol(e) == IF e.in.rough = 1 THEN S \div 8 ELSE S \div 40
Bad(e) ==
    LET o == e.out
    IN  Broken({
          <<"gradients are finite", o.finite = 1>>,
          <<"gradients are the derivatives of what is computed",
              (o.finite = 1 /\ e.in.edge = 0 /\ Sharp(o.quotients, Max2(o.blur, o.bend), Limit(e))) => PairsUp(o.quotients, o.blur + o.bend, Tol(e))>> })
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
