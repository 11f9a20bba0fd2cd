------------------------------ MODULE SceneTrace ------------------------------
(***************************************************************************)
(* Conformance of complete traces with the scene specification.            *)
(***************************************************************************)
EXTENDS SceneClauses

VARIABLE l

Bad(e) == CASE e.kind = "trace" -> BadTrace(e)
            [] e.kind = "splat" -> BadSplat(e)
            [] e.kind = "scale" -> BadScale(e)
            [] e.kind = "sum" -> BadSum(e)
            [] e.kind = "scatter" -> BadScatter(e)
            [] OTHER -> {"unknown kind"}

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
