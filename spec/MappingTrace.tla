----------------------------- MODULE MappingTrace -----------------------------
(***************************************************************************)
(* Conformance: index_mapping and the numbering of the tower's targets.    *)
(***************************************************************************)
EXTENDS Mapping, Fix, TraceBase

VARIABLE l

\* directions are vectors scaled by S, valid up to the tolerance the package documents; the harness keeps
\* away from the boundary
ValidDir(v) == /\ Len(v) = 4
               /\ Abs(v[4]) <= S \div 200
               /\ Close(Norm(First3(v)), S, S \div 20000)
ValidSingle(v) == /\ Len(v) = 4
                  /\ v[4] = 0
                  /\ Close(Norm(First3(v)), S, S \div 200000)

Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VClose(First3(a[k]), First3(b[k]), 2) /\ Close(a[k][4], b[k][4], 2)

BadMap(e) ==
    LET i == e.in
        o == e.out
        good == Acceptable(i.names, i.targets, i.list, ValidDir)
        m == Mapped(i.names, i.targets, i.list)
    IN  IF ~good THEN Broken({<<"rejected", e.err = "ValueError">>})
        ELSE IF e.err # "" THEN {"accepted"}
        ELSE Broken({ <<"mask", o.mask = m.mask>>, <<"targets", o.target = m.target>>, <<"directions", Same(o.dir, m.dir)>> })

BadDefault(e) ==
    LET i == e.in
        o == e.out
        n == Len(i.names)
        good == i.target >= 0 /\ i.target < Len(i.targets) /\ ValidSingle(i.dir)
    IN  IF ~good THEN Broken({<<"rejected", e.err = "ValueError">>})
        ELSE IF e.err # "" THEN {"accepted"}
        ELSE Broken({ <<"mask", o.mask = [k \in 1..n |-> 1]>>, <<"targets", o.target = [k \in 1..n |-> i.target]>>,
                      <<"directions", Same(o.dir, [k \in 1..n |-> i.dir])>> })

\* the tower: planar areas first, then cylindrical ones, each in its own order; the aim point of a planar area is
\* its centre, that of a cylindrical one the point of its surface along its normal
BadTower(e) ==
    LET i == e.in
        o == e.out
        all == [k \in 1..Len(i.planar) + Len(i.cyl) |->
                  IF k <= Len(i.planar) THEN [name |-> i.planar[k].name, p |-> i.planar[k].c]
                  ELSE LET c == i.cyl[k - Len(i.planar)]
                       IN  [name |-> c.name, p |-> [d \in 1..3 |-> c.c[d] + MulDiv(c.r, c.n[d], S)]]]
    IN  Broken({ <<"numbering", \A k \in 1..Len(all) : o.index[k] = k - 1>>,
                 <<"centres", Len(o.centers) = Len(i.ask) /\
                              \A k \in 1..Len(i.ask) : VClose(First3(o.centers[k]), all[i.ask[k] + 1].p, 5 + S \div 100000) /\ o.centers[k][4] = S>>,
                 <<"owner", \A k \in 1..Len(all) : o.owner[k] = IF k <= Len(i.planar) THEN <<0, k - 1>> ELSE <<1, k - 1 - Len(i.planar)>>>> })

Bad(e) == CASE e.kind = "map" -> BadMap(e)
            [] e.kind = "default" -> BadDefault(e)
            [] e.kind = "tower" -> BadTower(e)

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
