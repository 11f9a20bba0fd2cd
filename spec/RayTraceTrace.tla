---------------------------- MODULE RayTraceTrace ----------------------------
(***************************************************************************)
(* Conformance of ray/target intersections, bitmap positions and their     *)
(* way back to the target (C05, C06).                                      *)
(***************************************************************************)
EXTENDS RayTrace, TraceBase

VARIABLE l

\* Rays of several heliostats, each with its own target
BadRays(e) ==
    LET i == e.in
        o == e.out
        D == 1..Len(i.idx)
        h(k, r, p) == Hit(i.origins[k][p], i.dirs[k][r][p], i.targets[i.idx[k] + 1], i.W, i.H)
        x(k, r, p) == [e |-> o.e[k][r][p], u |-> o.u[k][r][p], dist |-> o.dist[k][r][p], int |-> o.int[k][r][p]]
        ok(k, r, p) == Agrees(h(k, r, p), x(k, r, p), i.mags[k][r][p])
    IN  Broken({ <<"rays", /\ Len(o.e) = Len(i.idx)
                           /\ \A k \in D : /\ Len(o.e[k]) = Len(i.dirs[k])
                                           /\ \A r \in 1..Len(i.dirs[k]) :
                                                 /\ Len(o.e[k][r]) = Len(i.origins[k])
                                                 /\ \A p \in 1..Len(i.origins[k]) : ok(k, r, p)>> })

\* bitmap position -> position on the target
BadBack(e) ==
    LET i == e.in
    IN  Broken({ <<"target position", Len(e.out.pos) = Len(i.idx) /\ \A k \in 1..Len(i.idx) :
                    /\ VClose(First3(e.out.pos[k]), OnTarget(i.targets[i.idx[k] + 1], i.col[k], i.row[k], i.W, i.H), 15)
                    /\ e.out.pos[k][4] = S>> })

\* A single ray through intersection, splatting, centre of mass and back again: the point
\* found lies within half a pixel of where the ray hits.
BadSpot(e) ==
    LET i == e.in
        t == i.targets[i.idx + 1]
        h == Hit(i.o, i.d, t, i.W, i.H)
        p == VAdd(i.o, VScale(h.dist, i.d))
        q == First3(e.out.pos)
        dv == VSub(q, p)
        up == IF t.kind = "p" THEN <<0, 0, S>> ELSE t.a
        px == (IF t.kind = "p" THEN t.w ELSE Mul(t.r, t.open)) \div (2 * i.W)
        py == t.h \div (2 * i.H)
        over == VSub(dv, VScale(Dot(dv, up), up))
    IN  IF ~(h.sure /\ h.hit /\ h.cos > 0 /\ Splats(h.e, h.u, i.W, i.H)) THEN {}
        ELSE Broken({ <<"half a pixel across", Norm(over) <= px + 1500>>,
                      <<"half a pixel up", Close(Dot(dv, up), 0, py + 1500)>>,
                      <<"energy", Close(e.out.sum, Mul(i.mag, h.cos), 5 + Mul(i.mag, h.tolc))>>,
                      \* row 1 is the top of the bitmap, column 1 its left edge
                      <<"row", Close(e.out.com[2], (i.H - 1) * S - h.u, h.tolu + 500)>>,
                      <<"column", Close(e.out.com[1], h.e, h.tole + 500)>> })

Bad(e) == CASE e.kind = "rays" -> BadRays(e)
            [] e.kind = "back" -> BadBack(e)
            [] e.kind = "spot" -> BadSpot(e)
            [] OTHER -> {"unknown kind"}

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
