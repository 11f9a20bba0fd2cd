------------------------------ MODULE Surfaces ------------------------------
(***************************************************************************)
(* The surfaces of a field: every heliostat of every group has control     *)
(* points (a version number here) and the surface that is shown to the ray *)
(* tracer (the version it was evaluated from).  Only an update changes the *)
(* shown surfaces, and it brings all of them up to date.  A copy of the    *)
(* shown surfaces is handed out on activation.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fresh(sizes) == [control |-> [g \in 1..Len(sizes) |-> [h \in 1..sizes[g] |-> 0]],
                 shown |-> [g \in 1..Len(sizes) |-> [h \in 1..sizes[g] |-> 0]]]

\* operations: [op: "bend", g, h, v], [op: "update"], [op: "activate", g, mask]
After(s, o) == CASE o.op = "bend" -> [s EXCEPT !.control[o.g][o.h] = o.v]
                 [] o.op = "update" -> [s EXCEPT !.shown = s.control]
                 [] OTHER -> s

RECURSIVE AfterAll(_, _)
AfterAll(s, ops) == IF ops = <<>> THEN s ELSE AfterAll(After(s, Head(ops)), Tail(ops))

\* rows of an activation: heliostat h, mask[h] times
RECURSIVE RowsFrom(_, _)
RowsFrom(mask, h) == IF h > Len(mask) THEN <<>> ELSE [k \in 1..mask[h] |-> h] \o RowsFrom(mask, h + 1)
Rows(mask) == RowsFrom(mask, 1)

(* The outline of a facet: control points on its outer edges. *)
Outer(u, v, nu, nv) == u \in {1, nu} \/ v \in {1, nv}
\* what is left of a gradient <<e, n, u>> there
Locked(g, u, v, nu, nv) == IF Outer(u, v, nu, nv) THEN <<0, 0, g[3]>> ELSE g
=============================================================================
