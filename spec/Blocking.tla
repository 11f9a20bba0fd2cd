------------------------------ MODULE Blocking ------------------------------
(***************************************************************************)
(* Which mirrors stand in the way of a ray.  A mirror is a rectangle       *)
(* [c, su, sv]: a corner and the two sides.  The package uses soft edges;  *)
(* a ray within a margin of an edge (or of the first centimetres of its    *)
(* way, or of the target) may count either way, which Block reports as     *)
(* "maybe".                                                                *)
(***************************************************************************)
EXTENDS Fix

MM(x) == MulDiv(x, S, 1000)

\* limit is the distance to the target along the ray
Block(o, d, m, limit) ==
    LET n == Unit(Cross(m.su, m.sv))
        den == Dot(d, n)
        num == Dot(VSub(m.c, o), n)
    IN  IF Abs(den) < MM(20) THEN "maybe"
        ELSE LET dist == Div(num, den)
                 rel == VSub(VAdd(o, VScale(dist, d)), m.c)
                 u == Div(Dot(rel, m.su), Dot(m.su, m.su))
                 v == Div(Dot(rel, m.sv), Dot(m.sv, m.sv))
                 tol == MM(16) + MulDiv(MM(1) \div 20, S, Abs(den))
                 in(lo) == u >= lo /\ u <= S - lo /\ v >= lo /\ v <= S - lo
                 far == MM(50) + MM(16)
                 near == MM(50) - MM(16)
             IN  IF num = 0 /\ dist = 0 THEN "no"
                 ELSE IF in(tol) /\ dist >= far /\ dist <= limit - tol THEN "yes"
                 ELSE IF ~in(-tol) \/ dist <= near \/ dist >= limit + tol THEN "no"
                 ELSE "maybe"

\* "yes", "no" or "maybe" for all mirrors but the ray's own
Blocked(o, d, mirrors, own, limit) ==
    LET b == {Block(o, d, mirrors[j], limit) : j \in (1..Len(mirrors)) \ {own}}
    IN  IF "yes" \in b THEN "yes" ELSE IF "maybe" \in b THEN "maybe" ELSE "no"
=============================================================================
