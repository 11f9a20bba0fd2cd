---------------------------- MODULE ActuatorModel ----------------------------
(***************************************************************************)
(* The definitions themselves: over a grid of geometries and positions the *)
(* angle is strictly monotonic inside the mechanical range, constant       *)
(* outside, inverted by Motor, and mirrored by the turning direction.      *)
(***************************************************************************)
EXTENDS Actuators

CONSTANT N   \* positions per geometry

Geos == {[kind |-> 0, cw |-> c, inc |-> inc, off |-> o, rad |-> r, a0 |-> a, s0 |-> s] :
           c \in {0, 1}, inc \in {5000000, 15416667}, o \in {S \div 4, MulDiv(34, S, 100)}, r \in {S \div 5, MulDiv(338, S, 1000)},
           a \in {0, S, -S \div 2}, s \in {S \div 10, S \div 4, S \div 3}}

VARIABLES p, k
vars == <<p, k>>
\* position number k: from below the shortest to above the longest stroke
Place(q, j) == LET s == (Shortest(q) - S \div 50) + MulDiv(Longest(q) - Shortest(q) + S \div 25, j, N)
               IN  MulDiv(s - q.s0, q.inc, S)
Init == p \in Geos /\ k = 0
Next == k < N /\ k' = k + 1 /\ UNCHANGED p
Spec == Init /\ [][Next]_vars

M0 == Place(Geo(p), k)
M1 == Place(Geo(p), k + 1)
Mirror == [p EXCEPT !.cw = 1 - p.cw]

Monotonic == LET a == Angle(p, M0)
                 b == Angle(p, M1)
             IN  /\ IF p.cw = 1 THEN a >= b ELSE a <= b
                 /\ (InRange(Geo(p), M0, S \div 200) \/ InRange(Geo(p), M1, S \div 200)) => a # b
Inverse == InRange(Geo(p), M0, S \div 100) => Close(Motor(p, Angle(p, M0)), M0, Geo(p).inc \div 20000)
Mirrored == Angle(p, M0) - p.a0 = -(Angle(Mirror, M0) - p.a0)
AtZero == Close(Angle(p, 0), p.a0, 0)
=============================================================================
