------------------------------ MODULE Actuators ------------------------------
(***************************************************************************)
(* Actuators.  A linear actuator is one side of a triangle whose other     *)
(* sides are its offset and its pivot radius; its stroke is the side       *)
(* opposite to the joint.  Lengths and angles have scale S, motor          *)
(* positions and increments are multiples of 1/M.                          *)
(*                                                                         *)
(* p: [kind, cw, inc, off, rad, a0, s0]                                    *)
(***************************************************************************)
EXTENDS Fix

Tiny == Max2(S \div 1000000, 1)

\* lengths are kept positive: the smooth maximum of x and 0 (sharpness 100)
Positive(x) == Tiny + (IF x > S \div 5 THEN x
                       ELSE Max2(x, 0) + Ln(S + Exp(-100 * Abs(x))) \div 100)

\* effective geometry
Geo(p) == [p EXCEPT !.off = Positive(p.off), !.rad = Positive(p.rad), !.s0 = Positive(p.s0)]

Shortest(q) == Abs(q.off - q.rad) + Tiny
Longest(q) == q.off + q.rad - Tiny
StrokeAt(q, m) == Clamp(MulDiv(m, S, q.inc) + q.s0, Shortest(q), Longest(q))
InRange(q, m, margin) == LET s == MulDiv(m, S, q.inc) + q.s0 IN s >= Shortest(q) + margin /\ s <= Longest(q) - margin

\* law of cosines
CosOf(q, s) == LET d == 2 * Mul(q.off, q.rad)
               IN  MulDiv(DotDiv(<<q.off, q.rad, -s>>, <<q.off, q.rad, s>>, S), S, d)
Absolute(q, m) == Acos(Clamp(CosOf(q, StrokeAt(q, m)), Tiny - S, S - Tiny))

LinearAngle(p, m) == LET q == Geo(p)
                         d == Absolute(q, 0) - Absolute(q, m)
                     IN  IF p.cw = 1 THEN p.a0 + d ELSE p.a0 - d

\* the stroke that makes the joint angle a, and its motor position
StrokeFor(p, a) == LET q == Geo(p)
                       d == IF p.cw = 1 THEN a - p.a0 ELSE p.a0 - a
                       c == Clamp(Cos(Absolute(q, 0) - d), Tiny - S, S - Tiny)
                       \* s^2 = (o - r)^2 + 2 o r (1 - c), without cancellation
                       x == q.off - q.rad
                       y == Mul(2 * Mul(q.off, q.rad), S - c)
                   IN  Clamp(Sqrt(DotDiv(<<x, S>>, <<x, y>>, S)), Shortest(q), Longest(q))
LinearMotor(p, a) == LET q == Geo(p) IN MulDiv(StrokeFor(p, a) - q.s0, q.inc, S)

Angle(p, m) == IF p.kind = 0 THEN LinearAngle(p, m) ELSE m
Motor(p, a) == IF p.kind = 0 THEN LinearMotor(p, a) ELSE a
=============================================================================
