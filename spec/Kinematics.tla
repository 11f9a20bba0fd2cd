------------------------------ MODULE Kinematics ------------------------------
(***************************************************************************)
(* Rigid-body kinematics of a heliostat: two joints, each with tilted axis *)
(* and offset, the first turning about east, the second about up; the flat *)
(* surface is turned from facing up to facing south before.                *)
(*                                                                         *)
(* A rigid motion is [m, t]: x |-> m x + t.  k is the record of a          *)
(* heliostat: pos, tr (nine offsets), rot (four tilts).                    *)
(***************************************************************************)
EXTENDS Geometry, Actuators

Rot(m) == [m |-> m, t |-> Origin]
Shift(t) == [m |-> I3, t |-> t]
Then(a, b) == [m |-> MatMul(a.m, b.m), t |-> VAdd(MatVec(a.m, b.t), a.t)]
Move(a, v) == VAdd(MatVec(a.m, v), a.t)

\* concentrator facing south -> world, for the joint angles a1 and a2
Joints(k, a1, a2) ==
    LET first == Then(Rot(MatMul(RN(k.rot[1]), RU(k.rot[2]))), Then(Shift(<<k.tr[1], k.tr[2], k.tr[3]>>), Rot(RE(a1))))
        second == Then(Rot(MatMul(RE(k.rot[3]), RN(k.rot[4]))), Then(Shift(<<k.tr[4], k.tr[5], k.tr[6]>>), Rot(RU(a2))))
    IN  Then(Shift(k.pos), Then(first, Then(second, Shift(<<k.tr[7], k.tr[8], k.tr[9]>>))))
\* flat surface -> world
Orientation(k, a1, a2) == Then(Joints(k, a1, a2), Rot(RE(HalfPI)))

South == <<0, -S, 0>>
NormalOf(k, a1, a2) == MatVec(Joints(k, a1, a2).m, South)
CentreOf(k, a1, a2) == Joints(k, a1, a2).t

Reflected(d, n) == VSub(d, VScale(2 * Dot(d, n), n))

\* both pairs of joint angles that turn the concentrator's normal to n
Solutions(k, n) ==
    LET f == MatMul(RN(k.rot[1]), RU(k.rot[2]))
        g == MatMul(RE(k.rot[3]), RN(k.rot[4]))
        w == MatVec(Transpose(f), n)
        d == Sqrt(Sq(g[1][1]) + Sq(g[1][2]))
        phi == Atan2(-g[1][2], g[1][1])
        b == Asin(Clamp(Div(w[1], d), -S, S))
        s2 == << Wrap(b - phi), Wrap(PI - b - phi) >>
        one(a2) == LET v == MatVec(g, MatVec(RU(a2), South))
                   IN  <<Atan2(Mul(v[2], w[3]) - Mul(v[3], w[2]), Mul(v[2], w[2]) + Mul(v[3], w[3])), a2>>
    IN  << one(s2[1]), one(s2[2]) >>
=============================================================================
