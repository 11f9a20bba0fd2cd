------------------------------ MODULE RayTrace ------------------------------
(***************************************************************************)
(* What happens to one ray: reflection, scattering, hit on a planar or     *)
(* cylindrical target, position and brightness in the bitmap, and the      *)
(* distribution of its energy over pixels.  Numbers are fixed-point with   *)
(* scale S (see Fix); vectors have three components.                       *)
(***************************************************************************)
EXTENDS Fix, TLC

(*************************** reflection, scattering *************************)
Reflect(d, n) == VSub(d, VScale(2 * Dot(d, n), n))

RotE(a) == << <<S, 0, 0>>, <<0, Cos(a), -Sin(a)>>, <<0, Sin(a), Cos(a)>> >>
RotN(a) == << <<Cos(a), 0, -Sin(a)>>, <<0, S, 0>>, <<Sin(a), 0, Cos(a)>> >>
RotU(a) == << <<Cos(a), -Sin(a), 0>>, <<Sin(a), Cos(a), 0>>, <<0, 0, S>> >>
\* A ray is first turned by u about the up axis, then by e about the east axis
Scatter(d, u, e) == MatVec(RotE(e), MatVec(RotU(u), d))

(*********************************** targets ********************************)
\* A planar target is [kind "p", c, n, w, h]; a cylindrical one
\* [kind "c", c, n, a, r, h, open] with n a unit vector perpendicular to a.
\* A hit is [sure, hit, e, u, dist, cos, tole, tolu, tolc]: continuous bitmap
\* coordinates counted from the lower left corner of the bitmap of W x H
\* pixels; sure is FALSE when rounding may decide differently.
NoHit(sure) == [sure |-> sure, hit |-> FALSE, e |-> 0, u |-> 0, dist |-> 0, cos |-> 0,
                tole |-> IF sure THEN 0 ELSE S, tolu |-> 0, tolc |-> 0]

\* uncertainty in micrometres of a hit position for a ray meeting a surface at cosine cos
PosTol(dist, cos) == MulDiv(20 + dist \div 400000, S, Max2(cos, S \div 50))

InRange(x, hi, tol) == x >= -tol /\ x <= hi + tol
Inside(x, hi, tol) == x >= tol /\ x <= hi - tol

PlanarHit(o, d, t, W, H) ==
    LET cos == -Dot(d, t.n)
        ahead == Dot(VSub(t.c, o), t.n)            \* negative in front
    IN  IF cos < S \div 50
        THEN NoHit(cos < -(S \div 100000))
        ELSE LET dist == -Div(ahead, cos)
                 hit == VAdd(o, VScale(dist, d))
                 tol == PosTol(Abs(dist), cos)
                 e == MulDiv(hit[1] - t.c[1] + t.w \div 2, (W - 1) * S, t.w)
                 u == MulDiv(hit[3] - t.c[3] + t.h \div 2, (H - 1) * S, t.h)
                 te == 30 + MulDiv(tol, (W - 1) * S, t.w)
                 tu == 30 + MulDiv(tol, (H - 1) * S, t.h)
                 maybe == dist > -tol /\ InRange(e, (W - 1) * S, te) /\ InRange(u, (H - 1) * S, tu)
                 yes == dist > tol /\ Inside(e, (W - 1) * S, te) /\ Inside(u, (H - 1) * S, tu)
             IN  [sure |-> maybe = yes, hit |-> maybe, e |-> (W - 1) * S - e, u |-> u, dist |-> dist,
                  cos |-> cos, tole |-> te, tolu |-> tu, tolc |-> 20]

CylinderHit(o, d, t, W, H) ==
    LET rel == VSub(o, t.c)
        side == Cross(t.n, t.a)
        oo == <<Dot(rel, side), Dot(rel, t.n)>>
        dd == <<Dot(d, side), Dot(d, t.n)>>
        a == Dot(dd, dd)
        l == Sqrt(a)
        un == <<Div(dd[1], l), Div(dd[2], l)>>
        near == DotDiv(oo, un, S)                  \* -(signed distance to the closest point)
        off == DotDiv(<<oo[1], -oo[2]>>, <<un[2], un[1]>>, S)
        q == MulSqrt(Max2(t.r - Abs(off), 0), t.r + Abs(off))
    IN  IF a < S \div 140 THEN NoHit(FALSE)      \* nearly along the axis: not decided here
        ELSE IF Abs(off) > t.r THEN NoHit(Abs(off) > t.r + 200 + t.r \div 5000)
        ELSE LET t1 == Div(-near - q, l)
                 t2 == Div(-near + q, l)
                 dist == IF t1 > 0 THEN t1 ELSE t2
                 x == oo[1] + Mul(dist, dd[1])
                 y == oo[2] + Mul(dist, dd[2])
                 z == Dot(rel, t.a) + Mul(dist, Dot(d, t.a))
                 cos == -Div(Mul(x, dd[1]) + Mul(y, dd[2]), t.r)
                 tol == 2 * PosTol(Abs(dist), Sq(cos)) + (IF a < S \div 30 THEN 4 * Div(20 + Abs(dist) \div S, l) ELSE 0)
                 ang == Wrap(Atan2(y, x) - HalfPI)
                 e == MulDiv(ang + t.open \div 2, (W - 1) * S, t.open)
                 u == MulDiv(z + t.h \div 2, (H - 1) * S, t.h)
                 te == 30 + MulDiv(MulDiv(tol, S, t.r) + 5, (W - 1) * S, t.open)
                 tu == 30 + MulDiv(tol, (H - 1) * S, t.h)
                 \* a full turn has a seam: near it the column is the first or the last one
                 seam == Abs(ang) > PI - MulDiv(tol, S, t.r) - 10 /\ t.open > TwoPI - 20
                 maybe == t2 > 0 /\ InRange(e, (W - 1) * S, te) /\ InRange(u, (H - 1) * S, tu)
                 yes == (t1 > tol \/ (t1 < -tol /\ t2 > tol)) /\ Inside(e, (W - 1) * S, te) /\ Inside(u, (H - 1) * S, tu)
                 outside == t2 < -tol
                        \/ ((t1 > tol \/ t1 < -tol) /\ ~maybe /\ ~seam)
             IN  IF Abs(off) > t.r - (200 + t.r \div 5000) THEN [NoHit(FALSE) EXCEPT !.hit = maybe, !.e = e, !.u = u, !.tole = W * S, !.tolu = H * S, !.cos = Max2(cos, 0), !.tolc = S]
                 ELSE [sure |-> yes \/ outside, hit |-> maybe, e |-> e, u |-> u, dist |-> dist,
                       cos |-> Max2(cos, 0), tole |-> te, tolu |-> tu, tolc |-> 20 + MulDiv(tol, S, t.r)]

Hit(o, d, t, W, H) == IF t.kind = "p" THEN PlanarHit(o, d, t, W, H) ELSE CylinderHit(o, d, t, W, H)

\* An observation [e, u, dist, int] of a ray of magnitude mag agrees with a hit h
AgreesAsHit(h, x, mag) ==
    /\ Close(x.e, h.e, h.tole)
    /\ Close(x.u, h.u, h.tolu)
    /\ Close(x.dist, h.dist, 200 + h.dist \div 20000 + 2 * h.tolc)
    /\ Close(x.int, Mul(mag, h.cos), 5 + Mul(mag, h.tolc))
AgreesAsMiss(x) == x.int = 0
Agrees(h, x, mag) ==
    IF h.sure THEN IF h.hit /\ h.cos > 0 THEN AgreesAsHit(h, x, mag) ELSE AgreesAsMiss(x)
    ELSE AgreesAsMiss(x) \/ h.tole >= S \/ AgreesAsHit(h, x, mag)

(****************************** back to the target **************************)
\* Position on the target of the continuous bitmap position (col, row), row
\* counted from the top of the bitmap; pixel k covers [k, k+1).
OnTarget(t, col, row, W, H) ==
    LET x == MulDiv(2 * col + S, S, 2 * W * S)
        y == MulDiv(2 * row + S, S, 2 * H * S)
    IN  IF t.kind = "p"
        THEN VAdd(t.c, << Mul(Half - x, t.w), 0, Mul(Half - y, t.h) >>)
        ELSE LET th == Mul(x - Half, t.open)
                 v == Cross(t.a, t.n)
             IN  VAdd(VAdd(t.c, VScale(Mul(Half - y, t.h), t.a)),
                      VAdd(VScale(Mul(t.r, Cos(th)), t.n), VScale(Mul(t.r, Sin(th)), v)))

(********************************* splatting ********************************)
\* Share of a ray at (e, u) (from the lower left) in pixel (row, col), row from the top
Share(e, u, row, col, W, H) ==
    LET a == S - Abs(e - col * S)
        b == S - Abs(u - (H - 1 - row) * S)
        il == e \div S
        jl == u \div S
    IN  IF il < 0 \/ jl < 0 \/ il + 1 >= W \/ jl + 1 >= H THEN 0
        ELSE IF a <= 0 \/ b <= 0 THEN 0 ELSE Mul(a, b)
Splats(e, u, W, H) == e >= 0 /\ u >= 0 /\ e \div S + 1 < W /\ u \div S + 1 < H
=============================================================================
