-------------------------------- MODULE Nurbs --------------------------------
(***************************************************************************)
(* Clamped uniform B-spline surfaces (all weights are one).                *)
(*                                                                         *)
(* n control points of degree p have n - p spans; the parameter x in [0,1] *)
(* is stretched to t = x (n - p), so that knots are integers.  Indices of  *)
(* knots, basis functions and control points count from zero.              *)
(***************************************************************************)
EXTENDS Geometry

Knot(i, n, p) == Clamp(i - p, 0, n - p)
Stretch(x, n, p) == x * (n - p)

\* the span [k, k+1) of knots that contains t; the last one is closed
SpanOf(t, n, p) == Min2(t \div S, n - p - 1) + p

\* Cox-de Boor recursion; 0/0 counts as 0.  s is the span of t.
RECURSIVE Basis0(_, _, _, _, _, _)
Basis0(i, d, t, s, n, p) ==
    IF i < s - d \/ i > s THEN 0
    ELSE IF d = 0 THEN S
    ELSE LET a == Knot(i + d, n, p) - Knot(i, n, p)
             b == Knot(i + d + 1, n, p) - Knot(i + 1, n, p)
         IN  (IF a = 0 THEN 0 ELSE MulDiv(t - Knot(i, n, p) * S, Basis0(i, d - 1, t, s, n, p), a * S))
             + (IF b = 0 THEN 0 ELSE MulDiv(Knot(i + d + 1, n, p) * S - t, Basis0(i + 1, d - 1, t, s, n, p), b * S))
BasisAt(i, t, s, n, p) == Basis0(i, p, t, s, n, p)
\* derivative with respect to t
SlopeAt(i, t, s, n, p) ==
    LET a == Knot(i + p, n, p) - Knot(i, n, p)
        b == Knot(i + p + 1, n, p) - Knot(i + 1, n, p)
    IN  (IF a = 0 THEN 0 ELSE MulDiv(Basis0(i, p - 1, t, s, n, p), p, a))
        - (IF b = 0 THEN 0 ELSE MulDiv(Basis0(i + 1, p - 1, t, s, n, p), p, b))

\* weights of all control points, as a sequence
Weights(t, s, n, p) == [k \in 1..n |-> BasisAt(k - 1, t, s, n, p)]
Slopes(t, s, n, p) == [k \in 1..n |-> SlopeAt(k - 1, t, s, n, p)]

\* sum over the grid c[u][v] of the products of the weights
Blend(c, wu, wv) ==
    [x \in 1..3 |-> Dot(wu, [u \in 1..Len(c) |-> Dot(wv, [v \in 1..Len(c[1]) |-> c[u][v][x]])])]
Point(c, x, y, p, q) ==
    LET t == Stretch(x, Len(c), p)
        r == Stretch(y, Len(c[1]), q)
    IN  Blend(c, Weights(t, SpanOf(t, Len(c), p), Len(c), p), Weights(r, SpanOf(r, Len(c[1]), q), Len(c[1]), q))
\* tangents (per stretched unit)
Tangents(c, x, y, p, q) ==
    LET n == Len(c)
        m == Len(c[1])
        t == Stretch(x, n, p)
        r == Stretch(y, m, q)
        s == SpanOf(t, n, p)
        w == SpanOf(r, m, q)
    IN  << Blend(c, Slopes(t, s, n, p), Weights(r, w, m, q)), Blend(c, Weights(t, s, n, p), Slopes(r, w, m, q)) >>
NormalAt(c, x, y, p, q) == LET g == Tangents(c, x, y, p, q) IN Unit(Cross(Unit(g[1]), Unit(g[2])))
=============================================================================
