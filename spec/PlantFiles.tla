------------------------------ MODULE PlantFiles ------------------------------
(***************************************************************************)
(* What the files of a power plant (PAINT tower measurements, heliostat    *)
(* properties, deflectometry, STRAL surfaces) describe.                    *)
(***************************************************************************)
EXTENDS Geometry

(******************************** the tower ********************************)
\* a planar target is measured along east and along up, from its corners (the mean of opposite edges)
Extents(c) == << (Abs(c.ur[1] - c.ul[1]) + Abs(c.lr[1] - c.ll[1])) \div 2,
                 (Abs(c.ul[3] - c.ll[3]) + Abs(c.ur[3] - c.lr[3])) \div 2 >>

\* the axis of a cylinder is the direction perpendicular to its normal that points up the most
Upright(n) == Unit(VSub(<<0, 0, S>>, VScale(n[3], n)))

\* how exactly the centre of a cylinder follows from the chord of its arch
ChordTol(half) == LET c == Max2(Abs(Cos(half)), 1) IN 300 + Min2(25000, MulDiv(60, S, c))

(***************************** the heliostats ******************************)
\* the control points of an ideal facet: an even grid in a plane, twice as long as its canting vectors
GridPoint(facet, n, m, a, b) ==
    << 2 * MulDiv(Norm(facet.ce), a - 1, n - 1) - Norm(facet.ce), 2 * MulDiv(Norm(facet.cn), b - 1, m - 1) - Norm(facet.cn), 0 >>

\* Reading a list of heliostats (fit = 1: with deflectometry): the ideal ones and the fitted ones are processed one
\* after the other, the result is one list.
Ideal(paths) == SelectSeq(paths, LAMBDA p : p.fit = 0)
Fitted(paths) == SelectSeq(paths, LAMBDA p : p.fit = 1)
Distinct(q) == Cardinality({q[k] : k \in 1..Len(q)}) = Len(q)
=============================================================================
