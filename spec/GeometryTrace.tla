---------------------------- MODULE GeometryTrace ----------------------------
(***************************************************************************)
(* Conformance of coordinate conversions, rotations and canting.           *)
(***************************************************************************)
EXTENDS Geometry, TraceBase

VARIABLE l

\* in: az, el in micro-degrees (deg = 1) or micro-radians, slant; out: p
BadEnu(e) ==
    LET i == e.in
        ang(x) == IF i.deg = 1 THEN MulDiv(x, 314159265, 1800000000) \div 10 ELSE x
    IN  Broken({ <<"azimuth and elevation", Len(e.out.p) = Len(i.az) /\ \A k \in 1..Len(i.az) :
                     VClose(e.out.p[k], Enu(ang(i.az[k]), ang(i.el[k]), i.slant), 8 + MulDiv(i.slant, 8, S))>> })

\* Offsets on the WGS84 ellipsoid. in: lat of the reference in micro-degrees, dlat, dlon in nano-radians,
\* alt, dalt in mm, mm: results in millimetres (1) or micrometres (0)
BadWgs(e) ==
    LET i == e.in
        o == e.out.p
        at(k) == Offset(i.lat, i.dlat[k], i.dlon[k], i.dalt[k], i.mm)
        ok(x, y) == Close(x, y, 40 + Abs(y) \div 150000)
    IN  Broken({ <<"east", \A k \in 1..Len(o) : ok(o[k][1], at(k)[1])>>,
                 <<"north", \A k \in 1..Len(o) : ok(o[k][2], at(k)[2])>>,
                 <<"up", \A k \in 1..Len(o) : ok(o[k][3], at(k)[3])>> })

BadHomog(e) ==
    LET i == e.in
        o == e.out
        N == 1..Len(i.v)
        last(q) == q[Len(q)]
    IN  Broken({
          <<"points end in one", \A k \in N : First3(o.p[k]) = i.v[k] /\ o.p[k][4] = S>>,
          <<"directions end in zero", \A k \in N : First3(o.d[k]) = i.v[k] /\ o.d[k][4] = 0>>,
          \* normalised points keep their order and lie strictly between 0 and 1 (out.n has scale 100 * S)
          <<"normalised range", \A k \in N, x \in 1..3 : o.n[k][x] > 0 /\ o.n[k][x] < 100 * S>>,
          <<"normalised order", \A j, k \in N, x \in 1..3 : i.v[j][x] + 50 < i.v[k][x] => o.n[j][x] < o.n[k][x] + 1>>,
          <<"normalised affine", \A x \in 1..3 :
               LET lo == CHOOSE a \in {i.v[k][x] : k \in N} : \A k \in N : a <= i.v[k][x]
                   hi == CHOOSE a \in {i.v[k][x] : k \in N} : \A k \in N : a >= i.v[k][x]
               IN  hi - lo > S \div 100 => \A k \in N : Close(o.n[k][x] \div 100, Div(i.v[k][x] - lo, hi - lo), 4000)>> })

BadRot(e) ==
    LET i == e.in
        o == e.out
        N == 1..Len(i.a)
        id4 == Homog(I3, Origin)
    IN  Broken({
          <<"rotation about east", \A k \in N : MClose(o.e[k], Homog(RE(i.a[k]), Origin), 8)>>,
          <<"rotation about north", \A k \in N : MClose(o.n[k], Homog(RN(i.a[k]), Origin), 8)>>,
          <<"rotation about up", \A k \in N : MClose(o.u[k], Homog(RU(i.a[k]), Origin), 8)>>,
          <<"translation", \A k \in N : MClose(o.t[k], Homog(I3, i.t[k]), 2 + Norm(i.t[k]) \div 1000000)>>,
          <<"scattering rotation", \A k \in N : MClose(o.s[k], Homog(RDistort(i.b[k], i.a[k]), Origin), 10)>> })

\* rotation vectors that turn the initial vectors onto the target
BadDecomp(e) ==
    LET i == e.in
        o == e.out
        t == Unit(First3(i.to))
        ok(k) == LET v == Unit(First3(i.from[k]))
                     w == <<o.e[k], o.n[k], o.u[k]>>
                     a == Norm(w)
                     c == Dot(v, t)
                     tol == IF Abs(c) > S - S \div 500 THEN 1500 ELSE 60
                 IN  c < -(S - S \div 1000) \/ VClose(IF a = 0 THEN v ELSE Turn(Unit(w), a, v), t, tol)
        \* the axis is perpendicular to both
        perp(k) == LET w == <<o.e[k], o.n[k], o.u[k]>>
                       tol == IF Abs(Dot(Unit(First3(i.from[k])), t)) > S - S \div 500 THEN 1500 ELSE 20
                   IN  Dot(Unit(First3(i.from[k])), t) < -(S - S \div 1000)
                       \/ (Abs(Dot(w, Unit(First3(i.from[k])))) <= tol /\ Abs(Dot(w, t)) <= tol)
    IN  Broken({ <<"maps the vector onto the target", \A k \in 1..Len(i.from) : ok(k)>>,
                 <<"axis perpendicular", \A k \in 1..Len(i.from) : perp(k)>> })

BadAxis(e) ==
    LET i == e.in
        o == e.out
        v == Unit(First3(i.from))
        t == Unit(First3(i.to))
        c == Dot(v, t)
        s == Norm(Cross(v, t))
        \* the arc cosine amplifies the rounding of single precision near parallel and opposite vectors
        tol == 60 + 400000 \div (IF s < 280 THEN 280 ELSE s)
    IN  Broken({
          <<"axis is a unit vector", Close(Norm(o.axis), S, 10)>>,
          <<"angle", o.angle >= 0 /\ Close(Cos(o.angle), c, 10)>>,
          <<"maps the vector onto the target", VClose(Turn(o.axis, o.angle, v), t, tol)>> })

BadCant(e) ==
    LET i == e.in
        o == e.out
        H == 1..Len(i.cant)
        tol(v) == 12 + Norm(First3(v)) \div 100000
        ok(h, f) == LET b == Basis(First3(i.cant[h][f][1]), First3(i.cant[h][f][2]))
                    IN  \A p \in 1..Len(i.data[h][f]) :
                           LET v == i.data[h][f][p]
                               c == o.canted[h][f][p]
                           IN  VClose(First3(c), Cant(b, First3(v)), tol(v)) /\ c[4] = v[4]
        okinv(h, f) == LET b == Basis(First3(i.cant[h][f][1]), First3(i.cant[h][f][2]))
                       IN  \A p \in 1..Len(i.data[h][f]) :
                              LET v == i.data[h][f][p]
                                  c == o.uncanted[h][f][p]
                              IN  VClose(First3(c), Uncant(b, First3(v)), tol(v)) /\ c[4] = v[4]
        P(h, f) == 1..Len(i.data[h][f])
    IN  Broken({
          <<"canting", \A h \in H : \A f \in 1..Len(i.cant[h]) : ok(h, f)>>,
          <<"decanting", \A h \in H : \A f \in 1..Len(i.cant[h]) : okinv(h, f)>>,
          <<"round trip", \A h \in H : \A f \in 1..Len(i.cant[h]) : \A p \in P(h, f) :
                VClose(o.back[h][f][p], i.data[h][f][p], tol(i.data[h][f][p]))>>,
          <<"lengths", \A h \in H : \A f \in 1..Len(i.cant[h]) : \A p \in P(h, f) :
                Close(Norm(First3(o.canted[h][f][p])), Norm(First3(i.data[h][f][p])), tol(i.data[h][f][p]))>> })

Bad(e) == CASE e.kind = "enu" -> BadEnu(e)
            [] e.kind = "wgs" -> BadWgs(e)
            [] e.kind = "homog" -> BadHomog(e)
            [] e.kind = "rot" -> BadRot(e)
            [] e.kind = "decomp" -> BadDecomp(e)
            [] e.kind = "axis" -> BadAxis(e)
            [] e.kind = "cant" -> BadCant(e)
            [] OTHER -> {"unknown kind"}

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
