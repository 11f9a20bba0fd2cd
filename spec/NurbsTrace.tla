------------------------------ MODULE NurbsTrace -------------------------------
(***************************************************************************)
(* Conformance of surfaces.  in: control[surface][facet][u][v], eval       *)
(* positions per facet, degrees, canting and translation per facet (or     *)
(* none); out: points and normals per surface, facet and position.         *)
(***************************************************************************)
EXTENDS Nurbs, TraceBase
VARIABLE l

Bounds(c, x) == LET q == [k \in 1..(Len(c) * Len(c[1])) |-> c[((k - 1) \div Len(c[1])) + 1][((k - 1) % Len(c[1])) + 1][x]]
                IN  <<CHOOSE v \in Range(q) : \A w \in Range(q) : v <= w, CHOOSE v \in Range(q) : \A w \in Range(q) : v >= w>>

\* near a knot a surface of degree one has an edge
NearKnot(x, n, p) == LET f == Stretch(x, n, p) % S IN p = 1 /\ n > 2 /\ (f < 200 \/ f > S - 200)

BadSurface(e) ==
    LET i == e.in
        o == e.out
        p == i.degrees[1]
        q == i.degrees[2]
        F == {<<h, f, k>> : h \in 1..Len(i.control), f \in 1..Len(i.control[1]), k \in 1..Len(i.eval[1][1])}
        c(a) == i.control[a[1]][a[2]]
        ev(a) == i.eval[a[1]][a[2]][a[3]]
        raw(a) == Point(c(a), ev(a)[1], ev(a)[2], p, q)
        canted == Has(i, "canting")
        basis(a) == LET b == i.canting[a[1]][a[2]] IN Basis(b[1], b[2])
        back(a, v) == IF canted THEN Uncant(basis(a), v) ELSE v
        loc(a, v) == IF canted THEN VSub(First3(v), i.shift[a[1]][a[2]]) ELSE First3(v)
        edge(a) == NearKnot(ev(a)[1], Len(c(a)), p) \/ NearKnot(ev(a)[2], Len(c(a)[1]), q)
        pt(a) == back(a, loc(a, o.points[a[1]][a[2]][a[3]]))
        nv(a) == back(a, First3(o.normals[a[1]][a[2]][a[3]]))
        flat(a) == \A u \in 1..Len(c(a)) : \A v \in 1..Len(c(a)[1]) : c(a)[u][v][3] = c(a)[1][1][3]
    IN  Broken({
          <<"surface point", \A a \in F : VClose(pt(a), raw(a), 30)>>,
          <<"homogeneous coordinates", \A a \in F : o.points[a[1]][a[2]][a[3]][4] = S /\ o.normals[a[1]][a[2]][a[3]][4] = 0>>,
          <<"within the hull of the control points", \A a \in F : \A x \in 1..3 : LET b == Bounds(c(a), x) IN pt(a)[x] >= b[1] - 30 /\ pt(a)[x] <= b[2] + 30>>,
          <<"planar control points give a planar surface", \A a \in F : flat(a) => Close(pt(a)[3], c(a)[1][1][3], 20) /\ VClose(nv(a), <<0, 0, S>>, 50)>>,
          <<"normal is a unit vector", \A a \in F : Close(Norm(nv(a)), S, 30)>>,
          <<"normal is perpendicular to the surface", \A a \in F : edge(a) \/ VClose(nv(a), NormalAt(c(a), ev(a)[1], ev(a)[2], p, q), 150)>>,
          <<"normal points up", \A a \in F : nv(a)[3] > 0>> })

\* grid of evaluation points: the first coordinate varies slowest; a small distance is kept from the ends
BadGrid(e) ==
    LET n == e.in.n
        at(k, m) == IF m = 1 THEN e.in.eps ELSE e.in.eps + MulDiv(k, S - 2 * e.in.eps, m - 1)
    IN  Broken({ <<"evaluation grid", /\ Len(e.out.points) = n[1] * n[2]
                    /\ \A k \in 1..Len(e.out.points) : VClose(e.out.points[k], <<at((k - 1) \div n[2], n[1]), at((k - 1) % n[2], n[2])>>, 2)>>,
                 <<"strictly inside", e.out.inside = 1>> })

\* a plane grid of control points spanned by the lengths of the canting vectors
BadPlane(e) ==
    LET i == e.in
        at(k, m, a) == -a + MulDiv(2 * k, a, m - 1)
    IN  Broken({ <<"planar grid", Len(e.out.control) = Len(i.canting) /\ \A f \in 1..Len(i.canting) :
                    LET a == Norm(i.canting[f][1])
                        b == Norm(i.canting[f][2])
                    IN  /\ Len(e.out.control[f]) = i.n[1] /\ Len(e.out.control[f][1]) = i.n[2]
                        /\ \A u \in 1..i.n[1] : \A v \in 1..i.n[2] :
                             VClose(e.out.control[f][u][v], <<at(u - 1, i.n[1], a), at(v - 1, i.n[2], b), 0>>, 10)>> })

BadSpans(e) ==
    LET i == e.in
    IN  Broken({ <<"knots", \A k \in 1..Len(e.out.knots) : Close(e.out.knots[k], MulDiv(Knot(k - 1, i.n, i.p), S, i.n - i.p), 2)>>,
                 <<"number of knots", Len(e.out.knots) = i.n + i.p + 1>>,
                 <<"span contains the position", \A k \in 1..Len(i.eval) :
                     LET t == Stretch(i.eval[k], i.n, i.p)
                         s == e.out.spans[k]
                     IN  /\ s >= i.p /\ s <= i.n - 1
                         /\ Knot(s, i.n, i.p) * S <= t + 20 /\ t <= Knot(s + 1, i.n, i.p) * S + 20>>,
                 <<"basis functions", \A k \in 1..Len(i.eval) : LET t == Stretch(i.eval[k], i.n, i.p)
                                                                    s == e.out.spans[k]
                                                                IN  \A b \in 0..i.p : /\ Close(e.out.basis[k][b + 1], BasisAt(s - i.p + b, t, s, i.n, i.p), 20)
                                                                                      /\ Close(e.out.slopes[k][b + 1], SlopeAt(s - i.p + b, t, s, i.n, i.p) , 60 * i.p)>>,
                 <<"basis functions are non-negative and add up to one", \A k \in 1..Len(i.eval) : Close(SumSeq(e.out.basis[k]), S, 20) /\ \A b \in 0..i.p : e.out.basis[k][b + 1] >= -5>> })

Bad(e) == CASE e.kind = "surface" -> BadSurface(e)
            [] e.kind = "grid" -> BadGrid(e)
            [] e.kind = "plane" -> BadPlane(e)
            [] e.kind = "basis" -> BadSpans(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
