---------------------------- MODULE ScenarioTrace ----------------------------
(***************************************************************************)
(* Conformance of saved and loaded scenarios.  in: the description, out:   *)
(* the loaded scenario.  Motor positions and increments have scale 1000,   *)
(* the rest S (covariances: 10^12).                                        *)
(***************************************************************************)
EXTENDS ScenarioFile, Nurbs, TraceBase
VARIABLE l

Named(q, n) == q[CHOOSE k \in 1..Len(q) : q[k].name = n]
NamesOf(q) == {q[k].name : k \in 1..Len(q)}
\* deviations and parameters that are left out count as zero
Given(x) == [k \in 1..Len(x) |-> IF x[k].given = 1 THEN x[k].v ELSE 0]

Quarter == MulDiv(314159265, S, 200000000)
NonOpt(a) == LET base == <<IF a.type = "linear" THEN 0 ELSE 1, a.clockwise, a.lo, a.hi>>
             IN  IF a.type = "linear" THEN base \o SubSeq(Given(a.par), 1, 3) ELSE base
\* the angle of the first linear actuator counts from the surface facing up instead of south
Opt(a, k) == IF a.type # "linear" THEN <<>>
             ELSE LET g == Given(a.par) IN <<g[4] - (IF k = 1 THEN Quarter ELSE 0), g[5]>>
\* what a value of 1e5 and a scale of 1000 lose in single precision
CloseSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], 2 + Abs(b[k]) \div 5000000)

Grid(i, k) == LET at(x, m) == IF m = 1 THEN 0 ELSE MulDiv(x, S, m - 1)
              IN  << at((k - 1) \div i.grid[2], i.grid[1]), at((k - 1) % i.grid[2], i.grid[2]) >>
Flat(s) == \A f \in 1..Len(s.facets) : LET c == s.facets[f].control IN \A u \in 1..Len(c), v \in 1..Len(c[1]) : c[u][v][3] = 0
Planar(i, f) == LET a == Norm(First3(f.cant[1]))
                    b == Norm(First3(f.cant[2]))
                    n == i.change[1]
                    m == i.change[2]
                    at(k, c, x) == -x + MulDiv(2 * k, x, c - 1)
                IN  [u \in 1..n |-> [v \in 1..m |-> <<at(u - 1, n, a), at(v - 1, m, b), 0>>]]
GridClose(c, d, tol) == Len(c) = Len(d) /\ \A u \in 1..Len(d) : Len(c[u]) = Len(d[u]) /\ \A v \in 1..Len(d[u]) : VClose(c[u][v], d[u][v], tol)
NearKnot(x, n, p) == LET f == Stretch(x, n, p) % S IN p = 1 /\ n > 2 /\ (f < 200 \/ f > S - 200)

SurfaceBroken(i, s, r) ==
    LET p == s.degrees[1]
        q == s.degrees[2]
        per == i.grid[1] * i.grid[2]
        flat == Flat(s)
        facet(k) == s.facets[((k - 1) \div per) + 1]
        pos(k) == Grid(i, ((k - 1) % per) + 1)
        basis == [f \in 1..Len(s.facets) |-> Basis(First3(s.facets[f].cant[1]), First3(s.facets[f].cant[2]))]
        at(k) == LET f == ((k - 1) \div per) + 1
                     raw == Point(facet(k).control, pos(k)[1], pos(k)[2], p, q)
                 IN  IF flat THEN VAdd(Cant(basis[f], raw), First3(facet(k).shift)) ELSE raw
        normal(k) == IF flat THEN basis[((k - 1) \div per) + 1][3] ELSE NormalAt(facet(k).control, pos(k)[1], pos(k)[2], p, q)
        edge(k) == ~flat /\ (NearKnot(pos(k)[1], Len(facet(k).control), p) \/ NearKnot(pos(k)[2], Len(facet(k).control[1]), q))
        N == 1..(Len(s.facets) * per)
    IN  {<<"facets", Len(r.cant) = Len(s.facets) /\ \A f \in 1..Len(s.facets) :
              r.cant[f] = s.facets[f].cant /\ r.shift[f] = s.facets[f].shift>>,
         <<"control points", Len(r.control) = Len(s.facets) /\ \A f \in 1..Len(s.facets) :
              IF Has(i, "change") THEN GridClose(r.control[f], Planar(i, s.facets[f]), 10)
              ELSE IF flat THEN r.control[f] = s.facets[f].control
              \* fitted control points are where the facet is; the field keeps them in the coordinates of the facet
              ELSE GridClose([u \in 1..Len(s.facets[f].control) |-> [v \in 1..Len(s.facets[f].control[1]) |->
                                VAdd(Cant(basis[f], r.control[f][u][v]), First3(s.facets[f].shift))]], s.facets[f].control, 12)>>,
         <<"surface points", Len(r.points) = Len(s.facets) * per /\ \A k \in N : VClose(r.points[k], at(k), 30)>>,
         <<"surface normals", Len(r.normals) = Len(s.facets) * per /\ \A k \in N : edge(k) \/ VClose(r.normals[k], normal(k), 150)>>}

BadHeliostat(i, h, g, k) ==
    LET r == g.rows[k]
        kin == PartOf(h, i.proto, "kin")
        act == PartOf(h, i.proto, "act")
        s == PartOf(h, i.proto, "surface")
    IN  Broken({ <<"position", r.position = h.position>>,
                 <<"initial orientation", r.orientation = kin.orientation>>,
                 <<"translation deviations", r.translations = Given(kin.translations)>>,
                 <<"rotation deviations", r.rotations = Given(kin.rotations)>>,
                 <<"group", g.kin = kin.type /\ g.act = act[1].type>>,
                 <<"fixed actuator parameters", \A a \in 1..2 : CloseSeq(r.fixed[a], NonOpt(act[a]))>>,
                 <<"learnable actuator parameters", \A a \in 1..2 : CloseSeq(r.learnable[a], Opt(act[a], a))>>,
                 <<"degrees", g.degrees = s.degrees>> } \cup SurfaceBroken(i, s, r))

BadLoad(e) ==
    LET i == e.in
        o == e.out
        names == [g \in 1..Len(o.groups) |-> o.groups[g].names]
        N == 1..Len(i.hel)
        home(n) == {<<g, k>> \in (1..Len(names)) \X N : k <= Len(names[g]) /\ names[g][k] = n}
    IN  IF ~Acceptable(i) THEN Broken({<<"rejected", e.err # "">>})
        ELSE IF e.err # "" THEN {"accepted"}
        ELSE IF \E k \in N : Cardinality(home(i.hel[k].name)) # 1 THEN {"every heliostat in one group"}
        ELSE Broken({
               <<"no other heliostats", \A g \in 1..Len(names) : \A k \in 1..Len(names[g]) : names[g][k] \in {i.hel[x].name : x \in N}>>,
               <<"groups differ in type", \A a, b \in 1..Len(names) : a # b => <<o.groups[a].kin, o.groups[a].act>> # <<o.groups[b].kin, o.groups[b].act>>>>,
               <<"number of groups", o.count = Len(names) /\ o.number = Len(names) /\ \A g \in 1..Len(names) : o.sizes[g] = Len(names[g])>>,
               <<"one entry per heliostat", \A g \in 1..Len(names) : Len(o.groups[g].rows) = Len(names[g])>>,
               <<"power plant", o.plant = i.plant>>,
               <<"planar targets", Len(o.planar) = Len(i.planar) /\ NamesOf(o.planar) = NamesOf(i.planar) /\ \A k \in 1..Len(i.planar) : Named(o.planar, i.planar[k].name) = i.planar[k]>>,
               <<"cylindrical targets", Len(o.cyl) = Len(i.cyl) /\ NamesOf(o.cyl) = NamesOf(i.cyl) /\ \A k \in 1..Len(i.cyl) : Named(o.cyl, i.cyl[k].name) = i.cyl[k]>>,
               <<"numbering of the targets", \A k \in 1..Len(o.planar) : o.index[o.planar[k].name] = k - 1>>,
               <<"numbering of the cylindrical targets", \A k \in 1..Len(o.cyl) : o.index[o.cyl[k].name] = Len(o.planar) + k - 1>>,
               <<"light sources", /\ Len(o.lights) = Len(i.lights)
                                  /\ \A k \in 1..Len(i.lights) :
                                       LET want == i.lights[k]
                                           same(q) == {x \in 1..Len(q) : q[x].rays = want.rays /\ q[x].mean = want.mean /\ Close(q[x].cov, want.cov, 20)}
                                       IN  Cardinality(same(o.lights)) = Cardinality(same(i.lights))>> })
             \cup UNION {LET h == i.hel[k]
                             at == CHOOSE x \in home(h.name) : TRUE
                         IN  BadHeliostat(i, h, o.groups[at[1]], at[2]) : k \in N}

Bad(e) == BadLoad(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
