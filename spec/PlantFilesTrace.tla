--------------------------- MODULE PlantFilesTrace ---------------------------
(***************************************************************************)
(* Conformance of the readers of plant files and of the surface fitting.   *)
(* Lengths in micrometres, angles in micro-radians.                        *)
(***************************************************************************)
EXTENDS PlantFiles, TraceBase

VARIABLE l

Near(a, b, tol) == \A x \in 1..3 : Close(a[x], b[x], tol)
Point(a, b, tol) == Len(a) = 4 /\ Near(a, b, tol) /\ a[4] = S
Direction(a, b, tol) == Len(a) = 4 /\ Near(a, b, tol) /\ a[4] = 0

\* in: targets (key, type, centre, normal; corners or radius, height and opening); out: planar, cylinder, plant (dlat, dlon,
\* dalt between the position in the file and the configuration)
BadTower(e) ==
    LET i == e.in
        o == e.out
        of(ty) == {k \in 1..Len(i.targets) : i.targets[k].type = ty}
        keys(q) == {q[k].key : k \in 1..Len(q)}
        got(q, key) == q[CHOOSE k \in 1..Len(q) : q[k].key = key]
        all(ty, q) == keys(q) = {i.targets[k].key : k \in of(ty)} /\ Len(q) = Cardinality(of(ty))
    IN  IF e.err # "" THEN {"accepted"}
        ELSE IF ~(all("planar", o.planar) /\ all("convex_cylinder", o.cylinder)) THEN {"every target once, as what it is"}
        ELSE Broken({
          <<"position of the plant", \A x \in 1..3 : o.plant[x] = 0>>,
          <<"planar target", \A k \in of("planar") :
                LET t == i.targets[k]
                    g == got(o.planar, t.key)
                    w == Extents(t)
                IN  /\ Point(g.center, t.center, 60) /\ Direction(g.normal, t.normal, 2)
                    /\ Close(g.e, w[1], 80) /\ Close(g.u, w[2], 80)>>,
          <<"cylinder", \A k \in of("convex_cylinder") :
                LET t == i.targets[k]
                    g == got(o.cylinder, t.key)
                IN  /\ Close(g.radius, t.radius, 5) /\ Close(g.opening, t.opening, 5) /\ Direction(g.normal, t.normal, 2)
                    /\ Direction(g.axis, Upright(t.normal), 6)
                    /\ Point(g.center, t.center, ChordTol(t.opening \div 2)) /\ Close(g.height, t.height, 300)>> })

Facets(h, g, i) ==
    Len(g.facets) = Len(h.facets) /\
    \A f \in 1..Len(h.facets) :
        LET w == h.facets[f]
            c == g.facets[f]
            moved == h.fit = 1 /\ i.method = 1      \* fitted to points, which are measured from the heliostat's centre
        IN  Direction(c.t, IF moved THEN <<0, 0, 0>> ELSE w.t, 2) /\ Direction(c.ce, w.ce, 2) /\ Direction(c.cn, w.cn, 2) /\ c.degrees = <<3, 3>>

Shape(h, g, i) ==
    \A f \in 1..Len(h.facets) :
        LET w == h.facets[f]
            c == g.facets[f].cps
            n == i.cp[1]
            m == i.cp[2]
            \* a fit starts with an even grid as large as the point cloud
            start == [ce |-> <<h.cloud[f][1] \div 2, 0, 0>>, cn |-> <<0, h.cloud[f][2] \div 2, 0>>]
            off == IF h.fit = 0 \/ i.method = 1 THEN <<0, 0, 0>> ELSE w.t
            tol == IF h.fit = 0 THEN 8 ELSE 50 + i.epochs * 1200 + 1200
        IN  /\ Len(c) = n /\ \A a \in 1..n : Len(c[a]) = m
            /\ \A a \in 1..n, b \in 1..m : Near(c[a][b], VAdd(off, GridPoint(IF h.fit = 1 THEN start ELSE w, n, m, a, b)), tol)

Drives(h, g) ==
    Len(g.act) = Len(h.act) /\
    \A a \in 1..Len(h.act) :
        LET w == h.act[a]
            c == g.act[a]
        IN  /\ c.type = w.type /\ c.clockwise = w.clockwise /\ c.limits = w.limits
            /\ Close(c.increment, w.increment, 20) /\ \A x \in 1..Len(w.params) : Close(c.params[x], w.params[x], 2)

Frame(h, g) == Direction(g.init, h.init, 2) /\ Len(g.dev) = Len(h.dev) /\ \A x \in 1..Len(h.dev) : Close(g.dev[x], h.dev[x], 2)

\* in: heliostats (name, pos, facets, cloud, init, dev, act, fit), mode, method, cp, epochs; out: list, proto
BadHeliostats(e) ==
    LET i == e.in
        o == e.out
        N == 1..Len(i.heliostats)
        names == [k \in 1..Len(o.list) |-> o.list[k].name]
        got(k) == o.list[CHOOSE x \in 1..Len(o.list) : o.list[x].name = i.heliostats[k].name]
        proto == {k \in N : LET h == i.heliostats[k] IN Facets(h, o.proto, i) /\ Shape(h, o.proto, i) /\ Drives(h, o.proto) /\ Frame(h, o.proto)}
    IN  IF e.err # "" THEN {"accepted"}
        ELSE IF ~(Len(names) = Len(i.heliostats) /\ Range(names) = {i.heliostats[k].name : k \in N}) THEN {"every heliostat once"}
        ELSE Broken({
          <<"own number", Distinct([k \in 1..Len(o.list) |-> o.list[k].id])>>,
          <<"position", \A k \in N : Point(got(k).pos, i.heliostats[k].pos, 60)>>,
          <<"facets", \A k \in N : Facets(i.heliostats[k], got(k), i)>>,
          <<"surface", \A k \in N : Facets(i.heliostats[k], got(k), i) => Shape(i.heliostats[k], got(k), i)>>,
          <<"kinematics", \A k \in N : Frame(i.heliostats[k], got(k))>>,
          <<"actuators", \A k \in N : Drives(i.heliostats[k], got(k))>>,
          <<"prototype", proto # {} /\ (Ideal(i.heliostats) # <<>> => \E k \in proto : i.heliostats[k].fit = 0)>> })

\* reading a surface from STRAL or deflectometry. in: facets (t, ce, cn, points, normals); out: t, ce, cn (STRAL only), points, normals
BadSurface(e) ==
    LET i == e.in
        o == e.out
        F == 1..Len(i.facets)
        same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : Len(a[k]) = 3 /\ Near(a[k], b[k], 2)
    IN  IF e.err # "" THEN {"accepted"}
        ELSE IF ~(Len(o.points) = Len(i.facets) /\ Len(o.normals) = Len(i.facets)) THEN {"number of facets"}
        ELSE Broken({
          <<"facets", i.stral = 0 \/ (Len(o.t) = Len(i.facets) /\ \A f \in F : /\ Direction(o.t[f], i.facets[f].t, 2) /\ Direction(o.ce[f], i.facets[f].ce, 2)
                                                                              /\ Direction(o.cn[f], i.facets[f].cn, 2))>>,
          <<"points in order", \A f \in F : same(o.points[f], i.facets[f].points)>>,
          <<"normals in order", \A f \in F : same(o.normals[f], i.facets[f].normals)>> })

\* fitting. out: together and alone (control points per facet), spare (as together, after changing points that are not to
\* be used), steps, flat and fit (mean squared deviation of what is fitted, before and after, in units of 1e-9), inputs (1: unchanged)
BadFit(e) ==
    LET i == e.in
        o == e.out
        same(a, b, tol) == Len(a) = Len(b) /\ \A x \in 1..Len(b) : Close(a[x], b[x], tol)
        F == 1..i.facets
    IN  IF e.err # "" THEN {"accepted"}
        ELSE Broken({
          <<"one facet per measured facet", Len(o.together) = i.facets>>,
          <<"independent of other facets", \A f \in F : same(o.together[f], o.alone[f], 2)>>,
          <<"again the same", \A f \in F : same(o.again[f], o.together[f], 2)>>,
          <<"uses every n-th point only", \A f \in F : same(o.spare[f], o.together[f], 2)>>,
          <<"number of epochs", o.steps = -1 \/ (o.steps >= i.facets /\ o.steps <= i.facets * (i.epochs + 1))>>,
          <<"starts at the full rate", \A f \in 1..Len(o.first) : o.first[f] = o.first[1]>>,
          <<"closer to the measurement", \A f \in F : o.fit[f] <= 3 + (IF i.method = 2 THEN o.flat[f] \div 4 ELSE 2 * (o.flat[f] \div 3))>>,
          <<"inputs unchanged", o.inputs = 1>> })

Bad(e) == CASE e.kind = "tower" -> BadTower(e)
            [] e.kind = "heliostats" -> BadHeliostats(e)
            [] e.kind = "surface" -> BadSurface(e)
            [] e.kind = "fit" -> BadFit(e)

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
