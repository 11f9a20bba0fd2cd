--------------------------- MODULE SurfacesTrace ---------------------------
(***************************************************************************)
(* Conformance of learned surfaces.  Kinds:                                *)
(*   lock    - gradients of control points before and after the lock       *)
(*   history - a loaded field, bent, updated and activated                 *)
(*   learn   - a field after a reconstruction of surfaces                  *)
(***************************************************************************)
EXTENDS Surfaces, Nurbs, TraceBase
VARIABLE l

BadLock(e) ==
    LET g == e.in.g
        o == e.out.g
        nu == Len(g[1][1])
        nv == Len(g[1][1][1])
    IN  Broken({
          <<"shape", Len(o) = Len(g) /\ \A h \in 1..Len(g) : Len(o[h]) = Len(g[h]) /\ \A f \in 1..Len(g[h]) : Len(o[h][f]) = nu
                        /\ \A u \in 1..nu : Len(o[h][f][u]) = nv>>,
          <<"outline is locked, the rest is free", \A h \in 1..Len(g) : \A f \in 1..Len(g[h]) : \A u \in 1..nu, v \in 1..nv :
                        o[h][f][u][v] = Locked(g[h][f][u][v], u, v, nu, nv)>> })

\* positions of the samples of a facet: equally spaced, the second direction first
GridAt(grid, k) == LET at(x, m) == IF m = 1 THEN 0 ELSE MulDiv(x, S, m - 1)
                   IN  << at((k - 1) \div grid[2], grid[1]), at((k - 1) % grid[2], grid[2]) >>
NearKnot(x, n, p) == LET f == Stretch(x, n, p) % S IN p = 1 /\ n > 2 /\ (f < 200 \/ f > S - 200)

\* The surface of one heliostat: facets is a sequence of [control, cant, shift], done: the control points
\* already are where the facet is.  shown: <<k, point, normal>> of some of the samples.
SurfaceBad(facets, deg, grid, done, shown) ==
    LET p == deg[1]
        q == deg[2]
        per == grid[1] * grid[2]
        basis == [f \in 1..Len(facets) |-> Basis(First3(facets[f].cant[1]), First3(facets[f].cant[2]))]
        fac(k) == ((k - 1) \div per) + 1
        pos(k) == GridAt(grid, ((k - 1) % per) + 1)
        at(k) == LET raw == Point(facets[fac(k)].control, pos(k)[1], pos(k)[2], p, q)
                 IN  IF done THEN raw ELSE VAdd(Cant(basis[fac(k)], raw), First3(facets[fac(k)].shift))
        nrm(k) == LET raw == NormalAt(facets[fac(k)].control, pos(k)[1], pos(k)[2], p, q)
                  IN  IF done THEN raw ELSE Cant(basis[fac(k)], raw)
        edge(k) == NearKnot(pos(k)[1], Len(facets[fac(k)].control), p) \/ NearKnot(pos(k)[2], Len(facets[fac(k)].control[1]), q)
    IN  Broken({ <<"points of the surface", \A j \in 1..Len(shown) : VClose(shown[j][2], at(shown[j][1]), 30)>>,
                 <<"normals of the surface", \A j \in 1..Len(shown) : edge(shown[j][1]) \/ VClose(shown[j][3], nrm(shown[j][1]), 150)>> })

Allowed(op) == CASE op = "bend" -> {"control"} [] op = "update" -> {"surface"} [] op = "activate" -> {"active"} [] OTHER -> {}

Flat(fs) == \A f \in 1..Len(fs) : LET c == fs[f].control IN \A u \in 1..Len(c), v \in 1..Len(c[1]) : c[u][v][3] = 0

BadHistory(e) ==
    LET i == e.in
        o == e.out
        sizes == [g \in 1..Len(i.groups) |-> Len(i.groups[g].hel)]
        HG == {<<g, h>> \in (1..Len(sizes)) \X (1..8) : h <= sizes[g]}
        states == [k \in 0..Len(i.steps) |-> AfterAll(Fresh(sizes), SubSeq(i.steps, 1, k))]
        facets(g, h, v) == LET fs == i.groups[g].hel[h].facets
                           IN  IF v = 0 THEN fs ELSE [f \in 1..Len(fs) |-> [fs[f] EXCEPT !.control = i.groups[g].hel[h].versions[v][f]]]
        \* control points of a loaded surface that is not flat already are where the facet is
        done(g, h, v) == v = 0 /\ ~Flat(i.groups[g].hel[h].facets)
        full == i.grid[1] * i.grid[2]
        loaded == o.steps[1]
    IN  Broken({
          <<"one surface per heliostat", \A k \in 1..Len(o.steps) : o.steps[k].count = [g \in 1..Len(sizes) |-> <<sizes[g], Len(i.groups[g].hel[1].facets) * full>>]>>,
          <<"homogeneous coordinates", \A k \in 1..Len(o.steps) : o.steps[k].w = 1>>,
          <<"nothing else changes", \A k \in 1..Len(i.steps) : Range(o.steps[k + 1].changed) \subseteq Allowed(i.steps[k].op)>>,
          <<"only changed surfaces change", \A k \in 1..Len(i.steps) : \A x \in HG :
                states[k].shown[x[1]][x[2]] = states[k - 1].shown[x[1]][x[2]] => o.steps[k + 1].moved[x[1]][x[2]] <= 3>>,
          <<"repeated updates change nothing", \A k \in 2..Len(i.steps) :
                (i.steps[k].op = "update" /\ i.steps[k - 1].op = "update") => o.steps[k + 1].changed = <<>> >>,
          <<"activation hands out the surfaces", \A k \in 1..Len(i.steps) :
                i.steps[k].op = "activate" => o.steps[k + 1].rows = Rows(i.steps[k].mask)>> })
        \cup UNION { IF o.steps[k].shown = <<>> THEN {} ELSE
                     UNION { SurfaceBad(facets(x[1], x[2], states[k - 1].shown[x[1]][x[2]]), i.groups[x[1]].degrees, i.grid,
                                        done(x[1], x[2], states[k - 1].shown[x[1]][x[2]]), o.steps[k].shown[x[1]][x[2]]) : x \in HG }
                     : k \in 1..Len(o.steps) }

\* After a reconstruction: everything the field shows is evaluated from the control points it has
BadLearn(e) ==
    LET o == e.out
    IN  Broken({
          <<"outline stays", o.outline = 0>>,
          <<"something was learned", o.learned = e.in.trained>>,
          <<"untrained surfaces stay", o.untouched = 1>>,
          <<"other data stays", o.other = <<>> >> })
        \cup UNION {SurfaceBad(o.hel[k].facets, e.in.degrees, e.in.grid, FALSE, o.hel[k].shown) : k \in 1..Len(o.hel)}

Bad(e) == CASE e.kind = "lock" -> BadLock(e)
            [] e.kind = "history" -> BadHistory(e)
            [] e.kind = "learn" -> BadLearn(e)
            [] OTHER -> {"unknown kind"}
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
