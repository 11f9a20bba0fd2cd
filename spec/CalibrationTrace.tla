-------------------------- MODULE CalibrationTrace --------------------------
(***************************************************************************)
(* Conformance of the calibration data parser and of the collection of     *)
(* calibration files.                                                      *)
(***************************************************************************)
EXTENDS Calibration, Geometry, TraceBase

VARIABLE l

\* in: names of the group, entries, limit, files (target, az and el in micro-degrees, spot [dlat, dlon, dalt] per
\* centroid method, motors, grey image), lat of the plant in micro-degrees, method, res [width, height]
BadParse(e) ==
    LET i == e.in
        o == e.out
        c == Chosen(i.names, i.entries, i.limit)
        f(k) == i.files[c[k]]
        N == 1..Len(c)
        deg(x) == MulDiv(x, 314159265, 1800000000) \div 10
        near(x, y) == Close(x, y, 200 + Abs(y) \div 150000)
        spot(k) == LET s == f(k).spots[i.method] IN Offset(i.lat, s[1], s[2], s[3], 0)
        w == i.res[1]
        h == i.res[2]
        px(g) == IF Len(g) = h /\ Len(g[1]) = w
                 THEN {<<a, b, a, b>> : a \in 1..h, b \in 1..w}
                 ELSE {<<1, 1, 1, 1>>, <<1, w, 1, Len(g[1])>>, <<h, 1, Len(g), 1>>, <<h, w, Len(g), Len(g[1])>>}
    IN  IF \E k \in N : f(k).target < 0 THEN Broken({<<"unknown target", e.err # "">>})
        ELSE IF e.err # "" THEN {"accepted"}
        ELSE IF ~(Len(o.targets) = Len(c) /\ Len(o.motors) = Len(c) /\ Len(o.spots) = Len(c) /\ Len(o.incident) = Len(c) /\ Len(o.flux) = Len(c))
             THEN {"number of samples"}
        ELSE Broken({
               <<"mask", o.mask = Counts(i.names, i.entries, i.limit)>>,
               <<"targets", \A k \in N : o.targets[k] = f(k).target>>,
               <<"motor positions", \A k \in N : o.motors[k] = f(k).motors>>,
               <<"focal spots", \A k \in N : LET p == spot(k) IN (\A x \in 1..3 : near(o.spots[k][x], p[x])) /\ o.spots[k][4] = S>>,
               <<"incident directions", \A k \in N : LET d == Enu(deg(f(k).az), deg(f(k).el), S)
                                                    IN  (\A x \in 1..3 : Close(o.incident[k][x], -d[x], 10)) /\ o.incident[k][4] = 0>>,
               <<"images", \A k \in N : Len(o.flux[k]) = h /\ \A p \in px(f(k).grey) :
                               Len(o.flux[k][p[1]]) = w /\ o.flux[k][p[1]][p[2]] = f(k).grey[p[3]][p[4]]>> })

\* Collecting the files. in: heliostats [files |-> <<[id, image]>> (image = 1: there is one of the variant), dir], count,
\* shuffle; out: one result per listing order of the file system, each a sequence of
\* [h |-> position of the heliostat, props |-> <<ids>>, images |-> <<ids>>]
BadCollect(e) ==
    LET i == e.in
        o == e.out.runs
        valid(h) == {x.id : x \in {y \in {i.heliostats[h].files[k] : k \in 1..Len(i.heliostats[h].files)} : y.image = 1}}
        with == {h \in 1..Len(i.heliostats) : valid(h) # {}}
        N == 1..Len(o[1])
        el(q) == {q[k] : k \in 1..Len(q)}
        min(a, b) == IF a < b THEN a ELSE b
    IN  Broken({
          <<"reproducible", \A k \in 1..Len(o) : o[k] = o[1]>>,
          <<"heliostats", {o[1][k].h : k \in N} = with /\ \A a, b \in N : a < b => o[1][a].h < o[1][b].h>>,
          <<"pairs", \A k \in N : o[1][k].props = o[1][k].images>>,
          <<"valid ones, each once", \A k \in N : o[1][k].h \in with => el(o[1][k].props) \subseteq valid(o[1][k].h) /\ Cardinality(el(o[1][k].props)) = Len(o[1][k].props)>>,
          <<"number", \A k \in N : o[1][k].h \in with => Len(o[1][k].props) = min(i.count, Cardinality(valid(o[1][k].h)))>>,
          <<"ordered", i.shuffle = 1 \/ \A k \in N : \A a, b \in 1..Len(o[1][k].props) : a < b => o[1][k].props[a] < o[1][k].props[b]>>,
          <<"first ones", i.shuffle = 1 \/ \A k \in N : o[1][k].h \in with =>
                \A x \in valid(o[1][k].h) \ el(o[1][k].props) : \A y \in el(o[1][k].props) : y < x>> })

Bad(e) == CASE e.kind = "parse" -> BadParse(e)
            [] e.kind = "collect" -> BadCollect(e)

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
