---------------------------- MODULE BlockingTrace ----------------------------
(***************************************************************************)
(* Conformance of the blocking code: the hierarchy, its use as a filter,   *)
(* the soft mask, the rectangles that stand for the mirrors, and complete  *)
(* traces with blocking.                                                   *)
(***************************************************************************)
EXTENDS SceneClauses

VARIABLE l

Extreme(q, P(_, _)) == LET RECURSIVE go(_, _)
                           go(k, m) == IF k > Len(q) THEN m ELSE go(k + 1, IF P(q[k], m) THEN q[k] ELSE m)
                       IN  go(2, q[1])
MinOf(q) == Extreme(q, LAMBDA a, b : a < b)
MaxOf(q) == Extreme(q, LAMBDA a, b : a > b)

\* in.corners[j]: the four corners of mirror j
\* out: left, right, leaf (0/1), prim, lo[v], hi[v]: node v is entry v + 1
BadTree(e) ==
    LET c == e.in.corners
        o == e.out
        n == Len(c)
        N == 2 * n - 1
        lo(j, x) == MinOf([k \in 1..4 |-> c[j + 1][k][x]])
        hi(j, x) == MaxOf([k \in 1..4 |-> c[j + 1][k][x]])
        inner == {v \in 1..N : o.leaf[v] = 0}
        leaves == {v \in 1..N : o.leaf[v] = 1}
        RECURSIVE reach(_, _)
        reach(new, old) == IF new = {} THEN old
                           ELSE LET kids == ({o.left[v] + 1 : v \in new \cap inner} \cup {o.right[v] + 1 : v \in new \cap inner}) \cap (1..N)
                                IN  reach(kids \ (old \cup new), old \cup new)
        all == reach({1}, {})
    IN  IF Len(o.left) # N \/ Len(o.leaf) # N \/ Len(o.prim) # N \/ Len(o.lo) # N THEN {"size of the hierarchy"}
        ELSE Broken({
            <<"every mirror is a leaf once", \A j \in 0..n - 1 : Cardinality({v \in leaves : o.prim[v] = j}) = 1 /\ Cardinality(leaves) = n>>,
            <<"every mirror can be reached", leaves \subseteq all>>,
            <<"box of a leaf", \A v \in leaves : o.prim[v] \in 0..n - 1 =>
                  \A x \in 1..3 : 
                      /\ o.lo[v][x] <= lo(o.prim[v], x) + 2 + Abs(o.lo[v][x]) \div 10000000
                      /\ o.hi[v][x] >= hi(o.prim[v], x) - 2 - Abs(o.hi[v][x]) \div 10000000>>,
            <<"box of a node", \A v \in inner : \A w \in {o.left[v] + 1, o.right[v] + 1} :
                  w \in 1..N => \A x \in 1..3 : o.lo[v][x] <= o.lo[w][x] /\ o.hi[v][x] >= o.hi[w][x]>>,
            <<"depth", o.depth >= 1 /\ o.depth <= N>> })

\* in: mirrors [c, su, sv], origins[h][p], dirs[h][r][p], own[h], limits[h][r][p] (0: none)
RayFate(i, h, r, p, js) ==
    LET lim == IF i.limits[h][r][p] = 0 THEN FarAway ELSE i.limits[h][r][p]
        b == {Block(i.origins[h][p], i.dirs[h][r][p], i.mirrors[j], lim) : j \in js \ {i.own[h] + 1}}
    IN  IF "yes" \in b THEN "yes" ELSE IF "maybe" \in b THEN "maybe" ELSE "no"

BadFilter(e) ==
    LET i == e.in
        o == e.out
        n == Len(i.mirrors)
        \* a mirror that certainly blocks a ray of another heliostat has to pass the filter
        needed(j) == \E h \in 1..Len(i.origins) : i.own[h] + 1 # j /\
                       \E r \in 1..Len(i.dirs[h]) : \E p \in 1..Len(i.origins[h]) : RayFate(i, h, r, p, {j}) = "yes"
    IN  Broken({
          <<"filter keeps every blocking mirror", \A j \in 1..n : needed(j) => \E k \in 1..Len(o.kept) : o.kept[k] = j - 1>>,
          <<"filter returns mirrors once", Cardinality(Range(o.kept)) = Len(o.kept) /\ Range(o.kept) \subseteq 0..n - 1>> })

BadMask(e) ==
    LET i == e.in
        o == e.out.mask
        n == 1..Len(i.mirrors)
        ok(h, r, p) == LET f == RayFate(i, h, r, p, n)
                       IN  CASE f = "yes" -> o[h][r][p] >= S - 2000
                             [] f = "no" -> o[h][r][p] <= 2000
                             [] OTHER -> o[h][r][p] >= 0 /\ o[h][r][p] <= S
    IN  Broken({ <<"mask", \A h \in 1..Len(i.origins) : \A r \in 1..Len(i.dirs[h]) : \A p \in 1..Len(i.origins[h]) : ok(h, r, p)>> })

\* Rectangles of mirrors given by their surface: out.index and out.search are
\* lists of [c, s, n]: the corners, the spans and the normal, in.mirrors the truth
SameRect(m, x, tol) ==
    LET c == m.c  su == m.su  sv == m.sv
        n == Unit(Cross(su, sv))
    IN  /\ VClose(First3(x.c[1]), c, tol) /\ VClose(First3(x.c[2]), VAdd(c, su), tol)
        /\ VClose(First3(x.c[3]), VAdd(VAdd(c, su), sv), tol) /\ VClose(First3(x.c[4]), VAdd(c, sv), tol)
        /\ VClose(First3(x.s[1]), su, tol) /\ VClose(First3(x.s[2]), sv, tol)
        /\ (VClose(First3(x.n), n, 20 + tol) \/ VClose(First3(x.n), VNeg(n), 20 + tol))
        /\ x.n[4] = 0
BadRect(e) ==
    LET o == e.out
        n == Len(o.mirrors)
    IN  Broken({ <<"rectangle by index", Len(o.index) = n /\ \A j \in 1..n : SameRect(o.mirrors[j], o.index[j], o.tol)>>,
                 <<"rectangle by search", Len(o.search) = n /\ \A j \in 1..n : SameRect(o.mirrors[j], o.search[j], o.tol)>> })

\* Ray and box: in lo, hi, o, d (lists over rays); out entry, exit
BadBox(e) ==
    LET i == e.in
        n == Len(i.o)
        \* position at distance t along the ray
        at(k, t) == VAdd(i.o[k], VScale(t, i.d[k]))
        inside(k, q, tol) == \A x \in 1..3 : q[x] >= i.lo[k][x] - tol /\ q[x] <= i.hi[k][x] + tol
        grid == {50000 * g : g \in 0..400}
        tolp == 60
    IN  Broken({
          <<"entry and exit are on the box", \A k \in 1..n : e.out.exit[k] >= e.out.entry[k] + 5 =>
                inside(k, at(k, e.out.entry[k]), tolp) /\ inside(k, at(k, e.out.exit[k]), tolp)>>,
          <<"nothing of the box is missed", \A k \in 1..n : \A t \in grid :
                inside(k, at(k, t), -tolp) => e.out.entry[k] <= t /\ e.out.exit[k] >= t>> })

Bad(e) == CASE e.kind = "trace" -> BadTrace(e)
            [] e.kind = "tree" -> BadTree(e)
            [] e.kind = "filter" -> BadFilter(e)
            [] e.kind = "mask" -> BadMask(e)
            [] e.kind = "rect" -> BadRect(e)
            [] e.kind = "box" -> BadBox(e)
            [] OTHER -> {"unknown kind"}

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
