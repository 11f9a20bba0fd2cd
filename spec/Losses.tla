-------------------------------- MODULE Losses --------------------------------
(***************************************************************************)
(* Losses and regularizers.  Predictions and truths are integers (a common *)
(* unit P per case); results have scale S.                                 *)
(***************************************************************************)
EXTENDS Bitmap

\* flat sequence of the entries of a nested sequence of the given depth
RECURSIVE Flat(_, _)
Flat(x, depth) == IF depth <= 1 THEN x
                  ELSE LET RECURSIVE go(_, _)
                           go(i, acc) == IF i > Len(x) THEN acc ELSE go(i + 1, acc \o Flat(x[i], depth - 1))
                       IN  go(1, <<>>)
Diff(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]

\* sum of squared differences, in units of u
SumSquares(a, b, u) == LET d == Diff(a, b) IN DotDiv([k \in 1..Len(d) |-> d[k]], d, u)

\* squared differences relative to the sum of the truth; P is the unit
RelSquares(a, b, P) == LET d == Diff(a, b) IN DotDiv(d, [k \in 1..Len(d) |-> MulDiv(d[k], S, P)], SeqSum(b))

\* Kullback-Leibler divergence of the normalized truth b from the normalized prediction a;
\* a prediction of nothing counts as 10^-12
LnNothing == -MulDiv(27631021, S, 1000000)
LnRatio(p, q) == Ln(p) - Ln(q)      \* the units cancel
Divergence(a, b) ==
    LET sa == SeqSum(a)
        sb == SeqSum(b)
        term(k) == IF b[k] = 0 THEN 0
                   ELSE LET lp == LnRatio(b[k], sb)
                            lq == IF a[k] = 0 THEN LnNothing ELSE LnRatio(a[k], sa)
                        IN  MulDiv(b[k], lp - lq, sb)
    IN  SeqSum([k \in 1..Len(b) |-> term(k)])

\* angle between two vectors, independent of their lengths
AngleBetween(a, b) == LET u == Unit(a)
                          v == Unit(b)
                      IN  Atan2(Norm(Cross(u, v)), Dot(u, v))
CosineDistance(a, b) == S - Dot(Unit(a), Unit(b))

(******************************* per heliostat ******************************)
Sorted(q) == LET less(i, j) == q[i] < q[j] \/ (q[i] = q[j] /\ i < j)
                 place(j) == 1 + Cardinality({i \in 1..Len(q) : less(i, j)})
             IN  [p \in 1..Len(q) |-> q[CHOOSE j \in 1..Len(q) : place(j) = p]]
Part(q, k, n) == [i \in 1..n |-> q[(k - 1) * n + i]]
Reduced(q, how) == CASE how = "mean" -> MulDiv(SeqSum(q), 1, Len(q))
                     [] how = "sum" -> SeqSum(q)
                     [] how = "max" -> Sorted(q)[Len(q)]
                     [] how = "min" -> Sorted(q)[1]
                     [] how = "median" -> Sorted(q)[(Len(q) + 1) \div 2]
PerHeliostat(q, n, how) == [k \in 1..(Len(q) \div n) |-> Reduced(Part(q, k, n), how)]

(******************************* regularizers *******************************)
\* d[u][v] is the displacement of a control point, a triple; unit P
InGrid(d, u, v) == d[Clamp(u, 1, Len(d))][Clamp(v, 1, Len(d[1]))]
Laplace(d, u, v) == [x \in 1..3 |-> 4 * d[u][v][x] - InGrid(d, u - 1, v)[x] - InGrid(d, u + 1, v)[x] - InGrid(d, u, v - 1)[x] - InGrid(d, u, v + 1)[x]]
MeanSquare(q, P) == MulDiv(DotDiv(q, [k \in 1..Len(q) |-> MulDiv(q[k], S, P)], P), 1, Len(q))
Roughness(d, P) == MeanSquare(Flat([u \in 1..Len(d) |-> [v \in 1..Len(d[1]) |-> Laplace(d, u, v)]], 3), P)
Deviation(d, P) == MeanSquare(Flat(d, 3), P)
=============================================================================
