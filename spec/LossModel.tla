------------------------------- MODULE LossModel -------------------------------
(***************************************************************************)
(* The definitions: non-negative, zero exactly where they should be,       *)
(* independent of scales, on all small inputs.                             *)
(***************************************************************************)
EXTENDS Losses

CONSTANTS Values, Size

VARIABLES a, b, d
vars == <<a, b, d>>
Init == /\ a \in [1..Size -> Values] /\ b \in [1..Size -> Values]
        /\ d = << <<<<a[1], 0, 0>>, <<a[2], b[1], 0>>>>, <<<<a[3], 0, b[2]>>, <<0, 0, b[3]>>>> >>
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Some(q) == SeqSum(q) > 0
Same(p, q) == \A k \in 1..Size : p[k] * SeqSum(q) = q[k] * SeqSum(p)
Gibbs == Some(a) /\ Some(b) => LET x == Divergence(a, b) IN x >= -20 /\ (Same(a, b) <=> x <= 20)
ScaleFree == Some(a) /\ Some(b) => Close(Divergence([k \in 1..Size |-> 5 * a[k]], b), Divergence(a, b), 20)
Squares == LET x == SumSquares(a, b, 1) IN x >= 0 /\ (x = 0 <=> a = b)
Pixels == Some(b) => LET x == RelSquares(a, b, 1) IN x >= 0 /\ (x = 0 <=> a = b)
Angles == Some(a) /\ Some(b) => LET x == AngleBetween([k \in 1..3 |-> a[k] * S], [k \in 1..3 |-> b[k] * S])
                                IN  x >= 0 /\ x <= PI /\ (Same(a, b) => x <= 20) /\ Close(Cos(x), S - CosineDistance([k \in 1..3 |-> a[k] * S], [k \in 1..3 |-> b[k] * S]), 30)
Uniform(e) == [u \in 1..2 |-> [v \in 1..2 |-> [x \in 1..3 |-> d[u][v][x] + e]]]
Smooth == /\ Roughness(Uniform(3), 1) = Roughness(d, 1)
          /\ (Roughness(d, 1) = 0 <=> \A u, v \in 1..2 : d[u][v] = d[1][1])
Deviates == Deviation(d, 1) = 0 <=> \A u, v \in 1..2 : d[u][v] = <<0, 0, 0>>
PerSample == LET q == a \o b IN /\ PerHeliostat(q, 2, "sum")[1] = a[1] + a[2]
                                 /\ Len(PerHeliostat(q, 4, "max")) = Len(q) \div 4
                                 /\ \A h \in {"mean", "max", "min", "median"} : PerHeliostat(q, 1, h) = q
=============================================================================
