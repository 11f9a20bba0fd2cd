------------------------------- MODULE LossTrace -------------------------------
(***************************************************************************)
(* Conformance of losses and regularizers.  in: pred and truth in units    *)
(* 1/P; out: the losses of the batch, of every sample alone, and of the    *)
(* truths as their own predictions.                                        *)
(***************************************************************************)
EXTENDS Losses, RayTrace, TraceBase
CONSTANT P
VARIABLE l

Depth(e) == e.in.depth
RowOf(e, what, k) == IF Depth(e) = 1 THEN <<e.in[what][k]>> ELSE Flat(e.in[what][k], Depth(e) - 1)

\* losses are recorded with scale S; squares of 1/P exceed integers if computed otherwise
Defined(e, k) == IF e.kind \in {"pixel", "divergence"} THEN SeqSum(RowOf(e, "truth", k)) > 0 /\ (e.kind = "pixel" \/ SeqSum(RowOf(e, "pred", k)) > 0) ELSE TRUE
Spot(e, what, k) == LET b == e.in[what][k]
                        c == Centre(b)
                    IN  OnTarget(e.in.targets[e.in.idx[k] + 1], c[1], c[2], Width(b), Height(b))
Value(e, k) ==
    LET a == RowOf(e, "pred", k)
        b == RowOf(e, "truth", k)
        d == Diff(a, b)
    IN  CASE e.kind = "vector" -> DotDiv(d, [j \in 1..Len(d) |-> MulDiv(d[j], S, P)], P)
          [] e.kind = "pixel" -> RelSquares(a, b, P)
          [] e.kind = "divergence" -> Divergence(a, b)
          [] e.kind = "angle" -> AngleBetween(First3([j \in 1..Len(a) |-> MulDiv(a[j], S, P)]), First3([j \in 1..Len(a) |-> MulDiv(b[j], S, P)]))
          [] e.kind = "cosine" -> CosineDistance([j \in 1..Len(a) |-> MulDiv(a[j], S, P)], [j \in 1..Len(a) |-> MulDiv(b[j], S, P)])
          [] e.kind = "spot" -> Norm(VSub(Spot(e, "pred", k), Spot(e, "truth", k)))
\* the arc cosine of a rounded product resolves small angles and angles near PI badly
Tol(e, v) == CASE e.kind = "angle" -> IF v < S \div 50 \/ v > PI - S \div 50 THEN 1000 ELSE 60
               [] e.kind = "spot" -> 60
               [] OTHER -> 20 + Abs(v) \div 20000
BadLoss(e) ==
    LET o == e.out
        N == {k \in 1..Len(e.in.truth) : Defined(e, k)}
    IN  Broken({
          <<"one loss per sample", Len(o.loss) = Len(e.in.truth)>>,
          <<"loss follows its definition", \A k \in N : LET v == Value(e, k) IN Close(o.loss[k], v, Tol(e, v))>>,
          <<"not negative", \A k \in N : o.loss[k] >= -2>>,
          <<"zero for a perfect prediction", \A k \in {x \in 1..Len(e.in.truth) : e.kind # "pixel" \/ SeqSum(RowOf(e, "truth", x)) > 0} :
                 Close(o.perfect[k], 0, IF e.kind = "angle" THEN 1000 ELSE 5)>>,
          <<"independent of the other samples", \A k \in N : Close(o.alone[k], o.loss[k], 3 + Abs(o.loss[k]) \div 50000 + (IF e.kind = "angle" THEN 1000 ELSE 0))>>,
          <<"divergence is independent of the scale", e.kind = "divergence" => \A k \in N : Close(o.scaled[k], o.loss[k], 5 + Abs(o.loss[k]) \div 20000)>>,
          <<"a missing argument is rejected", o.rejected = (IF e.kind \in {"vector", "pixel", "divergence", "spot"} THEN 1 ELSE 0)>> })

BadReduce(e) ==
    LET want == PerHeliostat(e.in.loss, e.in.per, e.in.how)
    IN  Broken({ <<"losses of exactly the heliostat's samples", VClose(e.out.reduced, want, 3)>> })

\* in: now, before [heliostat][facet][u][v][3], dims (facets are summed)
BadRegular(e) ==
    LET i == e.in
        disp(h, f) == [u \in 1..Len(i.now[h][f]) |-> [v \in 1..Len(i.now[h][f][1]) |-> Diff(i.now[h][f][u][v], i.before[h][f][u][v])]]
        one(h, f) == IF i.which = "smooth" THEN Roughness(disp(h, f), P) ELSE Deviation(disp(h, f), P)
        want == [h \in 1..Len(i.now) |-> SeqSum([f \in 1..Len(i.now[h]) |-> one(h, f)])]
    IN  Broken({
          <<"regularizer follows its definition", \A h \in 1..Len(i.now) : CloseRel(e.out.value[h], want[h], 10, S \div 20000)>>,
          <<"vanishes without change", \A h \in 1..Len(i.now) : e.out.same[h] = 0>>,
          <<"grows with the square of the deviation", \A h \in 1..Len(i.now) : CloseRel(e.out.doubled[h], 4 * e.out.value[h], 10, S \div 5000)>>,
          <<"smoothness ignores a common shift", i.which = "smooth" => \A h \in 1..Len(i.now) : CloseRel(e.out.shifted[h], e.out.value[h], 10, S \div 5000)>> })

Bad(e) == CASE e.kind = "reduce" -> BadReduce(e)
            [] e.kind = "regularizer" -> BadRegular(e)
            [] OTHER -> BadLoss(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
