------------------------- MODULE ReconstructionTrace -------------------------
(***************************************************************************)
(* Conformance of reconstructions of kinematics and surfaces.              *)
(* in: method, data[g][h] (calibration data?), n (samples per heliostat),  *)
(* cfg; out: calls (per trained group and epoch: what the loss function    *)
(* was asked and answered), hist, final, changed[g] (per stored tensor and *)
(* heliostat), digests of the results of repeated runs.                    *)
(***************************************************************************)
EXTENDS Reconstruction, Kinematics, TraceBase
VARIABLE l

Inf == -1
Mask(i, g) == [h \in 1..Len(i.data[g]) |-> i.data[g][h] * i.n]
Train(i, g) == Sorted(TrainSet(Mask(i, g), 1, 4))
NTrain(i) == i.n - NTest(i.n, 1, 4)

Learned(m) == IF m = "surface" THEN {"control", "points", "normals"} ELSE {"rotations"}

Sum(q) == LET RECURSIVE go(_, _)
                go(k, a) == IF k > Len(q) THEN a ELSE go(k + 1, a + q[k])
            IN  go(1, 0)
MeanOf(q) == Sum(q) \div Len(q)
\* the lower median
MedianOf(q) == CHOOSE x \in {q[k] : k \in 1..Len(q)} :
                 /\ Cardinality({k \in 1..Len(q) : q[k] < x}) <= (Len(q) - 1) \div 2
                 /\ Cardinality({k \in 1..Len(q) : q[k] <= x}) > (Len(q) - 1) \div 2
Reduce(m, q) == IF m = "flux" THEN MedianOf(q) ELSE MeanOf(q)
\* losses per heliostat from those per sample
Chunks(m, q, n) == [j \in 1..(Len(q) \div n) |-> Reduce(m, SubSeq(q, (j - 1) * n + 1, j * n))]
PerHeliostat(i, q) == Chunks(i.method, q, NTrain(i))
Near(a, b) == Close(a, b, 3 + Abs(b) \div 200000)
NearSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k])

Off(i, g) == Sum([x \in 1..(g - 1) |-> Len(i.data[x])])

(******************************* alignment ********************************)
K(i, g, h) == i.helio[g][h]
MeasuredNormal(i, g, s) ==
    LET h == Owner(Mask(i, g), s) IN
    Unit(VSub(Unit(VSub(i.focal[g][s + 1], K(i, g, h).pos)), i.sun[g][s + 1]))
PredictedNormal(i, g, s, rot) ==
    LET k == [K(i, g, Owner(Mask(i, g), s)) EXCEPT !.rot = rot[Owner(Mask(i, g), s)]]
        m == i.motors[g][s + 1]
    IN  NormalOf(k, Angle(k.act[1], m[1]), Angle(k.act[2], m[2]))

AlignClauses(i, o, g, calls) ==
    LET t == Train(i, g)
        N == 1..Len(t)
        rot0 == [h \in 1..Len(i.data[g]) |-> K(i, g, h).rot]
    IN  {<<"measured normals of the training samples", \A k \in 1..Len(calls) : Len(calls[k].truth) = Len(t) /\
             \A s \in N : VClose(calls[k].truth[s], MeasuredNormal(i, g, t[s]), 20)>>,
         <<"predicted normals of the training samples", Len(calls[1].pred) = Len(t) /\
             \A s \in N : VClose(calls[1].pred[s], PredictedNormal(i, g, t[s], rot0), 200)>>,
         <<"the learned parameters are those of the next epoch",
             Has(o, "next") => \A s \in N : VClose(o.next[g][s], PredictedNormal(i, g, t[s], o.rot[g]), 200)>>}

(******************************** surfaces ********************************)
\* augmented Lagrangian of the flux integrals: lambda per heliostat
Rel(i, calls, k, s) == MulDiv(calls[k].sums[s] - calls[1].sums[s], S, calls[1].sums[s])
Violation(i, calls, k) == PerHeliostat(i, [s \in 1..Len(calls[k].sums) |-> Max2(0, -i.etol - Rel(i, calls, k, s))])
RECURSIVE Lambda(_, _, _)
Lambda(i, calls, k) == IF k = 1 THEN [j \in 1..(Len(calls[1].sums) \div NTrain(i)) |-> 0]
                       ELSE LET a == Lambda(i, calls, k - 1)
                                v == Violation(i, calls, k - 1)
                            IN  [j \in 1..Len(a) |-> Max2(0, a[j] + Mul(i.rho, v[j]))]
Penalty(i, calls, k) == LET a == Lambda(i, calls, k)
                            v == Violation(i, calls, k)
                        IN  MeanOf([j \in 1..Len(v) |-> Mul(a[j], v[j]) + Mul(i.rho, Mul(v[j], v[j])) \div 2])
SurfaceClauses(i, h, calls) ==
    LET N == 1..Len(h.total)
        loss(k) == MeanOf(PerHeliostat(i, calls[k].losses))
        \* in units of losses
        inL(x) == MulDiv(x, i.L, S)
        upper(w, k) == MulDiv(loss(k), w, S)
        tolL(k) == 3 + Abs(h.total[k]) \div 100000
    IN  {<<"flux loss", \A k \in N : Near(h.flux[k], loss(k))>>,
         <<"flux integral", \A k \in N : Close(h.integral[k], MeanOf([s \in 1..Len(calls[k].sums) |-> Rel(i, calls, k, s)]), 30)>>,
         <<"penalty of lost flux", \A k \in N : Close(h.constraint[k], Penalty(i, calls, k), 60 + 20 * k)>>,
         <<"regularizers are a fraction of the flux loss once the surface changed", \A k \in N :
             /\ (i.moves = 1 /\ k > 1 => (h.smooth[k] >= (upper(i.ws, k) * 9) \div 10 - tolL(k) /\ h.ideal[k] >= (upper(i.wi, k) * 9) \div 10 - tolL(k)))
             /\ h.smooth[k] >= -1 /\ h.smooth[k] <= upper(i.ws, k) + tolL(k) /\ (i.ws = 0 \/ k = 1 => Abs(h.smooth[k]) <= 1)
             /\ h.ideal[k] >= -1 /\ h.ideal[k] <= upper(i.wi, k) + tolL(k) /\ (i.wi = 0 \/ k = 1 => Abs(h.ideal[k]) <= 1)>>,
         <<"total loss", \A k \in N : Close(h.total[k], h.flux[k] + inL(h.constraint[k]) + h.smooth[k] + h.ideal[k], 5 + tolL(k) + i.L \div 20000)>>}

(********************************* groups *********************************)
GroupClauses(i, o, x) ==
    LET g == Trained(i.data)[x]
        calls == o.calls[x]
        h == o.hist[x]
        act == ActiveOf(i.data[g])
        losses(k) == MeanOf(PerHeliostat(i, calls[k].losses))
        finals == [j \in 1..Len(act) |-> o.final[Off(i, g) + act[j]]]
        T == IF i.method = "surface" THEN IF Len(calls) = Len(h.total) THEN h.total ELSE Append(h.total, MeanOf(finals))
             ELSE [k \in 1..Len(calls) |-> losses(k)]
    IN  IF Len(calls) = 0 THEN {<<"every group with data is trained", FALSE>>}
        ELSE IF \E k \in 1..Len(calls) : Len(calls[k].losses) # Len(Train(i, g)) THEN {<<"all training samples and only they", FALSE>>}
        ELSE {<<"ends in time", Complete(i.cfg, T)>>,
              <<"history", LET w == History(i.cfg, T) IN NearSeq(h.total, w)>>,
              <<"final losses", IF i.method = "surface" THEN Near(MeanOf(finals), T[Len(T)])
                                ELSE NearSeq(finals, PerHeliostat(i, calls[Len(calls)].losses))>>,
              <<"test losses for every trained heliostat", \A k \in 1..Len(h.test) : h.test[k] = Len(act)>>,
              <<"test losses are those of the learned parameters for the test samples", \A t \in DOMAIN o.tests[x] :
                  LET w == Chunks(i.method, o.samples[x][t], NTest(i.n, 1, 4))
                  IN  Len(o.tests[x][t]) = Len(w) /\ \A k \in 1..Len(w) : Close(o.tests[x][t][k], w[k], 20 + Abs(w[k]) \div 20)>>,
              <<"measurements of the training samples", i.method = "align" \/ \A k \in 1..Len(calls) : calls[k].truth = Train(i, g)>>,
              <<"targets of the training samples", i.method = "align" \/
                  \A k \in 1..Len(calls) : calls[k].targets = [s \in 1..Len(Train(i, g)) |-> i.targets[g][Train(i, g)[s] + 1]]>>,
              <<"prediction of the current parameters", \A s \in 1..Len(o.public[x]) : o.public[x][s] = <<>> \/ \A k \in 1..Len(o.public[x][s]) :
                  Close(o.public[x][s][k], calls[1].pred[s][k], 200 + Abs(o.public[x][s][k]) \div 500)>>}
             \cup {<<"parameters are learned", i.learns = 1 => LET q == PerHeliostat(i, calls[1].losses)
                    IN  \A j \in 1..Len(act) : q[j] > 50 /\ Len(calls) > 1 => \E t \in Learned(i.method) : o.changed[g][t][act[j]] = 1>>}
             \cup (IF i.method = "align" THEN AlignClauses(i, o, g, calls) ELSE {})
             \cup (IF i.method = "surface" THEN SurfaceClauses(i, h, calls) ELSE {})
             \cup (IF i.improves = 1 THEN {<<"the loss decreases", T[1] > 1000000 => T[Len(T)] < T[1]>>} ELSE {})

BadRun(e) ==
    LET i == e.in
        o == e.out
        tr == Trained(i.data)
        idle(g, h) == i.data[g][h] = 0
        H(g) == 1..Len(i.data[g])
        G == 1..Len(i.data)
    IN  IF Len(o.calls) # Len(tr) \/ Len(o.hist) # Len(tr) THEN {"one history per group with data"}
        ELSE Broken({
               <<"final loss is infinite exactly without data", \A g \in G : \A h \in H(g) : (o.final[Off(i, g) + h] = Inf) = idle(g, h)>>,
               <<"only learned parameters of heliostats with data change", \A g \in G : \A t \in DOMAIN o.changed[g] : \A h \in H(g) :
                   o.changed[g][t][h] = 1 => (t \in Learned(i.method) /\ ~idle(g, h))>>,
               <<"nothing else changes", o.others = 0>>,
               <<"outlines stay", o.outline = 0>>,
               <<"parameters are finite", o.finite = 1>>,
               <<"same again", o.digest.again = o.digest.base>>,
               <<"how often it is validated does not matter", o.digest.validated = o.digest.base>>,
               <<"test samples do not influence training", o.digest.untested = o.digest.base>>,
               <<"groups are independent", \A g \in G : HasData(i.data, g) => o.digest.alone[g] = o.digest.group[g]>> })
             \cup UNION {Broken(GroupClauses(i, o, x)) : x \in 1..Len(tr)}

Bad(e) == BadRun(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
