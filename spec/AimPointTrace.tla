--------------------------- MODULE AimPointTrace ---------------------------
(***************************************************************************)
(* Conformance of aim-point optimizations.                                 *)
(* in: cfg, limits; out: per epoch what the loss function was asked and    *)
(* answered (calls), the history, the motor positions before and after,    *)
(* and what the public interface yields for them.                          *)
(***************************************************************************)
EXTENDS AimPoint, Fix, TraceBase
VARIABLE l

Near(a, b, t) == Close(a, b, t + Abs(b) \div 20000)
NearSeq(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], t)
Cap(x) == IF x > 400000000 THEN 400000000 ELSE IF x < -400000000 THEN -400000000 ELSE x

\* share of a reference that is missing; where the reference is zero nothing can be missing
Missing(ref, x) == IF ref = 0 THEN IF x > 0 THEN -400000000 ELSE 0 ELSE MulDiv(ref - x, S, ref)

KLClauses(e) ==
    LET i == e.in
        c == e.out.calls
        h == e.out.hist
        N == 1..Len(c)
        lost(k) == Missing(c[1].sum, c[k].sum)
        high(k) == Cap(MulDiv(c[k].peak - i.limit, S, i.limit))
        \* the rays that are on target, heliostat by heliostat
        J == 1..Len(c[1].hits)
        miss(k) == [j \in J |-> Missing(c[1].hits[j], c[k].hits[j])]
        mean(k) == LET m == miss(k) IN IF \E j \in J : m[j] <= -400000000 THEN -400000000 ELSE SumSeq(m) \div Len(m)
        lamI(k) == WeightAt(Mul, i.rhoI, mean, k)
        lamL(k) == WeightAt(Mul, i.rhoL, high, k)
        lamF(k) == WeightAt(Mul, i.rhoF, lost, k)
        pen(k) == LET m == miss(k) la == lamI(k) IN SumSeq([j \in J |-> Penalty(Mul, la, i.rhoI, m[j])]) \div Len(m)
        t(k) == 60 + 20 * k
    IN  {<<"one entry of every kind per epoch", \A q \in {h.local, h.intercept, h.integral, h.gain} : Len(q) = Len(c)>>,
         <<"change of the flux", \A k \in N : Near(h.gain[k], -lost(k), 20)>>,
         <<"penalty of lost flux", \A k \in N : Near(h.integral[k], Penalty(Mul, lamF(k), i.rhoF, lost(k)), t(k))>>,
         <<"penalty of too much flux", \A k \in N : Near(h.local[k], Penalty(Mul, lamL(k), i.rhoL, high(k)), t(k) + Abs(high(k)) \div 2000)>>,
         <<"penalty of lost rays", c[1].hits = <<>> \/ \A k \in N : Near(h.intercept[k], pen(k), t(k))>>,
         <<"total loss", \A k \in N : Near(h.total[k], h.flux[k] + h.integral[k] + h.local[k] + h.intercept[k], 10)>>}

Blocks(q) == [b \in 1..Len(q[1]) |-> SumSeq([k \in 1..Len(q) |-> q[k][b]])]

BadRun(e) ==
    LET i == e.in
        o == e.out
        c == o.calls
        h == o.hist
        n == Len(c)
        M == DOMAIN o.before
        still == i.lr = 0 \/ n = 1
        T == h.total
    IN  IF n = 0 THEN {"evaluated at least once"} ELSE Broken(
        {<<"one entry per epoch", Len(h.total) = n /\ Len(h.flux) = n>>,
         <<"ends in time", Len(T) = n /\ Complete(i.cfg, T)>>,
         <<"flux losses are those of the loss function", \A k \in 1..Len(h.flux) : k <= n => Near(h.flux[k], c[k].loss, 3)>>,
         <<"reported loss", Near(o.loss, T[Len(T)], 3)>>,
         <<"finite", o.finite = 1>>,
         <<"within the limits", \A k \in M : MayBe(i.lo[k], i.hi[k], o.before[k], o.after[k], i.mtol)>>,
         <<"starts as aligned", o.start = 1>>,
         <<"no step, no change", still => \A k \in M : Close(o.after[k], o.before[k], i.mtol)>>,
         <<"motors are moved", i.real = 1 /\ i.lr > 0 /\ n >= 2 /\ i.free = 1 => \E k \in M : o.after[k] # o.before[k]>>,
         <<"only motor positions change", o.changed = <<>> >>,
         <<"the same target, the same ground truth", \A k \in 1..n : c[k].target = i.target /\ c[k].truth = 1>>,
         <<"total flux of all heliostats at first", LET w == Blocks(o.parts0) IN \A b \in 1..Len(w) : Close(c[1].blocks[b], w[b], 60 + w[b] \div 200)>>,
         <<"total flux of all heliostats at last", LET w == Blocks(o.parts1) IN \A b \in 1..Len(w) : Close(c[n].blocks[b], w[b], 60 + w[b] \div 200)>>,
         <<"shares of rays at last", \A s \in DOMAIN o.shares : Len(o.shares[s]) = Len(o.public[s]) /\ \A k \in DOMAIN o.shares[s] : Close(o.shares[s][k], o.public[s][k], 40)>>,
         <<"same again", o.again = o.digest>>}
        \cup (IF i.loss = "kl" THEN KLClauses(e)
              ELSE {<<"total loss", NearSeq(h.total, h.flux, 3)>>}))

Bad(e) == IF e.kind = "run" THEN BadRun(e) ELSE {"unknown kind"}
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
