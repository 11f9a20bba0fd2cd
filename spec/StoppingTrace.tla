---------------------------- MODULE StoppingTrace ----------------------------
(***************************************************************************)
(* Conformance of EarlyStopping and the learning-rate schedulers.          *)
(***************************************************************************)
EXTENDS Stopping, Fix, TraceBase
VARIABLE l

\* i.losses in units of 1/i.unit; o.stop per step, o.counter per step
BadStop(e) ==
    LET i == e.in
        o == e.out
        cfg == [window |-> i.window, patience |-> i.patience, num |-> i.num, den |-> i.den, relative |-> i.relative,
                eps |-> i.eps, unit |-> i.unit]
        T == 1..Len(i.losses)
    IN  Broken({ <<"answers", Len(o.stop) = Len(i.losses)>>,
                 <<"stops exactly when patience is exhausted", \A t \in T : (o.stop[t] = 1) = Stops(cfg, i.losses, t)>> })

RECURSIVE Pow(_, _)
Pow(g, n) == IF n = 0 THEN S ELSE Mul(g, Pow(g, n - 1))

\* learning rates are scaled by S; o.lr[k] is the rate used in epoch k - 1
BadExp(e) ==
    LET i == e.in
        o == e.out
        tol(x) == 3 + x \div 20000
    IN  Broken({ <<"initial rate", Close(o.lr[1], i.lr, 1)>>,
                 <<"rate times factor in every epoch", \A k \in 1..Len(o.lr) - 1 : Close(o.lr[k + 1], Mul(o.lr[k], i.gamma), 2 + o.lr[k] \div 500000)>>,
                 <<"power law", \A k \in 1..Len(o.lr) : Close(o.lr[k], Mul(i.lr, Pow(i.gamma, k - 1)), 3 + k * (i.lr \div 300000))>> })

BadCyclic(e) ==
    LET i == e.in
        o == e.out
        half == i.up
        \* position in the cycle, rising for `up` steps and falling for as many
        at(k) == LET m == k % (2 * half) IN IF m <= half THEN m ELSE 2 * half - m
    IN  Broken({ <<"bounds", \A k \in 1..Len(o.lr) : o.lr[k] >= i.min - 2 - i.max \div 500000 /\ o.lr[k] <= i.max + 2 + i.max \div 500000>>,
                 <<"triangle", \A k \in 1..Len(o.lr) :
                     Close(o.lr[k], i.min + MulDiv(i.max - i.min, at(k - 1), half), 3 + i.max \div 300000)>> })

BadPlateau(e) ==
    LET i == e.in
        o == e.out
        cfg == [patience |-> i.patience, cooldown |-> i.cooldown, num |-> i.num, den |-> i.den]
        RECURSIVE go(_, _, _, _)
        go(t, st, lr, acc) ==
            IF t > Len(i.losses) THEN acc
            ELSE LET s2 == PStep(cfg, st, i.losses[t])
                     r == IF s2.cuts > st.cuts THEN Max2(Mul(lr, i.factor), i.min) ELSE lr
                     r2 == IF lr < i.min THEN lr ELSE r
                 IN  go(t + 1, s2, r2, Append(acc, r2))
        want == go(1, PInit, i.lr, <<i.lr>>)
    IN  Broken({ <<"lowered after patience, never below the minimum",
                   Len(o.lr) = Len(want) /\ \A k \in 1..Len(want) : Close(o.lr[k], want[k], 3 + want[k] \div 100000)>>,
                 <<"never below its minimum", \A k \in 1..Len(o.lr) : o.lr[k] >= Min2(i.min, i.lr) - 2>> })

Bad(e) == CASE e.kind = "stop" -> BadStop(e)
            [] e.kind = "exp" -> BadExp(e)
            [] e.kind = "cyclic" -> BadCyclic(e)
            [] e.kind = "plateau" -> BadPlateau(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
