--------------------------- MODULE AimPointModel ---------------------------
(* The optimization as a state machine: one motor, one constraint, any loss. *)
EXTENDS AimPoint, TLC, Json
CONSTANTS Levels, MaxEpochs, Windows, Patiences, Tols, Limits, Violations, Rho
VARIABLES cfg, lim, T, pos, step, lam, reported, done
vars == <<cfg, lim, T, pos, step, lam, reported, done>>

Times(a, b) == a * b
Cfgs == [window : Windows, patience : Patiences, num : {1}, den : {4}, relative : {1}, eps : {0}, unit : {1}, tol : Tols, max : MaxEpochs]

Init == /\ cfg \in Cfgs /\ lim \in Limits
        /\ T = <<>> /\ pos = lim.x0 /\ step = 0 /\ lam = <<0>> /\ reported = lim.x0 /\ done = FALSE
\* align the mirrors with the current motor positions, evaluate them, adapt the weight, take a step
Epoch(x, d, s) ==
    /\ ~done
    /\ reported' = lim.x0 + ((step * Range2(lim.lo, lim.hi, lim.x0)) \div 2)
    /\ pos' = reported'
    /\ T' = Append(T, x + Penalty(Times, lam[Len(lam)], Rho, d))
    /\ lam' = Append(lam, Weight(Times, lam[Len(lam)], Rho, d))
    /\ step' = s
    /\ done' = EndsAt(cfg, T', Len(T'))
    /\ UNCHANGED <<cfg, lim>>
Next == \E x \in Levels, d \in Violations, s \in -2..2 : Epoch(x, d, s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WithinLimits == MayBe(lim.lo, lim.hi, lim.x0, pos, 0)
Weighs == \A k \in 1..Len(lam) : lam[k] >= 0
NeverRewards == \A k \in 1..Len(T) : T[k] >= 0
Whole == done => Complete(cfg, T)
Bounded == Len(T) <= cfg.max + 1
FirstEpochIsTheStart == Len(T) = 1 => pos = lim.x0
Ends == <>done
Export == done => PrintT(<<"CASE", ToJson([cfg |-> cfg, T |-> T])>>)
=============================================================================
