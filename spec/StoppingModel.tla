---------------------------- MODULE StoppingModel ----------------------------
(***************************************************************************)
(* All loss sequences up to a length over a few levels: the counting       *)
(* implementation of early stopping (sliding window, counter reset by an   *)
(* improvement) agrees with the declarative rule at every step, and the    *)
(* plateau schedule respects patience and cooldown.                        *)
(***************************************************************************)
EXTENDS Stopping, TLC, Json

CONSTANTS Levels, MaxLen, Windows, Patiences, Cools

VARIABLES cfg, pcfg, losses, hist, counter, stop, plateau, cutAt
vars == <<cfg, pcfg, losses, hist, counter, stop, plateau, cutAt>>

Cfgs == [window : Windows, patience : Patiences, num : {1}, den : {4}, relative : {0, 1}, eps : {2}, unit : {1}]
PCfgs == [patience : {0, 1}, cooldown : Cools, num : {1}, den : {4}]

Init == /\ cfg \in Cfgs
        /\ pcfg \in PCfgs
        /\ losses = <<>> /\ hist = <<>> /\ counter = 0 /\ stop = FALSE
        /\ plateau = PInit /\ cutAt = <<>>

Step(x) ==
    LET h == IF Len(hist) = cfg.window THEN Append(Tail(hist), x) ELSE Append(hist, x)
        full == Len(h) = cfg.window
        ref == IF cfg.relative = 1 THEN MaxV(AbsV(h[1]), cfg.eps) ELSE cfg.unit
        better == (h[1] - h[Len(h)]) * cfg.den > cfg.num * ref
        c == IF ~full THEN counter ELSE IF better THEN 0 ELSE counter + 1
        p == PStep(pcfg, plateau, x)
    IN  /\ Len(losses) < MaxLen
        /\ losses' = Append(losses, x)
        /\ hist' = h
        /\ counter' = c
        /\ stop' = (full /\ c >= cfg.patience)
        /\ plateau' = p
        /\ cutAt' = IF p.cuts > plateau.cuts THEN Append(cutAt, Len(losses) + 1) ELSE cutAt
        /\ UNCHANGED <<cfg, pcfg>>

Next == \E x \in Levels : Step(x)
Spec == Init /\ [][Next]_vars

Declarative == Len(losses) > 0 => (stop = Stops(cfg, losses, Len(losses)))
NotBeforeFull == stop => Len(losses) >= cfg.window
\* the learning rate is lowered at most once in patience + 1 (and the cooldown) epochs
Spaced == \A k \in 1..Len(cutAt) - 1 : cutAt[k + 1] - cutAt[k] > pcfg.patience + pcfg.cooldown
FirstCut == Len(cutAt) > 0 => cutAt[1] > pcfg.patience + 1
\* no cut while the loss keeps improving
Earned == \A k \in 1..Len(cutAt) : \E j \in MaxV(1, cutAt[k] - pcfg.patience)..cutAt[k] :
            \E i \in 1..j - 1 : losses[j] * pcfg.den >= losses[i] * (pcfg.den - pcfg.num)
Export == Len(losses) = MaxLen => PrintT(<<"CASE", ToJson([cfg |-> cfg, losses |-> losses])>>)
=============================================================================
