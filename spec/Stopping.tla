------------------------------- MODULE Stopping -------------------------------
(***************************************************************************)
(* Early stopping and the plateau schedule as state machines over the      *)
(* sequence of losses, and their declarative meaning.                      *)
(*                                                                         *)
(* Losses are integers; thresholds are fractions num/den so that all       *)
(* comparisons are exact.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsV(x) == IF x < 0 THEN -x ELSE x
MaxV(a, b) == IF a > b THEN a ELSE b

(******************************* early stopping ***************************)
(* cfg: window, patience, num, den (minimum improvement), relative (0/1),  *)
(* eps (smallest reference for relative improvements, in loss units)       *)

\* does the loss at time t (window full) improve sufficiently on the oldest loss of the window?
Improves(cfg, losses, t) ==
    LET a == losses[t - cfg.window + 1]
        b == losses[t]
        ref == IF cfg.relative = 1 THEN MaxV(AbsV(a), cfg.eps) ELSE cfg.unit
    IN  (a - b) * cfg.den > cfg.num * ref

\* declarative: a full window, and the last `patience` checks all failed
Stops(cfg, losses, t) ==
    /\ t >= cfg.window + cfg.patience - 1
    /\ t >= cfg.window
    /\ \A j \in MaxV(cfg.window, t - cfg.patience + 1)..t : ~Improves(cfg, losses, j)

(********************************* plateau ********************************)
(* cfg: patience, cooldown, num/den (relative threshold)                   *)
PInit == [best |-> 0, any |-> FALSE, bad |-> 0, cool |-> 0, cuts |-> 0]
Better(cfg, st, x) == ~st.any \/ x * cfg.den < st.best * (cfg.den - cfg.num)

PStep(cfg, st, x) ==
    LET s1 == IF Better(cfg, st, x) THEN [st EXCEPT !.best = x, !.any = TRUE, !.bad = 0]
              ELSE [st EXCEPT !.bad = @ + 1]
        s2 == IF s1.cool > 0 THEN [s1 EXCEPT !.cool = @ - 1, !.bad = 0] ELSE s1
    IN  IF s2.bad > cfg.patience THEN [s2 EXCEPT !.cuts = @ + 1, !.cool = cfg.cooldown, !.bad = 0] ELSE s2

RECURSIVE PRun(_, _, _)
PRun(cfg, losses, t) == IF t = 0 THEN PInit ELSE PStep(cfg, PRun(cfg, losses, t - 1), losses[t])
=============================================================================
