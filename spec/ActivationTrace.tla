--------------------------- MODULE ActivationTrace ---------------------------
(***************************************************************************)
(* Conformance: the observations after every step of a history.            *)
(* Observed per step: rejected (0/1); per group the owner of every active  *)
(* row of every kind of data (-1: nobody's) and a number that identifies   *)
(* the content of the active surfaces; whether the stored data of all      *)
(* groups are bitwise those of the beginning; for an alignment directly    *)
(* after an activation the largest difference to a fresh scenario; for a   *)
(* trace without blocking (inp = 0) the largest difference to that of a     *)
(* fresh scenario.                                                         *)
(***************************************************************************)
EXTENDS Activation, TraceBase
VARIABLE l

Kinds == {"points", "normals", "canting", "facets", "control", "positions", "orientations", "translations", "rotations", "motors", "actuators"}
Surface == {"points", "normals"}

BadHistory(e) ==
    LET i == e.in
        o == e.out
        T == 1..Len(i.ops)
        S == [t \in 0..Len(i.ops) |-> Run(i.sizes, i.ops, t)]
        G == 1..Len(i.sizes)
        rej(t) == Rejected(S[t - 1], i.ops[t])
        known(t, g) == S[t][g].mask # NoMask
        owners(t, g, k) == o.steps[t].rows[g][k]
        steps == Len(o.steps) = Len(i.ops)
    IN  IF ~steps THEN {"answers"} ELSE Broken({
          <<"rejected when not the activated mask", \A t \in T : (o.steps[t].rejected = 1) = rej(t)>>,
          <<"every sample has its own heliostat's data",
             \A t \in T : \A g \in G : known(t, g) => \A k \in Kinds \ {"motors"} :
                 (k \in Surface /\ S[t][g].aligned # <<>>) \/ owners(t, g, k) = S[t][g].rows>>,
          <<"motor positions after activation",
             \A t \in T : (i.ops[t].op = "activate") => owners(t, i.ops[t].g, "motors") = S[t][i.ops[t].g].rows>>,
          <<"optimizable actuator parameters",
             \A t \in T : \A g \in G : (known(t, g) /\ i.linear[g] = 1) => o.steps[t].rows[g].learned = S[t][g].rows>>,
          <<"stored data unchanged", \A t \in T : o.steps[t].stored = 1>>,
          <<"other groups unchanged", \A t \in T : \A g \in G :
             (g # i.ops[t].g \/ rej(t)) => o.steps[t].active[g] = (IF t = 1 THEN 0 ELSE o.steps[t - 1].active[g])>>,
          <<"tracing keeps the surfaces", \A t \in T : (i.ops[t].op = "trace") => o.steps[t].surf = o.steps[t - 1].surf>>,
          <<"mask and number", \A t \in T : \A g \in G : known(t, g) =>
             o.steps[t].mask[g] = S[t][g].mask /\ o.steps[t].number[g] = <<Sum(S[t][g].mask), Sum(S[t][g].mask)>>>>,
          <<"aligned as in a fresh scenario", \A t \in T : (i.ops[t].op = "align" /\ ~rej(t) /\ Len(S[t][i.ops[t].g].aligned) = 1)
             => (o.steps[t].fresh >= 0 /\ o.steps[t].fresh <= 20)>>,
          <<"traced as in a fresh scenario", \A t \in T : (i.ops[t].op = "trace" /\ i.ops[t].inp = 0 /\ ~rej(t) /\ Len(S[t][i.ops[t].g].aligned) = 1)
             => (o.steps[t].fresh >= 0 /\ o.steps[t].fresh <= 2000)>> })

Bad(e) == CASE e.kind = "history" -> BadHistory(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
