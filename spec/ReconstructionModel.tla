------------------------- MODULE ReconstructionModel -------------------------
(***************************************************************************)
(* Reconstruction of all groups, one after the other, as a state machine:  *)
(* in every epoch the loss takes any value, the parameters of the trained  *)
(* heliostats take a step, and the loop goes on or ends.                   *)
(***************************************************************************)
EXTENDS Reconstruction, TLC, Json

CONSTANTS Shapes,     \* sets of data[g][h] to explore
          Levels, MaxEpochs, Windows, Patiences, Tols

VARIABLES cfg, data, g, T, runs, stage, version, final
vars == <<cfg, data, g, T, runs, stage, version, final>>

Cfgs == [window : Windows, patience : Patiences, num : {1}, den : {4}, relative : {1}, eps : {0}, unit : {1}, tol : Tols, max : MaxEpochs]

Init == /\ cfg \in Cfgs /\ data \in Shapes
        /\ g = 1 /\ T = <<>> /\ runs = <<>> /\ stage = "group"
        /\ version = [x \in 1..Len(data) |-> [h \in 1..Len(data[x]) |-> 0]]
        /\ final = [x \in 1..Len(data) |-> [h \in 1..Len(data[x]) |-> -1]]

\* groups without data are skipped
Skip == /\ stage = "group" /\ g <= Len(data) /\ ~HasData(data, g)
        /\ g' = g + 1 /\ UNCHANGED <<cfg, data, T, runs, stage, version, final>>
Enter == /\ stage = "group" /\ g <= Len(data) /\ HasData(data, g)
         /\ stage' = "epoch" /\ T' = <<>> /\ UNCHANGED <<cfg, data, g, runs, version, final>>
\* compute the loss, update the learned parameters, ask the early stopper
Epoch(x) == /\ stage = "epoch"
            /\ T' = Append(T, x)
            /\ version' = [version EXCEPT ![g] = [h \in 1..Len(data[g]) |-> @[h] + data[g][h]]]
            /\ LET k == Len(T) + 1
                   stop == Stops(cfg, T', k)
                   \* the loop condition, evaluated before the next epoch
                   goes == x > cfg.tol /\ k <= cfg.max
               IN  stage' = IF stop \/ ~goes THEN "close" ELSE "epoch"
            /\ UNCHANGED <<cfg, data, g, runs, final>>
Close == /\ stage = "close"
         /\ runs' = Append(runs, [g |-> g, T |-> T, hist |-> History(cfg, T)])
         /\ final' = [final EXCEPT ![g] = [h \in 1..Len(data[g]) |-> IF data[g][h] = 1 THEN T[Len(T)] ELSE @[h]]]
         /\ g' = g + 1 /\ stage' = "group" /\ UNCHANGED <<cfg, data, T, version>>
Finish == stage = "group" /\ g > Len(data) /\ stage' = "done" /\ UNCHANGED <<cfg, data, g, T, runs, version, final>>

Next == Skip \/ Enter \/ (\E x \in Levels : Epoch(x)) \/ Close \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the operational loop is the declarative one
Declarative == \A k \in 1..Len(runs) : Complete(cfg, runs[k].T)
Bounded == Len(T) <= cfg.max + 1
Lengths == \A k \in 1..Len(runs) : Len(runs[k].hist) \in {Len(runs[k].T), Len(runs[k].T) - 1}
Order == stage = "done" => [k \in 1..Len(runs) |-> runs[k].g] = Trained(data)
\* only heliostats with data change, and only they have a final loss
Frame == \A x \in 1..Len(data) : \A h \in 1..Len(data[x]) : data[x][h] = 0 => version[x][h] = 0 /\ final[x][h] = -1
Reported == stage = "done" => \A x \in 1..Len(data) : \A h \in 1..Len(data[x]) : data[x][h] = 1 => final[x][h] # -1 /\ version[x][h] > 0
Ends == <>(stage = "done")
Export == stage = "done" => PrintT(<<"CASE", ToJson([cfg |-> cfg, data |-> data, T |-> [k \in 1..Len(runs) |-> runs[k].T]])>>)
=============================================================================
