--------------------------- MODULE PlantFilesModel ---------------------------
(***************************************************************************)
(* Reading the heliostats of a plant: files with and without deflectometry *)
(* arrive in any order and are worked off in two queues; every fit borrows *)
(* the same learning-rate scheduler, facet by facet.  Every heliostat must *)
(* come out exactly once, with its own number and the kind of surface its  *)
(* files call for, and the learning rates of a facet must be those of a    *)
(* fit that has the scheduler for itself.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,     \* number of heliostats
          Losses,     \* possible losses
          Epochs,     \* epochs of a fit
          MaxFits     \* at most so many fitted heliostats
P == INSTANCE Stopping

VARIABLES paths, todo, ideal, fitted, out, proto,   \* reading
          job, sched, losses, rates, ph             \* fitting
vars == <<paths, todo, ideal, fitted, out, proto, job, sched, losses, rates, ph>>

Cfg == [patience |-> 0, cooldown |-> 0, num |-> 0, den |-> 1]
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, f) : q \in Tuples(n - 1), f \in {0, 1}}
Ones(q) == Cardinality({k \in 1..Len(q) : q[k] = 1})

Init == /\ paths \in {q \in UNION {Tuples(n) : n \in 1..MaxLen} : Ones(q) <= MaxFits}
        /\ todo = 1 /\ ideal = <<>> /\ fitted = <<>> /\ out = <<>> /\ proto = 0
        /\ job = 1 /\ sched = P!PInit /\ losses = <<>> /\ rates = <<>> /\ ph = "sort"

Sort == /\ ph = "sort"
        /\ IF todo > Len(paths) THEN ph' = "fit" /\ UNCHANGED <<todo, ideal, fitted>>
           ELSE /\ todo' = todo + 1 /\ UNCHANGED ph
                /\ IF paths[todo] = 1 THEN fitted' = Append(fitted, todo) /\ UNCHANGED ideal
                   ELSE ideal' = Append(ideal, todo) /\ UNCHANGED fitted
        /\ UNCHANGED <<paths, out, proto, job, sched, losses, rates>>

\* one epoch of the present fit: some loss, and the scheduler's answer to it; rates[j] are the numbers of cuts of fit j
Epoch == /\ ph = "fit" /\ job <= Len(fitted)
         /\ \E x \in Losses :
              LET s == P!PStep(Cfg, sched, x)
                  mine == Append(losses, x)
                  r == IF Len(rates) < job THEN Append(rates, <<s.cuts>>) ELSE [rates EXCEPT ![job] = Append(@, s.cuts)]
              IN  /\ rates' = r
                  \* the tolerance is zero
                  /\ IF Len(mine) = Epochs \/ x = 0
                     THEN job' = job + 1 /\ sched' = P!PInit /\ losses' = <<>>
                     ELSE UNCHANGED job /\ sched' = s /\ losses' = mine
         /\ UNCHANGED <<paths, todo, ideal, fitted, out, proto, ph>>

Combine == /\ ph = "fit" /\ job > Len(fitted)
           /\ LET all == ideal \o fitted
              IN  /\ out' = [k \in 1..Len(all) |-> [h |-> all[k], id |-> k - 1]]
                  /\ proto' = IF ideal # <<>> THEN ideal[Len(ideal)] ELSE fitted[Len(fitted)]
           /\ ph' = "done"
           /\ UNCHANGED <<paths, todo, ideal, fitted, job, sched, losses, rates>>

Next == Sort \/ Epoch \/ Combine
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ph = "done"
Once == Done => /\ Len(out) = Len(paths)
                /\ {out[k].h : k \in 1..Len(out)} = 1..Len(paths)
                /\ Cardinality({out[k].id : k \in 1..Len(out)}) = Len(out)
Kinds == /\ \A k \in 1..Len(ideal) : paths[ideal[k]] = 0
         /\ \A k \in 1..Len(fitted) : paths[fitted[k]] = 1
Prototype == Done => proto \in 1..Len(paths) /\ (ideal # <<>> => paths[proto] = 0)
\* whatever was fitted before, a fit starts with the full rate, and its rate falls only by its own losses
Alone == /\ (losses = <<>> => sched = P!PInit)
         /\ \A j \in 1..Len(rates) : rates[j][1] = 0
         /\ sched = P!PRun(Cfg, losses, Len(losses))
Ends == <>Done
Export == (ph = "sort" /\ todo = 1) => PrintT(<<"CASE", ToJson([paths |-> paths])>>)
=============================================================================
