-------------------------- MODULE CollectivesModel --------------------------
(***************************************************************************)
(* Training by several processes.  Processes are dealt to groups (every    *)
(* group has its own parameters; Scope = "group") or work on one thing     *)
(* together (Scope = "all"); in every epoch they exchange their losses and *)
(* then their gradients, and decide from what they received.  A process    *)
(* may have nothing to work on.  At last all exchange their results.       *)
(*                                                                         *)
(* logs keeps the operations of every process, so that the declarative     *)
(* definition (Collectives.tla) is checked with the steps.                 *)
(***************************************************************************)
EXTENDS Collectives, TLC
CONSTANTS MaxWS, MaxG, Levels, Tols, MaxEpochs, Scope
D == INSTANCE Distribution WITH MaxWS <- 1, MaxG <- 1, MaxH <- 0, MaxPer <- 1, ws <- 0, g <- 0, i <- 0, dealt <- 0, h <- 0, per <- 0, j <- 0, given <- 0

VARIABLES ws, g, tol, max, idle, todo, pc, ep, seen, param, know, logs
vars == <<ws, g, tol, max, idle, todo, pc, ep, seen, param, know, logs>>
fixed == <<ws, g, tol, max, idle>>
R == 0..(ws - 1)
None == -1

Everyone == [k \in 1..ws |-> k - 1]
\* the processes that work on what r works on next
Peers(r) == IF Scope = "all" THEN Everyone ELSE D!RanksOf(ws, g, todo[r][1])

Init == /\ ws \in 1..MaxWS /\ g \in 1..MaxG /\ tol \in Tols /\ max \in MaxEpochs
        /\ idle \in {x \in SUBSET R : 0 \notin x /\ (Scope = "group" => ws > g) /\ \A k \in 0..(g - 1) : \E r \in R \ x : k \in {D!GroupsOf(ws, g, r)[n] : n \in 1..Len(D!GroupsOf(ws, g, r))}} \cup {{}}
        /\ todo = [r \in R |-> IF Scope = "all" THEN <<0>> ELSE D!GroupsOf(ws, g, r)]
        /\ pc = [r \in R |-> IF todo[r] = <<>> THEN "result" ELSE "work"]
        /\ ep = [r \in R |-> 0]
        /\ seen = [r \in R |-> None]
        /\ param = [r \in R |-> [k \in 0..(g - 1) |-> <<>>]]
        /\ know = [r \in R |-> <<>>]
        /\ logs = [r \in R |-> <<>>]

\* trace the own rays and compute the own loss
Work(r) == /\ pc[r] = "work"
           /\ \E x \in (IF r \in idle THEN {None} ELSE Levels) : seen' = [seen EXCEPT ![r] = x]
           /\ pc' = [pc EXCEPT ![r] = "loss"]
           /\ UNCHANGED <<fixed, todo, ep, param, know, logs>>

At(q, where) == \A m \in Members(q) : pc[m] = where /\ (where # "result" => Peers(m) = q)
Log(q, what) == logs' = [r \in R |-> IF r \in Members(q) THEN Append(logs[r], [op |-> what, who |-> q]) ELSE logs[r]]
RECURSIVE SumOver(_)
SumOver(s) == IF s = {} THEN 0 ELSE LET r == CHOOSE r \in s : TRUE IN seen[r] + SumOver(s \ {r})

\* the mean over all heliostats (here: processes) that count
ShareLoss(r) ==
    LET q == Peers(r)
        busy == {m \in Members(q) : m \notin idle}
    IN  /\ pc[r] = "loss" /\ At(q, "loss")
        /\ seen' = [m \in R |-> IF m \in Members(q) THEN SumOver(busy) \div Cardinality(busy) ELSE seen[m]]
        /\ pc' = [m \in R |-> IF m \in Members(q) THEN "gradient" ELSE pc[m]]
        /\ Log(q, "loss")
        /\ UNCHANGED <<fixed, todo, ep, param, know>>

Over(r) == seen[r] <= tol \/ ep[r] = max
ShareGradient(r) ==
    LET q == Peers(r)
        x == todo[r][1]
        step == {m \in Members(q) : m \notin idle}
    IN  /\ pc[r] = "gradient" /\ At(q, "gradient")
        /\ param' = [m \in R |-> IF m \in Members(q) THEN [param[m] EXCEPT ![x] = Append(@, step)] ELSE param[m]]
        /\ todo' = [m \in R |-> IF m \in Members(q) /\ Over(m) THEN Tail(todo[m]) ELSE todo[m]]
        /\ ep' = [m \in R |-> IF m \in Members(q) THEN IF Over(m) THEN 0 ELSE ep[m] + 1 ELSE ep[m]]
        /\ pc' = [m \in R |-> IF m \in Members(q) THEN IF Over(m) /\ todo'[m] = <<>> THEN "result" ELSE "work" ELSE pc[m]]
        /\ Log(q, "gradient")
        /\ UNCHANGED <<fixed, seen, know>>

Source(k) == IF Scope = "all" THEN 0 ELSE D!RanksOf(ws, g, k)[1]
\* the results of one group after the other, from the first process that worked on it
ShareResult == /\ \A r \in R : pc[r] = "result"
               /\ LET k == Len(know[0]) IN
                  /\ know' = [r \in R |-> Append(know[r], param[Source(k)][IF Scope = "all" THEN 0 ELSE k])]
                  /\ pc' = [r \in R |-> IF k = g - 1 THEN "done" ELSE "result"]
               /\ Log(Everyone, "result")
               /\ UNCHANGED <<fixed, todo, ep, seen, param>>

Next == ShareResult \/ \E r \in R : Work(r) \/ ShareLoss(r) \/ ShareGradient(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == \A r \in R : pc[r] = "done"
Ends == <>AllDone
\* those who work together never disagree on what they learned
Agree == \A r, m \in R : \A k \in 0..(g - 1) : Scope = "group" /\ m \in Members(D!RanksOf(ws, g, k)) /\ r \in Members(D!RanksOf(ws, g, k)) => param[r][k] = param[m][k]
AgreeAll == Scope = "all" => \A r, m \in R : param[r] = param[m]
\* at last everybody knows everything, and something was learned of everything
KnowAll == AllDone => \A r \in R : know[r] = know[0] /\ Len(know[r]) = g /\ \A k \in 1..g : Len(know[r][k]) \in 1..(max + 1)
\* the declarative definition holds of every prefix of the run, hence of the run
Sound == Completes(logs) /\ Own(logs) /\ Alike(logs)
=============================================================================
