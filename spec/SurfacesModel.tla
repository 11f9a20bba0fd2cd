--------------------------- MODULE SurfacesModel ---------------------------
(* All histories of bending, updating and activating. *)
EXTENDS Surfaces, FiniteSets, TLC, Json
CONSTANTS Sizes, Versions, MaxOps
VARIABLES st, ops
vars == <<st, ops>>

Bends == {[op |-> "bend", g |-> g, h |-> h, v |-> v] : g \in 1..Len(Sizes), h \in 1..2, v \in 1..Versions}
Possible == {o \in Bends : o.h <= Sizes[o.g]} \cup {[op |-> "update"]} \cup {[op |-> "activate", g |-> g] : g \in 1..Len(Sizes)}

Init == st = Fresh(Sizes) /\ ops = <<>>
Do(o) == Len(ops) < MaxOps /\ st' = After(st, o) /\ ops' = Append(ops, o)
Next == \E o \in Possible : Do(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Last == ops[Len(ops)]
UpToDate == ops # <<>> /\ Last.op = "update" => st.shown = st.control
Replayed == st = AfterAll(Fresh(Sizes), ops)
Repeats == After(After(st, [op |-> "update"]), [op |-> "update"]) = After(st, [op |-> "update"])
\* a shown surface has always been one of the control points
Known == \A g \in 1..Len(Sizes) : \A h \in 1..Sizes[g] :
            st.shown[g][h] = 0 \/ \E k \in 1..Len(ops) : ops[k].op = "bend" /\ ops[k].g = g /\ ops[k].h = h /\ ops[k].v = st.shown[g][h]
OnlyUpdates == [][ops'[Len(ops')].op # "update" => st'.shown = st.shown]_vars
OnlyBends == [][\A g \in 1..Len(Sizes) : \A h \in 1..Sizes[g] :
                  st'.control[g][h] # st.control[g][h] => LET o == ops'[Len(ops')] IN o.op = "bend" /\ o.g = g /\ o.h = h]_vars
Ends == <>(Len(ops) = MaxOps)
Export == Len(ops) = MaxOps => PrintT(<<"CASE", ToJson(ops)>>)

(* The lock keeps outlines: moving inner points and heights only never moves the outline. *)
LockKeeps == \A nu, nv \in 1..4 : \A u \in 1..nu, v \in 1..nv :
               LET d == Locked(<<3, -4, 5>>, u, v, nu, nv) IN d[3] = 5 /\ (Outer(u, v, nu, nv) <=> d # <<3, -4, 5>>)
=============================================================================
