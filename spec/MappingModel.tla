----------------------------- MODULE MappingModel -----------------------------
(***************************************************************************)
(* The operational reading of the mapping: one pass over the list that     *)
(* counts and collects per heliostat, one pass over the heliostats that    *)
(* writes out.  It must agree with the declarative one for every list, and *)
(* the groups together must take every entry of a known heliostat once.    *)
(***************************************************************************)
EXTENDS Mapping, TLC, Json

CONSTANTS Groups,   \* sequence of groups, each a sequence of names
          Others,   \* names that belong to no group
          Targets,  \* sequence of target names
          Unknown,  \* target names the tower does not have
          MaxLen

VARIABLES list, g, phase, i, count, bucket, out, res
vars == <<list, g, phase, i, count, bucket, out, res>>

Names == UNION {Elems(Groups[k]) : k \in 1..Len(Groups)} \cup Others
Entries == Names \X (Elems(Targets) \cup Unknown)
NoRes == [mask |-> <<>>, target |-> <<>>, dir |-> <<>>]

RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, e) : q \in Tuples(n - 1), e \in Entries}
\* the direction of an entry is its place in the list
Lists == {[k \in 1..Len(q) |-> <<q[k][1], q[k][2], k>>] : q \in UNION {Tuples(n) : n \in 0..MaxLen}}
Fine(k) == TRUE

Init == /\ list \in Lists /\ g = 1 /\ phase = "check" /\ i = 1
        /\ count = [h \in 1..Len(Groups[1]) |-> 0]
        /\ bucket = [h \in 1..Len(Groups[1]) |-> <<>>]
        /\ out = <<>>
        /\ res = <<>>

Check == /\ phase = "check"
         /\ IF \E k \in 1..Len(list) : list[k][1] \in Elems(Groups[g]) /\ list[k][2] \notin Elems(Targets)
            THEN phase' = "done" /\ out' = Append(out, "rejected") /\ UNCHANGED <<i, res>>
            ELSE phase' = "collect" /\ i' = 1 /\ UNCHANGED <<out, res>>
         /\ UNCHANGED <<list, g, count, bucket>>

Collect == /\ phase = "collect"
           /\ IF i > Len(list) THEN phase' = "write" /\ i' = 1 /\ res' = NoRes /\ UNCHANGED <<count, bucket>>
              ELSE /\ i' = i + 1 /\ UNCHANGED <<phase, res>>
                   /\ IF list[i][1] \in Elems(Groups[g])
                      THEN LET h == Pos(Groups[g], list[i][1])
                           IN  /\ count' = [count EXCEPT ![h] = @ + 1]
                               /\ bucket' = [bucket EXCEPT ![h] = Append(@, <<Pos(Targets, list[i][2]) - 1, list[i][3]>>)]
                      ELSE UNCHANGED <<count, bucket>>
           /\ UNCHANGED <<list, g, out>>

Write == /\ phase = "write"
         /\ IF i > Len(Groups[g])
            THEN phase' = "done" /\ out' = Append(out, "mapped") /\ res' = [res EXCEPT !.mask = count] /\ UNCHANGED i
            ELSE /\ i' = i + 1 /\ UNCHANGED <<phase, out>>
                 /\ res' = [res EXCEPT !.target = @ \o [k \in 1..Len(bucket[i]) |-> bucket[i][k][1]],
                                       !.dir = @ \o [k \in 1..Len(bucket[i]) |-> bucket[i][k][2]]]
         /\ UNCHANGED <<list, g, count, bucket>>

NextGroup == /\ phase = "done" /\ g < Len(Groups)
             /\ g' = g + 1 /\ phase' = "check" /\ i' = 1
             /\ count' = [h \in 1..Len(Groups[g + 1]) |-> 0]
             /\ bucket' = [h \in 1..Len(Groups[g + 1]) |-> <<>>]
             /\ UNCHANGED <<list, out, res>>

Next == Check \/ Collect \/ Write \/ NextGroup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Agrees == phase = "done" =>
    IF Acceptable(Groups[g], Targets, list, Fine)
    THEN out[g] = "mapped" /\ res = Mapped(Groups[g], Targets, list)
    ELSE out[g] = "rejected"

\* over the groups every entry of a known heliostat is mapped once
Complete == (\A k \in 1..Len(list) : list[k][2] \in Elems(Targets)) =>
    LET dirs == [k \in 1..Len(Groups) |-> Elems(Mapped(Groups[k], Targets, list).dir)]
    IN  /\ \A a, b \in 1..Len(Groups) : a # b => dirs[a] \cap dirs[b] = {}
        /\ UNION {dirs[k] : k \in 1..Len(Groups)} = {k \in 1..Len(list) : list[k][1] \notin Others}

Ends == <>(phase = "done" /\ g = Len(Groups))
\* hand every list to the harness
Export == (phase = "check" /\ g = 1) => PrintT(<<"CASE", ToJson(list)>>)
=============================================================================
