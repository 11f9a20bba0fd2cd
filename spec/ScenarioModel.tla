---------------------------- MODULE ScenarioModel ----------------------------
(***************************************************************************)
(* The loader as a state machine: it reads one heliostat after the other,  *)
(* resolves its parts and appends one entry to every column of its group.  *)
(* For every combination of own and prototype parts, every heliostat ends  *)
(* in exactly one group, the columns of a group stay aligned, the writer's *)
(* number of groups is the reader's, and exactly the unacceptable          *)
(* descriptions are rejected.                                              *)
(***************************************************************************)
EXTENDS ScenarioFile, TLC, Json

CONSTANTS NumHel,     \* heliostats
          Kinds       \* what the actuators of a heliostat can be: "proto", "ideal", "linear", "mixed", "single", "unknown"

VARIABLES desc, i, groups, state
vars == <<desc, i, groups, state>>

Act(t) == [type |-> t]
Acts(kind) == CASE kind = "ideal" -> <<Act("ideal"), Act("ideal")>>
                [] kind = "linear" -> <<Act("linear"), Act("linear")>>
                [] kind = "mixed" -> <<Act("linear"), Act("ideal")>>
                [] kind = "single" -> <<Act("linear")>>
                [] kind = "unknown" -> <<Act("hydraulic"), Act("hydraulic")>>

Own(n, s, k, a) == [name |-> n]
    @@ (IF s THEN "surface" :> [tag |-> n, facets |-> <<1>>] ELSE <<>>)
    @@ (IF k THEN "kin" :> [tag |-> n, type |-> "rigid_body"] ELSE <<>>)
    @@ (IF a # "proto" THEN "act" :> Acts(a) ELSE <<>>)
Choices == BOOLEAN \X BOOLEAN \X Kinds
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, c) : q \in Tuples(n - 1), c \in Choices}
Protos == {[surface |-> [tag |-> 0, facets |-> <<1>>], kin |-> [tag |-> 0, type |-> "rigid_body"], act |-> Acts(a)] : a \in {"ideal", "linear"}}

Init == /\ desc \in {[hel |-> [k \in 1..Len(q) |-> Own(k, q[k][1], q[k][2], q[k][3])], proto |-> p, planar |-> <<>>, cyl |-> <<>>, lights |-> <<>>] :
                     q \in UNION {Tuples(n) : n \in 1..NumHel}, p \in Protos}
        /\ i = 1 /\ groups = <<>> /\ state = "reading"

\* a group: key and columns
GroupAt(key) == {g \in 1..Len(groups) : groups[g].key = key}
Entry(h) == [names |-> h.name, surfaces |-> PartOf(h, desc.proto, "surface").tag, kins |-> PartOf(h, desc.proto, "kin").tag]
AddTo(g, e) == [groups EXCEPT ![g].names = Append(@, e.names), ![g].surfaces = Append(@, e.surfaces), ![g].kins = Append(@, e.kins)]

Read == /\ state = "reading" /\ i <= Len(desc.hel)
        /\ LET h == desc.hel[i]
           IN  IF HasPart(h, "act") /\ ~SaneActs(h.act) THEN state' = "rejected" /\ UNCHANGED <<i, groups>>
               ELSE LET key == KeyOf(h, desc.proto)
                        at == GroupAt(key)
                        e == Entry(h)
                    IN  /\ i' = i + 1 /\ UNCHANGED state
                        /\ groups' = IF at = {} THEN Append(groups, [key |-> key, names |-> <<e.names>>, surfaces |-> <<e.surfaces>>, kins |-> <<e.kins>>])
                                     ELSE AddTo(CHOOSE g \in at : TRUE, e)
        /\ UNCHANGED desc
Finish == /\ state = "reading" /\ i > Len(desc.hel) /\ state' = "loaded" /\ UNCHANGED <<desc, i, groups>>

Next == Read \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneGroup == \A k \in 1..(i - 1) :
    Cardinality({<<g, r>> \in (1..Len(groups)) \X (1..Len(desc.hel)) : r <= Len(groups[g].names) /\ groups[g].names[r] = k}) = 1
Aligned == \A g \in 1..Len(groups) : \A r \in 1..Len(groups[g].names) :
    LET h == desc.hel[groups[g].names[r]]
    IN  /\ KeyOf(h, desc.proto) = groups[g].key
        /\ groups[g].surfaces[r] = IF HasPart(h, "surface") THEN h.name ELSE 0
        /\ groups[g].kins[r] = IF HasPart(h, "kin") THEN h.name ELSE 0
        /\ Len(groups[g].surfaces) = Len(groups[g].names) /\ Len(groups[g].kins) = Len(groups[g].names)
WriterCount == Cardinality({<<PartOf(desc.hel[k], desc.proto, "kin").type, PartOf(desc.hel[k], desc.proto, "act")[a].type>> :
                            k \in 1..Len(desc.hel), a \in 1..1})
Counted == state = "loaded" => Len(groups) = WriterCount
Rejects == state # "reading" => ((state = "rejected") <=> ~Acceptable(desc))
Ends == <>(state # "reading")
Export == i = 1 /\ state = "reading" =>
    PrintT(<<"CASE", ToJson([proto |-> desc.proto.act, hel |-> [k \in 1..Len(desc.hel) |->
        [surface |-> HasPart(desc.hel[k], "surface"), kin |-> HasPart(desc.hel[k], "kin"), act |-> IF HasPart(desc.hel[k], "act") THEN desc.hel[k].act ELSE <<>>]]])>>)
=============================================================================
