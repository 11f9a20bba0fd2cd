-------------------------- MODULE CalibrationModel --------------------------
(***************************************************************************)
(* Two readers work on the same mapping independently: one takes the       *)
(* measurement properties entry by entry and sorts them into the order of  *)
(* the group afterwards, one looks up the images heliostat by heliostat.   *)
(* Whatever the interleaving, they must end with the same files in the     *)
(* same order, and that order is the one the specification defines.        *)
(***************************************************************************)
EXTENDS Calibration, TLC, Json

CONSTANTS Group,    \* sequence of heliostat names
          Foreign,  \* names of heliostats of other groups
          MaxLen, MaxFiles, Limits

VARIABLES entries, limit,
          pi, queue, rows, ph,    \* the reader of the properties
          gi, images              \* the reader of the images
vars == <<entries, limit, pi, queue, rows, ph, gi, images>>

Elems(q) == {q[k] : k \in 1..Len(q)}
Names == Elems(Group) \cup Foreign

RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, e) : q \in Tuples(n - 1), e \in Names \X (0..MaxFiles)}
\* file f of entry k is 10 * k + f
Mapping(q) == [k \in 1..Len(q) |-> [h |-> q[k][1], files |-> [f \in 1..q[k][2] |-> 10 * k + f]]]

Init == /\ entries \in {Mapping(q) : q \in UNION {Tuples(n) : n \in 0..MaxLen}}
        /\ limit \in Limits
        /\ pi = 1 /\ queue = [h \in Elems(Group) |-> <<>>] /\ rows = <<>> /\ ph = "collect"
        /\ gi = 1 /\ images = <<>>

Collect == /\ ph = "collect"
           /\ IF pi > Len(entries) THEN ph' = "write" /\ pi' = 1 /\ UNCHANGED queue
              ELSE LET e == entries[pi]
                   IN  /\ pi' = pi + 1 /\ UNCHANGED ph
                       /\ IF e.h \in Elems(Group) THEN queue' = [queue EXCEPT ![e.h] = First(@ \o e.files, limit)]
                          ELSE UNCHANGED queue
           /\ UNCHANGED <<entries, limit, rows, gi, images>>

Write == /\ ph = "write"
         /\ IF pi > Len(Group) THEN ph' = "done" /\ UNCHANGED <<pi, rows>>
            ELSE pi' = pi + 1 /\ rows' = rows \o queue[Group[pi]] /\ UNCHANGED ph
         /\ UNCHANGED <<entries, limit, queue, gi, images>>

Image == /\ gi <= Len(Group)
         /\ gi' = gi + 1
         /\ images' = images \o First(FilesOf(entries, Group[gi]), limit)
         /\ UNCHANGED <<entries, limit, pi, queue, rows, ph>>

Next == Collect \/ Write \/ Image
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ph = "done" /\ gi > Len(Group)
Agrees == Done => rows = images /\ rows = Chosen(Group, entries, limit)
Limited == limit # None => \A h \in Elems(Group) : Len(queue[h]) <= limit
Counted == Done => [k \in 1..Len(Group) |-> Len(queue[Group[k]])] = Counts(Group, entries, limit)
\* nothing of other groups, nothing twice
Own == /\ \A k \in 1..Len(rows) : \E x \in 1..Len(entries) : entries[x].h \in Elems(Group) /\ rows[k] \in Elems(entries[x].files)
       /\ Cardinality(Elems(rows)) = Len(rows)
Ends == <>Done
Export == (pi = 1 /\ gi = 1 /\ ph = "collect") => PrintT(<<"CASE", ToJson([entries |-> entries, limit |-> limit])>>)
=============================================================================
