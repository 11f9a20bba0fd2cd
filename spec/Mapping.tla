------------------------------- MODULE Mapping -------------------------------
(***************************************************************************)
(* From a list of (heliostat, target, direction) entries to the data of a  *)
(* heliostat group.  An entry is <<heliostat, target, direction>>; a group *)
(* is a sequence of heliostat names; targets are numbered from zero in the *)
(* order of the tower.                                                     *)
(*                                                                         *)
(* Declarative: entries of the group ordered by (heliostat, place in the   *)
(* list).  Operational: filter, count and collect per heliostat, write out.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pos(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x
Elems(q) == {q[k] : k \in 1..Len(q)}

\* list positions that belong to the group
Mine(group, list) == {k \in 1..Len(list) : list[k][1] \in Elems(group)}

\* ---------------------------------------------------------------- declarative
Before(group, list, j, k) ==
    LET a == Pos(group, list[j][1])
        b == Pos(group, list[k][1])
    IN  a < b \/ (a = b /\ j < k)

Order(group, list) ==
    LET m == Mine(group, list)
        place(k) == 1 + Cardinality({j \in m : Before(group, list, j, k)})
    IN  [p \in 1..Cardinality(m) |-> CHOOSE k \in m : place(k) = p]

MaskOf(group, list) == [h \in 1..Len(group) |-> Cardinality({k \in 1..Len(list) : list[k][1] = group[h]})]

\* a mapping result: mask, target numbers, directions
Mapped(group, targets, list) ==
    LET o == Order(group, list)
    IN  [mask |-> MaskOf(group, list),
         target |-> [p \in 1..Len(o) |-> Pos(targets, list[o[p]][2]) - 1],
         dir |-> [p \in 1..Len(o) |-> list[o[p]][3]]]

Acceptable(group, targets, list, Valid(_)) ==
    \A k \in Mine(group, list) : list[k][2] \in Elems(targets) /\ Valid(list[k][3])
=============================================================================
