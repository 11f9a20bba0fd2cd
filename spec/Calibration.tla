----------------------------- MODULE Calibration -----------------------------
(***************************************************************************)
(* Which calibration files a heliostat group takes, and in which order.    *)
(* A mapping is a sequence of entries [h |-> heliostat, files |-> <<ids>>]; *)
(* a heliostat may occur in several entries, its files then follow one     *)
(* another.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1

RECURSIVE FilesOf(_, _)
FilesOf(entries, h) ==
    IF entries = <<>> THEN <<>>
    ELSE (IF entries[1].h = h THEN entries[1].files ELSE <<>>) \o FilesOf(Tail(entries), h)

First(q, limit) == IF limit = None \/ Len(q) <= limit THEN q ELSE SubSeq(q, 1, limit)

RECURSIVE Chosen(_, _, _)
\* the chosen files of a group, heliostat by heliostat in the order of the group
Chosen(names, entries, limit) ==
    IF names = <<>> THEN <<>>
    ELSE First(FilesOf(entries, names[1]), limit) \o Chosen(Tail(names), entries, limit)

Counts(names, entries, limit) == [k \in 1..Len(names) |-> Len(First(FilesOf(entries, names[k]), limit))]
=============================================================================
