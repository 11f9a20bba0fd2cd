------------------------------ MODULE BatchLoop ------------------------------
(***************************************************************************)
(* The batch loop of the ray tracer.  Each process goes through its        *)
(* samples in batches.  The distortions of a batch come in the order of    *)
(* the sampler, whereas heliostat data, targets and result rows of a batch *)
(* are selected by a mask, i.e. in ascending order; within a batch, planar *)
(* and cylindrical targets are handled apart.  The result rows are         *)
(* returned in the order of the sampler.                                   *)
(*                                                                         *)
(* A row is the triple <<distortions, heliostat data, target>> used for    *)
(* it; correct is the row <<s, s, target of s>> for every sample s.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt

CONSTANTS MaxN, MaxWS, Shuffled   \* Shuffled: also explore samplers that are not ascending

Samples(n) == 0..n - 1
Sorted(set) == SetToSortSeq(set, <)

VARIABLES n, cyl, batch, order, pos, written, result, done
vars == <<n, cyl, batch, order, pos, written, result, done>>

\* samplers: any ascending subset of the samples (what one process has), or any order of it
Orders(m) == IF Shuffled THEN UNION {{q \in SetToSeqs(sub) : TRUE} : sub \in SUBSET Samples(m)}
             ELSE {Sorted(sub) : sub \in SUBSET Samples(m)}

Init == /\ n \in 1..MaxN
        /\ cyl \in SUBSET Samples(n)            \* samples with a cylindrical target
        /\ batch \in 1..MaxN + 1
        /\ order \in Orders(n)
        /\ pos = 0
        /\ written = [s \in Samples(n) |-> <<>>]
        /\ result = <<>>
        /\ done = FALSE

\* one batch
Step ==
    /\ pos < Len(order)
    /\ LET idx == SubSeq(order, pos + 1, IF pos + batch < Len(order) THEN pos + batch ELSE Len(order))
           sel == Sorted({idx[k] : k \in 1..Len(idx)})          \* what the mask selects, in its order
           planar == SelectSeq([k \in 1..Len(idx) |-> k], LAMBDA k : sel[k] \notin cyl)
           other == SelectSeq([k \in 1..Len(idx) |-> k], LAMBDA k : sel[k] \in cyl)
           \* k-th row of the batch: distortions of idx[k], heliostat and target of sel[k]
           row(k) == <<idx[k], sel[k], IF k \in {planar[j] : j \in 1..Len(planar)} THEN "p" ELSE "c">>
       IN  written' = [s \in Samples(n) |->
                         IF \E k \in 1..Len(sel) : sel[k] = s
                         THEN Append(written[s], row(CHOOSE k \in 1..Len(sel) : sel[k] = s))
                         ELSE written[s]]
    /\ pos' = pos + batch
    /\ UNCHANGED <<n, cyl, batch, order, result, done>>
Return == /\ pos >= Len(order) /\ ~done
          /\ result' = [k \in 1..Len(order) |-> written[order[k]]]
          /\ done' = TRUE
          /\ UNCHANGED <<n, cyl, batch, order, pos, written>>
Next == Step \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct(s) == <<s, s, IF s \in cyl THEN "c" ELSE "p">>
EachRowOnce == \A s \in Samples(n) : Len(written[s]) <= 1
OwnData == \A s \in Samples(n) : written[s] # <<>> => written[s][1] = Correct(s)
Complete == done => result = [k \in 1..Len(order) |-> <<Correct(order[k])>>]
OnlyOwnRows == done => \A s \in Samples(n) : (written[s] # <<>>) <=> (\E k \in 1..Len(order) : order[k] = s)
Terminates == <>done
=============================================================================
