------------------------------ MODULE SplitModel ------------------------------
(***************************************************************************)
(* The index arithmetic of the split (blocks of equal size, the masks      *)
(* reduced by the size of the other side) against the declarative split,   *)
(* for all masks up to a size.  One sample is dealt per step.              *)
(***************************************************************************)
EXTENDS Split, TLC, Json

CONSTANTS MaxH, MaxPer, Fractions

VARIABLES mask, frac, s, train, test
vars == <<mask, frac, s, train, test>>

Masks == {m \in UNION {[1..h -> 0..MaxPer] : h \in 1..MaxH} : Uniform(m)}
Per == mask[CHOOSE h \in Selected(mask) : TRUE]

Init == mask \in Masks /\ frac \in Fractions /\ s = 0 /\ train = <<>> /\ test = <<>>

Deal == /\ s < Total(mask)
        /\ s' = s + 1
        /\ IF s % Per < Per - NTest(Per, frac[1], frac[2])
           THEN train' = Append(train, s) /\ UNCHANGED test
           ELSE test' = Append(test, s) /\ UNCHANGED train
        /\ UNCHANGED <<mask, frac>>
Next == Deal
Spec == Init /\ [][Next]_vars /\ WF_vars(Deal)

Done == s = Total(mask)
SideSizes == LET t == NTest(Per, frac[1], frac[2]) IN
    [train |-> [h \in 1..Len(mask) |-> IF mask[h] > t THEN mask[h] - t ELSE 0],
     test |-> [h \in 1..Len(mask) |-> IF mask[h] > Per - t THEN mask[h] - (Per - t) ELSE 0]]

Correct == Done =>
    /\ train = Sorted(TrainSet(mask, frac[1], frac[2]))
    /\ test = Sorted(TestSet(mask, frac[1], frac[2]))
    /\ SideSizes.train = CountIn(mask, TrainSet(mask, frac[1], frac[2]))
    /\ SideSizes.test = CountIn(mask, TestSet(mask, frac[1], frac[2]))
Partition == Done => {train[k] : k \in 1..Len(train)} \cup {test[k] : k \in 1..Len(test)} = 0..Total(mask) - 1
                     /\ Len(train) + Len(test) = Total(mask)
\* a training sample for every heliostat that has more than one sample and a fraction below one
Useful == Done => \A h \in Selected(mask) : (mask[h] > 1 /\ 2 * frac[1] <= frac[2]) => SideSizes.train[h] >= 1 /\ SideSizes.test[h] >= 1
Ends == <>Done
Export == s = 0 => PrintT(<<"CASE", ToJson([mask |-> mask, num |-> frac[1], den |-> frac[2]])>>)
=============================================================================
