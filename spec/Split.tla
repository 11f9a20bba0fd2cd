-------------------------------- MODULE Split --------------------------------
(***************************************************************************)
(* Splitting calibration samples into training and test samples.  The      *)
(* samples lie heliostat after heliostat; every selected heliostat has the *)
(* same number of samples (documented precondition).  The first samples of *)
(* a heliostat train, the last ones test.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SumTo(mask, h) == LET RECURSIVE go(_, _)
                      go(k, a) == IF k > h THEN a ELSE go(k + 1, a + mask[k])
                  IN  go(1, 0)
Total(mask) == SumTo(mask, Len(mask))
Selected(mask) == {h \in 1..Len(mask) : mask[h] > 0}
Uniform(mask) == Selected(mask) # {} /\ \A a \in Selected(mask) : \A b \in Selected(mask) : mask[a] = mask[b]

\* number of test samples of a heliostat with n samples for the test fraction num/den
NTest(n, num, den) == LET q == (n * num) \div den IN IF q < 1 THEN 1 ELSE q

\* heliostat and place within the heliostat of the sample number s (from 0)
Owner(mask, s) == CHOOSE h \in 1..Len(mask) : SumTo(mask, h - 1) <= s /\ s < SumTo(mask, h)
Place(mask, s) == s - SumTo(mask, Owner(mask, s) - 1)
IsTest(mask, s, num, den) == LET n == mask[Owner(mask, s)] IN Place(mask, s) >= n - NTest(n, num, den)

TestSet(mask, num, den) == {s \in 0..Total(mask) - 1 : IsTest(mask, s, num, den)}
TrainSet(mask, num, den) == (0..Total(mask) - 1) \ TestSet(mask, num, den)
Sorted(set) == [k \in 1..Cardinality(set) |-> CHOOSE s \in set : Cardinality({t \in set : t < s}) = k - 1]
CountIn(mask, set) == [h \in 1..Len(mask) |-> Cardinality({s \in set : Owner(mask, s) = h})]
=============================================================================
