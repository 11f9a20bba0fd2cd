------------------------------ MODULE SplitTrace ------------------------------
(* Conformance of train_test_split: every row of every kind of data carries its sample number. *)
EXTENDS Split, TraceBase
VARIABLE l

BadSplit(e) ==
    LET i == e.in
        o == e.out
        te == Sorted(TestSet(i.mask, i.num, i.den))
        tr == Sorted(TrainSet(i.mask, i.num, i.den))
        kinds == {"flux", "focal", "incident", "motor", "target"}
        per == i.mask[CHOOSE h \in Selected(i.mask) : TRUE]
        t == NTest(per, i.num, i.den)
    IN  Broken({ <<"training samples", o.train = tr>>,
                 <<"test samples", o.test = te>>,
                 <<"training data", \A k \in kinds : o.data_train[k] = tr>>,
                 <<"test data", \A k \in kinds : o.data_test[k] = te>>,
                 <<"whole rows", o.whole = 1>>,
                 <<"training mask", o.mask_train = CountIn(i.mask, TrainSet(i.mask, i.num, i.den))>>,
                 <<"test mask", o.mask_test = CountIn(i.mask, TestSet(i.mask, i.num, i.den))>>,
                 <<"numbers", o.n_train = per - t /\ o.n_test = t /\ o.n = per>>,
                 <<"inputs unchanged", o.unchanged = 1>> })

Bad(e) == CASE e.kind = "split" -> BadSplit(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
