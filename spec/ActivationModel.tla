--------------------------- MODULE ActivationModel ---------------------------
(***************************************************************************)
(* All histories up to a length; the histories are replayed on the code.   *)
(***************************************************************************)
EXTENDS Activation, TLC, Json

CONSTANTS Masks,    \* sequence over groups of sets of masks
          Inputs,   \* numbers of the alignment inputs
          MaxLen

Sizes == [g \in 1..Len(Masks) |-> Len(CHOOSE m \in Masks[g] : TRUE)]

VARIABLES ops, st
vars == <<ops, st>>

Ops == UNION {
    {[op |-> "activate", g |-> g, mask |-> m, inp |-> 0] : m \in Masks[g] \cup {NoMask}}
    \cup {[op |-> "align", g |-> g, mask |-> m, inp |-> k] : m \in Masks[g], k \in Inputs}
    \cup {[op |-> "trace", g |-> g, mask |-> m, inp |-> 0] : m \in Masks[g]} : g \in 1..Len(Masks)}

Init == ops = <<>> /\ st = [g \in 1..Len(Masks) |-> Fresh]
Do(op) == Len(ops) < MaxLen /\ ops' = Append(ops, op) /\ st' = Apply(Sizes, st, op)
\* before the first activation there is nothing to align or trace
Next == \E op \in Ops : (op.op = "activate" \/ st[op.g].mask # NoMask) /\ Do(op)
Spec == Init /\ [][Next]_vars

RowsOfMask == \A g \in 1..Len(Masks) : st[g].mask # NoMask =>
    /\ Len(st[g].rows) = Sum(st[g].mask)
    /\ \A h \in 1..Sizes[g] : Cardinality({p \in 1..Len(st[g].rows) : st[g].rows[p] = h}) = st[g].mask[h]
    /\ \A p \in 1..Len(st[g].rows) - 1 : st[g].rows[p] <= st[g].rows[p + 1]
\* the state depends only on the last activation of the group and the alignments after it
LastCounts == \A g \in 1..Len(Masks) :
    LET acts == {t \in 1..Len(ops) : ops[t].g = g /\ ops[t].op = "activate"}
        last == CHOOSE t \in acts : \A u \in acts : u <= t
        after == {t \in (IF acts = {} THEN 1 ELSE last)..Len(ops) : ops[t].g = g /\ ops[t].op = "align" /\ ops[t].mask = st[g].mask}
    IN  IF acts = {} THEN st[g] = Fresh
        ELSE /\ st[g].mask = MaskOf(Sizes[g], ops[last])
             /\ Len(st[g].aligned) = Cardinality(after)
Export == Len(ops) = MaxLen => PrintT(<<"CASE", ToJson(ops)>>)
\* other groups are not touched
Local == [][\A g \in 1..Len(Masks) : (ops' # ops /\ ops'[Len(ops')].g # g) => st'[g] = st[g]]_vars
=============================================================================
