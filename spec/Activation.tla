------------------------------ MODULE Activation ------------------------------
(***************************************************************************)
(* Histories of activating, aligning and tracing heliostat groups.         *)
(*                                                                         *)
(* The state of a group is the mask it was activated with, how often and   *)
(* by which inputs the active surfaces have been aligned since then, and   *)
(* the rows of its active data, each remembering whose data it holds.      *)
(* The stored data of the heliostats never change.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoMask == <<>>

Sum(mask) == LET RECURSIVE go(_)
                 go(k) == IF k = 0 THEN 0 ELSE go(k - 1) + mask[k]
             IN  go(Len(mask))
\* owner of every row: heliostat h repeated mask[h] times, in order
Rows(mask) == LET RECURSIVE go(_, _)
                  go(h, acc) == IF h > Len(mask) THEN acc ELSE go(h + 1, acc \o [k \in 1..mask[h] |-> h])
              IN  go(1, <<>>)

Fresh == [mask |-> NoMask, rows |-> <<>>, aligned |-> <<>>]

\* op: [op, g, mask, inp]; the empty mask in an activation stands for "all once"
MaskOf(n, op) == IF op.mask = NoMask THEN [h \in 1..n |-> 1] ELSE op.mask

Rejected(st, op) == op.op # "activate" /\ st[op.g].mask # op.mask

Apply(sizes, st, op) ==
    IF Rejected(st, op) THEN st
    ELSE CASE op.op = "activate" -> LET m == MaskOf(sizes[op.g], op)
                                    IN  [st EXCEPT ![op.g] = [mask |-> m, rows |-> Rows(m), aligned |-> <<>>]]
           [] op.op = "align" -> [st EXCEPT ![op.g].aligned = Append(@, op.inp)]
           [] op.op = "trace" -> st

RECURSIVE Run(_, _, _)
Run(sizes, ops, t) == IF t = 0 THEN [g \in 1..Len(sizes) |-> Fresh] ELSE Apply(sizes, Run(sizes, ops, t - 1), ops[t])
=============================================================================
