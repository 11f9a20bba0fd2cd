------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the conformance specifications.                          *)
(*                                                                         *)
(* A trace is a sequence of events recorded from the implementation, one   *)
(* per call (or per step of a behaviour):                                  *)
(*   [id, kind, in, out, err]                                              *)
(* A trace specification gives, for every event, the set of names of the   *)
(* clauses of the specification that the event breaks.  The behaviour      *)
(* consumes every event, reports the broken clauses and continues, so one  *)
(* disagreement does not hide the next; the postcondition demands that     *)
(* every event has been consumed.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(e, clauses) ==
    IF clauses = {} THEN TRUE
    ELSE PrintT(<<"BAD", e.id, ToString(clauses)>>)

\* Clause helper: a clause is a pair <<name, holds>>
Broken(cs) == {c[1] : c \in {d \in cs : ~d[2]}}

Has(r, f) == f \in DOMAIN r
Range(q) == {q[i] : i \in 1..Len(q)}
SumSeq(q) == LET RECURSIVE go(_, _)
                 go(i, acc) == IF i > Len(q) THEN acc ELSE go(i + 1, acc + q[i])
             IN  go(1, 0)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
=============================================================================
