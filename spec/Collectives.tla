----------------------------- MODULE Collectives -----------------------------
(***************************************************************************)
(* Collective operations of several processes.                             *)
(*                                                                         *)
(* logs[r]: the operations process r takes part in, in order; an operation *)
(* is a record whose field who is the (ascending) sequence of the          *)
(* processes that belong together and whose other fields say what is       *)
(* exchanged.  An operation happens when all of them have reached the same *)
(* one; a process that comes to an operation waits until it happens.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Members(q) == {q[k] : k \in 1..Len(q)}
\* the processes that are ready to continue, with nothing but their next operations known
Ready(logs, at) ==
    {r \in DOMAIN logs : /\ at[r] <= Len(logs[r])
                         /\ LET o == logs[r][at[r]] IN
                            \A m \in Members(o.who) : m \in DOMAIN logs /\ at[m] <= Len(logs[m]) /\ logs[m][at[m]] = o}
RECURSIVE Furthest(_, _)
Furthest(logs, at) ==
    LET ready == Ready(logs, at)
    IN  IF ready = {} THEN at ELSE Furthest(logs, [r \in DOMAIN logs |-> IF r \in ready THEN at[r] + 1 ELSE at[r]])
\* where every process gets to
Reached(logs) == Furthest(logs, [r \in DOMAIN logs |-> 1])
Completes(logs) == LET at == Reached(logs) IN \A r \in DOMAIN logs : at[r] = Len(logs[r]) + 1

\* every process belongs to the operations it takes part in
Own(logs) == \A r \in DOMAIN logs : \A k \in 1..Len(logs[r]) : r \in Members(logs[r][k].who)
\* what the members of a set of processes do together
Together(log, who) == SelectSeq(log, LAMBDA o : o.who = who)
\* necessary for completing
Alike(logs) == \A r \in DOMAIN logs : \A k \in 1..Len(logs[r]) : \A m \in Members(logs[r][k].who) :
                   Together(logs[r], logs[r][k].who) = Together(logs[m], logs[r][k].who)
=============================================================================
