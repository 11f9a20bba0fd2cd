------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Where the scattering angles come from.  Every process owns a random     *)
(* generator whose state is the seed and the number of draws since it was  *)
(* seeded.  Other parts of the program draw from it, too.  Building a      *)
(* tracer seeds the generator and draws the angles of ALL samples; tracing *)
(* uses the rows of the own samples.  Then all processes agree about the   *)
(* angles of every sample, whatever else they drew, in any order of steps. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Procs,    \* number of processes
          Rows,     \* number of samples
          MaxNoise, \* draws by other parts, per process
          Reseed,   \* TRUE in the package
          DrawAll   \* TRUE in the package: FALSE draws only the own rows

P == 0..Procs - 1
VARIABLES gen, noise, data, used
vars == <<gen, noise, data, used>>

Own(p) == {r \in 1..Rows : r % Procs = p}
None == <<0, 0>>
SeedA == 7

Init == /\ gen \in [P -> {<<s, 0>> : s \in {1, 2}}]
        /\ noise = [p \in P |-> 0]
        /\ data = [p \in P |-> [r \in 1..Rows |-> None]]
        /\ used = [p \in P |-> [r \in {} |-> None]]

Noise(p) == /\ noise[p] < MaxNoise
            /\ gen' = [gen EXCEPT ![p] = <<@[1], @[2] + 1>>]
            /\ noise' = [noise EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<data, used>>

Build(p) == LET start == IF Reseed THEN <<SeedA, 0>> ELSE gen[p]
                rows == IF DrawAll THEN 1..Rows ELSE Own(p)
                before(r) == Cardinality({q \in rows : q < r})
            IN  /\ used[p] = [r \in {} |-> None]
                /\ data' = [data EXCEPT ![p] = [r \in 1..Rows |-> IF r \in rows THEN <<start[1], start[2] + before(r)>> ELSE None]]
                /\ gen' = [gen EXCEPT ![p] = <<start[1], start[2] + Cardinality(rows)>>]
                /\ UNCHANGED <<noise, used>>

Use(p, r) == /\ data[p][r] # None /\ r \in Own(p) /\ r \notin DOMAIN used[p]
             /\ used' = [used EXCEPT ![p] = [q \in DOMAIN used[p] \cup {r} |-> IF q = r THEN data[p][r] ELSE used[p][q]]]
             /\ UNCHANGED <<gen, noise, data>>

Next == \E p \in P : Noise(p) \/ Build(p) \/ \E r \in 1..Rows : Use(p, r)
Spec == Init /\ [][Next]_vars

\* the angles used for a sample depend on the seed and the sample only
Reproducible == \A p \in P : \A r \in DOMAIN used[p] : used[p][r] = <<SeedA, r - 1>>
\* no two samples share angles
Distinct == \A p, q \in P : \A r \in DOMAIN used[p], s \in DOMAIN used[q] : r # s => used[p][r] # used[q][s]
Agreement == \A p, q \in P : (data[p][1] # None /\ data[q][1] # None) => data[p] = data[q]
=============================================================================
