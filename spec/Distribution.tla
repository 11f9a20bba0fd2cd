---------------------------- MODULE Distribution -----------------------------
(***************************************************************************)
(* How heliostat groups are dealt to processes and how the samples of one  *)
(* group are dealt to the processes of its subgroup.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ranks(ws) == 0..(ws - 1)
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

IsNested(ws, g) == ws > g
\* The sequence of groups a rank serves
GroupsOf(ws, g, r) ==
    IF IsNested(ws, g) THEN <<r % g>>
    ELSE LET n == (g - r + ws - 1) \div ws       \* groups r, r+ws, r+2ws, ...
         IN  [k \in 1..n |-> r + (k - 1) * ws]
\* The ranks that serve a group, in ascending order
RanksOf(ws, g, grp) ==
    IF IsNested(ws, g)
    THEN LET n == (ws - grp + g - 1) \div g
         IN  [k \in 1..n |-> grp + (k - 1) * g]
    ELSE <<grp % ws>>
SubRank(ws, g, r) == IF IsNested(ws, g) THEN r \div g ELSE 0
SubSize(ws, g, r) == IF IsNested(ws, g) THEN Len(RanksOf(ws, g, r % g)) ELSE 1

\* Samples: heliostat h (0-based) of n has the samples Block(h); rank r gets every n-th block
BlockStart(h, heliostats, samples) == (h * samples) \div heliostats
ActiveRanks(heliostats, ws) == MinOf(heliostats, ws)
SamplesOf(ws, r, heliostats, samples) ==
    LET a == ActiveRanks(heliostats, ws)
        RECURSIVE blocks(_)
        blocks(h) ==
            IF h >= heliostats THEN <<>>
            ELSE [k \in 1..(BlockStart(h + 1, heliostats, samples) - BlockStart(h, heliostats, samples))
                     |-> BlockStart(h, heliostats, samples) + k - 1] \o blocks(h + a)
    IN  IF r < a THEN blocks(r) ELSE <<>>

(************************* design: dealing step by step **********************)
CONSTANTS MaxWS, MaxG, MaxH, MaxPer
VARIABLES ws, g, i, dealt, h, per, j, given
vars == <<ws, g, i, dealt, h, per, j, given>>

Init == /\ ws \in 1..MaxWS /\ g \in 1..MaxG
        /\ h \in 0..MaxH /\ per \in 1..MaxPer
        /\ i = 0 /\ j = 0
        /\ dealt = [r \in Ranks(ws) |-> <<>>]
        /\ given = [r \in Ranks(ws) |-> <<>>]
DealGroup == /\ i < MaxOf(ws, g)
             /\ dealt' = [dealt EXCEPT ![i % ws] = Append(@, i % g)]
             /\ i' = i + 1
             /\ UNCHANGED <<ws, g, h, per, j, given>>
DealHeliostat == /\ i >= MaxOf(ws, g) /\ j < h
                 /\ given' = [given EXCEPT ![j % ActiveRanks(h, ws)] =
                                @ \o [k \in 1..per |-> j * per + k - 1]]
                 /\ j' = j + 1
                 /\ UNCHANGED <<ws, g, i, dealt, h, per>>
Next == DealGroup \/ DealHeliostat
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

GroupsDone == i = MaxOf(ws, g)
SamplesDone == GroupsDone /\ j = h
Rng(q) == {q[k] : k \in 1..Len(q)}
Closed == GroupsDone => \A r \in Ranks(ws) : dealt[r] = GroupsOf(ws, g, r)
Served == GroupsDone => \A grp \in 0..(g - 1) : \E r \in Ranks(ws) : grp \in Rng(dealt[r])
Agree == GroupsDone => \A grp \in 0..(g - 1) : \A r \in Ranks(ws) :
             (grp \in Rng(dealt[r])) <=> (r \in Rng(RanksOf(ws, g, grp)))
OnePerRank == (GroupsDone /\ ws > g) => \A r \in Ranks(ws) : Len(dealt[r]) = 1
OnePerGroup == (GroupsDone /\ ws <= g) => \A grp \in 0..(g - 1) : Len(RanksOf(ws, g, grp)) = 1
Balanced == GroupsDone =>
    /\ \A r, q \in Ranks(ws) : Len(dealt[r]) - Len(dealt[q]) <= 1
    /\ \A x, y \in 0..(g - 1) : Len(RanksOf(ws, g, x)) - Len(RanksOf(ws, g, y)) <= 1
SubRanks == GroupsDone => \A grp \in 0..(g - 1) :
    LET q == RanksOf(ws, g, grp) IN \A k \in 1..Len(q) :
        /\ IsNested(ws, g) => SubRank(ws, g, q[k]) = k - 1
        /\ SubSize(ws, g, q[k]) = (IF IsNested(ws, g) THEN Len(q) ELSE 1)
SamplesClosed == SamplesDone => \A r \in Ranks(ws) : given[r] = SamplesOf(ws, r, h, h * per)
EachSampleOnce == SamplesDone =>
    \A s \in 0..(h * per - 1) :
        Cardinality({r \in Ranks(ws) : s \in Rng(given[r])}) = 1
WholeHeliostats == SamplesDone => \A r \in Ranks(ws) : \A s \in Rng(given[r]) :
    \A k \in 0..(per - 1) : ((s \div per) * per + k) \in Rng(given[r])
Idle == SamplesDone => \A r \in Ranks(ws) : (r >= h) => given[r] = <<>>
SampleBalance == SamplesDone => \A r, q \in Ranks(ws) : Len(given[r]) - Len(given[q]) <= per
Terminates == <>SamplesDone
=============================================================================
