------------------------- MODULE DistributionTrace ---------------------------
EXTENDS TraceBase
D == INSTANCE Distribution WITH MaxWS <- 1, MaxG <- 1, MaxH <- 0, MaxPer <- 1,
        ws <- 1, g <- 1, i <- 0, dealt <- <<>>, h <- 0, per <- 1, j <- 0, given <- <<>>

\* Sequences over ranks are recorded as tuples: rank r is element r+1
Distribute(e) ==
    LET ws == e.in.ws
        g == e.in.g
        m == e.out.map
    IN  Broken({
        <<"every_rank_listed", Len(m) = ws>>,
        <<"nested_flag", e.out.nested = D!IsNested(ws, g)>>,
        <<"every_group_served", \A grp \in 0..(g - 1) : \E k \in 1..Len(m) : grp \in Range(m[k])>>,
        <<"only_existing_groups", \A k \in 1..Len(m) : Range(m[k]) \subseteq 0..(g - 1)>>,
        <<"round_robin", \A k \in 1..Len(m) : m[k] = D!GroupsOf(ws, g, k - 1)>>})

\* What one rank learns when it sets up the environment
Setup(e) ==
    LET ws == e.in.ws
        g == e.in.g
        r == e.in.rank
        o == e.out
    IN  Broken({
        <<"groups_of_rank", o.groups = D!GroupsOf(ws, g, r)>>,
        <<"ranks_of_groups", /\ Len(o.ranks) = g
                             /\ \A grp \in 1..g : o.ranks[grp] = D!RanksOf(ws, g, grp - 1)>>,
        <<"rank_in_group", o.subrank = D!SubRank(ws, g, r)>>,
        <<"size_of_group", o.subsize = D!SubSize(ws, g, r)>>,
        <<"own_subgroup", o.own = (IF D!IsNested(ws, g) THEN D!RanksOf(ws, g, r % g) ELSE <<>>)>>,
        \* every rank creates the same subgroups in the same order: creating one is a collective call
        <<"same_subgroups_on_every_rank", o.created = e.in.created0>>})

\* A collective over the subgroup of a real process reaches exactly the ranks of the subgroup
Collective(e) ==
    LET ws == e.in.ws
        g == e.in.g
    IN  Broken(
        {<<"all_ranks_report", Len(e.out.rows) = ws>>} \cup
        UNION {LET o == e.out.rows[k] r == k - 1 IN {
            <<"rank", o.rank = r /\ o.ws = ws /\ o.dist = (ws > 1)>>,
            <<"nested_flag", o.nested = D!IsNested(ws, g)>>,
            <<"groups_of_rank", o.groups = D!GroupsOf(ws, g, r)>>,
            <<"ranks_of_groups", \A grp \in 1..g : o.ranks[grp] = D!RanksOf(ws, g, grp - 1)>>,
            <<"rank_in_group", o.subrank = D!SubRank(ws, g, r) /\ o.subsize = D!SubSize(ws, g, r)>>,
            <<"collective_members", o.sum = (IF D!IsNested(ws, g)
                 THEN SumSeq([x \in 1..D!SubSize(ws, g, r) |-> 1 + D!RanksOf(ws, g, r % g)[x]]) ELSE 0)>>,
            <<"torn_down", o.closed>>}
          : k \in 1..Len(e.out.rows)})

Sampler(e) ==
    LET ws == e.in.ws
        hs == e.in.heliostats
        n == e.in.samples
        m == e.out.rows
        all == [k \in 1..ws |-> Range(m[k])]
    IN  Broken({
        <<"disjoint", \A a, b \in 1..ws : a # b => all[a] \cap all[b] = {}>>,
        <<"no_repetition", \A k \in 1..ws : Cardinality(all[k]) = Len(m[k])>>,
        <<"cover", UNION {all[k] : k \in 1..ws} = (IF hs = 0 THEN {} ELSE 0..(n - 1))>>,
        <<"ascending", \A k \in 1..ws : \A x \in 1..(Len(m[k]) - 1) : m[k][x] < m[k][x + 1]>>,
        <<"idle_ranks", \A k \in 1..ws : (k > hs) => m[k] = <<>> >>,
        <<"whole_heliostats", (hs > 0 /\ n % hs = 0) => \A k \in 1..ws : \A s \in all[k] :
                LET p == n \div hs IN \A x \in 0..(p - 1) : ((s \div p) * p + x) \in all[k]>>,
        <<"round_robin", \A k \in 1..ws : m[k] = D!SamplesOf(ws, k - 1, hs, n)>>,
        <<"iteration_repeats", e.out.again = m>>})

\* The batches a tracer goes through: in order, complete, none larger than requested
Loader(e) ==
    LET ws == e.in.ws
        hs == e.in.heliostats
        n == e.in.samples
        mine == D!SamplesOf(ws, e.in.rank, hs, n)
        RECURSIVE cat(_)
        cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o cat(Tail(q))
    IN  Broken({
        <<"batches_in_order", cat(e.out.batches) = mine>>,
        <<"batch_size", \A k \in 1..Len(e.out.batches) :
              Len(e.out.batches[k]) <= e.in.batch /\ (k < Len(e.out.batches) => Len(e.out.batches[k]) = e.in.batch)>>,
        <<"indices_of_rank", e.out.indices = mine>>})

Bad(e) == CASE e.kind = "distribute" -> Distribute(e)
            [] e.kind = "setup" -> Setup(e)
            [] e.kind = "collective" -> Collective(e)
            [] e.kind = "sampler" -> Sampler(e)
            [] e.kind = "loader" -> Loader(e)

VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ Report(Trace[l], Bad(Trace[l]))
         /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
