-------------------------- MODULE CollectivesTrace --------------------------
(***************************************************************************)
(* Conformance of optimizations by several processes.                      *)
(* in: ws, g, method; out: for every process its collective operations     *)
(* (also of those that did not finish), whether it ended, its result, and  *)
(* the result of a single process.                                         *)
(***************************************************************************)
EXTENDS Collectives, Fix, TraceBase
D == INSTANCE Distribution WITH MaxWS <- 1, MaxG <- 1, MaxH <- 0, MaxPer <- 1,
        ws <- 1, g <- 1, i <- 0, dealt <- <<>>, h <- 0, per <- 1, j <- 0, given <- <<>>
VARIABLE l

Near(a, b, t) == Close(a, b, t + Abs(b) \div 20000)
NearSeq(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], t)
NearSeqs(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearSeq(a[k], b[k], t)

\* processes are numbered from 0, sequences from 1
Logs(e) == [r \in 0..(e.in.ws - 1) |-> e.out.logs[r + 1]]
Place(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x

BadRun(e) ==
    LET i == e.in
        o == e.out
        W == 0..(i.ws - 1)
        res(r) == o.results[r + 1]
        logs == Logs(e)
        ended == \A r \in W : o.ended[r + 1] = 1
        \* the groups that are trained by process r, and where their histories are in that of the single process
        mine(r) == SelectSeq(D!GroupsOf(i.ws, i.g, r), LAMBDA k : \E n \in 1..Len(i.trained) : i.trained[n] = k)
    IN  Broken({<<"all processes come to an end", ended>>,
                <<"the same operations together", Own(logs) /\ Alike(logs)>>,
                <<"nobody waits for ever", Completes(logs)>>})
        \cup (IF ~ended THEN {} ELSE Broken(
             {<<"all processes learn the same", \A r \in W : res(r).digest = res(0).digest>>,
              <<"as a single process", \A r \in W : NearSeqs(res(r).values, o.single.values, i.vtol)>>,
              <<"the same losses", \A r \in W : NearSeq(res(r).loss, o.single.loss, i.ltol)>>,
              <<"the same shares of rays", \A r \in W : NearSeqs(res(r).shares, o.single.shares, i.stol)>>,
              <<"the same history", i.method = "aim" => \A r \in W : NearSeqs(res(r).hist, o.single.hist, i.ltol)>>,
              <<"the histories of all processes", i.method # "aim" => \A r \in W :
                   /\ Len(res(r).more) = i.ws
                   /\ \A s \in W : /\ Len(res(r).more[s + 1]) = Len(mine(s))
                                   /\ \A k \in 1..Len(mine(s)) : NearSeq(res(r).more[s + 1][k], o.single.more[1][Place(i.trained, mine(s)[k])], i.ltol)>>}))

Bad(e) == IF e.kind = "run" THEN BadRun(e) ELSE {"unknown kind"}
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
