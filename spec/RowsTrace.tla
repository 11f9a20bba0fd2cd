------------------------------ MODULE RowsTrace ------------------------------
(***************************************************************************)
(* Conformance of traces of the same scene with different batch sizes and  *)
(* numbers of processes (C03).                                             *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Same(a, b) == Abs(a - b) <= 40 + Max(Abs(a), Abs(b)) \div 20000
SameRow(a, b) ==
    /\ Len(a.flux) = Len(b.flux)
    /\ \A r \in 1..Len(a.flux) : Len(a.flux[r]) = Len(b.flux[r]) /\ \A c \in 1..Len(a.flux[r]) : Same(a.flux[r][c], b.flux[r][c])
    /\ a.on = b.on /\ a.free = b.free /\ a.arrive = b.arrive

\* out.base: the rows of a single process with a single batch; out.runs: other configurations, each a
\* sequence over ranks of [idx, rows]
Bad(e) ==
    LET o == e.out
        n == Len(o.base)
        R(k) == o.runs[k]
        all(k) == [r \in 1..Len(R(k)) |-> {R(k)[r].idx[j] : j \in 1..Len(R(k)[r].idx)}]
    IN  Broken({
          <<"rows of all processes", \A k \in 1..Len(o.runs) : \A r \in 1..Len(R(k)) : Len(R(k)[r].rows) = Len(R(k)[r].idx)>>,
          <<"each sample once", \A k \in 1..Len(o.runs) :
                /\ UNION {all(k)[r] : r \in 1..Len(R(k))} = 0..n - 1
                /\ \A a, b \in 1..Len(R(k)) : a # b => all(k)[a] \cap all(k)[b] = {}>>,
          <<"ascending", \A k \in 1..Len(o.runs) : \A r \in 1..Len(R(k)) :
                \A j \in 1..Len(R(k)[r].idx) - 1 : R(k)[r].idx[j] < R(k)[r].idx[j + 1]>>,
          <<"same values", \A k \in 1..Len(o.runs) : \A r \in 1..Len(R(k)) : \A j \in 1..Len(R(k)[r].idx) :
                R(k)[r].idx[j] \in 0..n - 1 => SameRow(R(k)[r].rows[j], o.base[R(k)[r].idx[j] + 1])>>,
          <<"repeatable", o.again = o.base>>,
          <<"independent of other samples", \A k \in 1..Len(o.alone) : SameRow(o.alone[k].row, o.base[o.alone[k].sample + 1])>> })

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
