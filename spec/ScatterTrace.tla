---------------------------- MODULE ScatterTrace ----------------------------
(***************************************************************************)
(* Conformance of the scattering angles and of the scattered rays.         *)
(***************************************************************************)
EXTENDS SceneClauses

VARIABLE l

\* out.u, out.e: all angles of a dataset in the order heliostat, ray, point, normalised to
\* (angle - mean) / sigma with scale 10^4.  Six standard errors are allowed.
Q == 10000
Zero == 0
Avg(a) == MulDiv(SeqSum(a), 1, Len(a))
Prod(a, b) == DotDiv(a, b, Len(a))                     \* scale Q^2
\* 6 * Q * Q / sqrt(n), times k/10
Err(n, k) == MulDiv(MulDiv(6 * Q, Q, 10), k, MulSqrt(n, 1))
Lag(a, d) == Prod(SubSeq(a, 1, Len(a) - d), SubSeq(a, d + 1, Len(a)))
Within(a, q) == Cardinality({k \in 1..Len(a) : Abs(a[k]) <= q})
\* expected fraction f (scale Q) of values inside q sigmas; standard error at most 0.5 / sqrt(n)
Share2(a, q, f) == Close(MulDiv(Within(a, q), Q, Len(a)), f, MulDiv(3 * Q, 1, MulSqrt(Len(a), 1)) + 20)

BadSample(e) ==
    LET u == e.out.u
        v == e.out.e
        n == Len(u)
        i == e.in
        lags == {d \in {1, i.points, i.points * i.rays} : d * 2 <= n}
    IN  IF n # i.heliostats * i.rays * i.points \/ Len(v) # n THEN {"number of angles"}
        ELSE Broken({
          <<"mean", Abs(Avg(u)) * Q <= Err(n, 10) + Q /\ Abs(Avg(v)) * Q <= Err(n, 10) + Q>>,
          <<"variance", Close(Prod(u, u), Q * Q, Err(n, 15) + 2 * Q) /\ Close(Prod(v, v), Q * Q, Err(n, 15) + 2 * Q)>>,
          <<"directions are independent", Abs(Prod(u, v)) <= Err(n, 10) + Q>>,
          <<"samples are independent", \A d \in lags : Abs(Lag(u, d)) <= Err(n - d, 10) + Q /\ Abs(Lag(v, d)) <= Err(n - d, 10) + Q>>,
          <<"normal distribution", Share2(u, Q, 6827) /\ Share2(v, Q, 6827) /\ Share2(u, 2 * Q, 9545) /\ Share2(v, 2 * Q, 9545)
                                   /\ Share2(u, Q \div 2, 3829) /\ Share2(v, Q \div 2, 3829)>> })

\* The datasets of all runs: out.runs is a list of [u, e] in micro-units of sigma, all of which have to be the
\* same; out.other belongs to another seed.
BadRepro(e) ==
    LET o == e.out
    IN  Broken({
          <<"shape", \A k \in 1..Len(o.runs) : o.runs[k].shape = <<e.in.heliostats, e.in.rays, e.in.points>> >>,
          <<"reproducible", \A k \in 1..Len(o.runs) : o.runs[k].u = o.runs[1].u /\ o.runs[k].e = o.runs[1].e>>,
          <<"seeds differ", o.other.u # o.runs[1].u /\ o.other.e # o.runs[1].e>>,
          <<"directions differ", o.runs[1].u # o.runs[1].e>>,
          \* a sample handed out by the dataset is the row of that sample
          <<"rows", \A k \in 1..Len(o.rows) : o.rows[k].u = o.runs[1].u[k] /\ o.rows[k].e = o.runs[1].e[k]>>,
          <<"length", Len(o.rows) = e.in.heliostats /\ o.length = e.in.heliostats>> })

Bad(e) == CASE e.kind = "scatter" -> BadScatter(e)
            [] e.kind = "sample" -> BadSample(e)
            [] e.kind = "repro" -> BadRepro(e)
            [] OTHER -> {"unknown kind"}

TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
