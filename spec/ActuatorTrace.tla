---------------------------- MODULE ActuatorTrace ----------------------------
(***************************************************************************)
(* Conformance of the actuators.  in: par[h][j] parameters of actuator j   *)
(* of heliostat h, rows (heliostat of every row), motor[k][row][j],        *)
(* angle[k][row][j]; out: angles for the motor positions, motor positions  *)
(* for these angles (back) and for the given angles (motor).               *)
(***************************************************************************)
EXTENDS Actuators, TraceBase
VARIABLE l

\* how well 32-bit floats determine the absolute angle x
Blur(x) == LET s == Sin(x) IN IF s < S \div 20 THEN S \div 500 ELSE S \div 250000 + MulDiv(S \div 250000, S, s)

BadLinear(e) ==
    LET i == e.in
        o == e.out
        R == 1..Len(i.rows)
        K == 1..Len(i.motor)
        J == 1..2
        P(r, j) == i.par[i.rows[r]][j]
        q == [r \in R |-> [j \in J |-> Geo(P(r, j))]]
        zero == [r \in R |-> [j \in J |-> Absolute(q[r][j], 0)]]
        abs == [k \in K |-> [r \in R |-> [j \in J |-> Absolute(q[r][j], i.motor[k][r][j])]]]
        want(k, r, j) == LET d == zero[r][j] - abs[k][r][j] IN IF P(r, j).cw = 1 THEN P(r, j).a0 + d ELSE P(r, j).a0 - d
        tol(k, r, j) == Blur(zero[r][j]) + Blur(abs[k][r][j])
        inner(k, r, j) == InRange(q[r][j], i.motor[k][r][j], S \div 50) /\ InRange(q[r][j], 0, S \div 100)
        all(F(_, _, _)) == \A k \in K : \A r \in R : \A j \in J : F(k, r, j)
        law(k, r, j) == Close(o.angle[k][r][j], want(k, r, j), tol(k, r, j))
        inv(k, r, j) == inner(k, r, j) => Close(o.back[k][r][j], i.motor[k][r][j], q[r][j].inc \div 25000 + 20)
        mono(k, r, j) == \A m \in K : (i.motor[k][r][j] < i.motor[m][r][j]) =>
            LET d == o.angle[m][r][j] - o.angle[k][r][j]
                t == tol(k, r, j)
                up == P(r, j).cw = 0
                \* moved by more than the resolution inside of the range
                moved == inner(k, r, j) /\ inner(m, r, j) /\ i.motor[m][r][j] - i.motor[k][r][j] > q[r][j].inc \div 5000
            IN  /\ IF up THEN d >= -t ELSE d <= t
                /\ moved => IF up THEN d > 0 ELSE d < 0
        \* an angle that belongs to a stroke inside of the range is turned into its motor position
        given(k, r, j) == LET s == StrokeFor(P(r, j), i.angle[k][r][j])
                              m == MulDiv(s - q[r][j].s0, q[r][j].inc, S)
                              x == IF P(r, j).cw = 1 THEN i.angle[k][r][j] - P(r, j).a0 ELSE P(r, j).a0 - i.angle[k][r][j]
                              reach == zero[r][j] - x > S \div 10 /\ zero[r][j] - x < PI - S \div 10
                          IN  (reach /\ InRange(q[r][j], 0, S \div 100)) => Close(o.motor[k][r][j], m, q[r][j].inc \div 25000 + 20)
        bounds(k, r, j) == LET s == MulDiv(o.motor[k][r][j], S, q[r][j].inc) + q[r][j].s0
                           IN  s >= Shortest(q[r][j]) - S \div 50000 /\ s <= Longest(q[r][j]) + S \div 50000
    IN  Broken({ <<"law of cosines", all(law)>>, <<"inverse", all(inv)>>, <<"monotonic", all(mono)>>,
                 <<"motor position of an angle", all(given)>>, <<"motor positions stay in the mechanical range", all(bounds)>> })

BadIdeal(e) == Broken({ <<"identity", e.out.angle = e.in.motor /\ e.out.back = e.in.motor /\ e.out.motor = e.in.angle>> })

Bad(e) == CASE e.kind = "linear" -> BadLinear(e)
            [] e.kind = "ideal" -> BadIdeal(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
