--------------------------- MODULE KinematicsTrace ---------------------------
(***************************************************************************)
(* Conformance of alignments.  in: helio[h] (kinematics record with the    *)
(* two actuators act[j] and limits lim[j]), rows, flat points and normals  *)
(* per heliostat, sun and aim per row; out: motors, aligned points and     *)
(* normals, and those of a second alignment by these motor positions.      *)
(***************************************************************************)
EXTENDS Kinematics, TraceBase
VARIABLE l

\* resolution of a joint angle driven by a linear actuator (32-bit floats and this arithmetic)
LinearBlur == 60

H(i, r) == i.helio[i.rows[r]]
Angles(i, r, mot) == <<Angle(H(i, r).act[1], mot[1]), Angle(H(i, r).act[2], mot[2])>>
Blur(i, r) == IF H(i, r).act[1].kind = 0 THEN LinearBlur ELSE 0

PointTol(i, r) == 40 + 4 * Blur(i, r) + Norm(H(i, r).pos) \div 1000000
MovedBy(i, r, mot, pts, nrm) ==
    LET k == H(i, r)
        a == Angles(i, r, mot)
        o == Orientation(k, a[1], a[2])
    IN  /\ \A p \in 1..Len(k.points) : VClose(First3(pts[p]), Move(o, k.points[p]), PointTol(i, r)) /\ pts[p][4] = S
        /\ \A p \in 1..Len(k.normals) : VClose(First3(nrm[p]), MatVec(o.m, k.normals[p]), 30 + 2 * Blur(i, r)) /\ nrm[p][4] = 0

\* lengths between the points of the surface, as long as they are moderate
Stiff(i, r, pts) ==
    LET k == H(i, r)
        len(a, b) == Norm(VSub(First3(a), First3(b)))
    IN  \A p, q \in 1..Len(k.points) : Close(len(pts[p], pts[q]), len(k.points[p], k.points[q]), 40 + Norm(k.pos) \div 2000000)

BadAlign(e) ==
    LET i == e.in
        o == e.out
        R == 1..Len(i.rows)
        hits(r, mot, tol) ==
            LET k == H(i, r)
                a == Angles(i, r, mot)
                n == NormalOf(k, a[1], a[2])
                c == CentreOf(k, a[1], a[2])
            IN  VClose(Reflected(Unit(i.sun[r]), n), Unit(VSub(i.aim[r], c)), tol)
        inside(r, mot, slack) == \A j \in 1..2 :
            LET m == H(i, r).lim[j]
                w == (m[2] - m[1]) \div 1000
            IN  mot[j] >= m[1] - slack * w /\ mot[j] <= m[2] + slack * w
        \* the given witness shows that the aim point is within the motors' reach
        reach(r) == hits(r, i.witness[r], 300) /\ inside(r, i.witness[r], -40)
    IN  Broken({
          <<"rigid motion of the surface", \A r \in R : MovedBy(i, r, o.motors[r], o.points[r], o.normals[r])>>,
          <<"distances are kept", \A r \in R : Stiff(i, r, o.points[r])>>,
          <<"reflects the sun onto the aim point", \A r \in R : reach(r) => hits(r, o.motors[r], 500 + 3 * Blur(i, r))>>,
          <<"within the motor limits", \A r \in R : reach(r) => inside(r, o.motors[r], 1)>>,
          <<"aligning by the stored motor positions reproduces the alignment",
             \A r \in R : \A p \in 1..Len(H(i, r).points) : VClose(o.again[r][p], o.points[r][p], PointTol(i, r))>>,
          <<"a witness reaches", \E r \in R : reach(r)>> })

BadMotors(e) ==
    LET i == e.in
        o == e.out
    IN  Broken({
          <<"forward kinematics", \A r \in 1..Len(i.rows) : MovedBy(i, r, i.motors[r], o.points[r], o.normals[r])>>,
          <<"distances are kept", \A r \in 1..Len(i.rows) : Stiff(i, r, o.points[r])>> })

Bad(e) == CASE e.kind = "align" -> BadAlign(e)
            [] e.kind = "motors" -> BadMotors(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
