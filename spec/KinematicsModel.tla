--------------------------- MODULE KinematicsModel ---------------------------
(***************************************************************************)
(* The definitions: every orientation is a proper rotation, both inverse   *)
(* solutions reach the wanted normal and one of them is the pair of angles *)
(* the normal came from.                                                   *)
(***************************************************************************)
EXTENDS Kinematics

CONSTANTS Tilts, Angles1, Angles2   \* in 1/1000 rad

Milli(x) == MulDiv(x, S, 1000)
VARIABLES k, a, o, n, sol
vars == <<k, a, o, n, sol>>

Devs == {[pos |-> <<Milli(3000), Milli(-40000), Milli(2000)>>, tr |-> [j \in 1..9 |-> Milli(10 * j)], rot |-> <<Milli(p), Milli(q), Milli(r), Milli(s)>>] :
           p \in Tilts, q \in Tilts, r \in Tilts, s \in Tilts}
Init == /\ k \in Devs /\ a \in {<<Milli(x), Milli(y)>> : x \in Angles1, y \in Angles2}
        /\ o = Orientation(k, a[1], a[2])
        /\ n = NormalOf(k, a[1], a[2])
        /\ sol = Solutions(k, n)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Rigid == /\ MClose(MatMul(Transpose(o.m), o.m), I3, 30)
         /\ Close(Det(o.m), S, 30)
         /\ VClose(MatVec(o.m, <<0, 0, S>>), n, 30)
Reaches == \A j \in 1..2 : VClose(NormalOf(k, sol[j][1], sol[j][2]), n, 40)
Found == \E j \in 1..2 : Close(Wrap(sol[j][1] - a[1]), 0, 60) /\ Close(Wrap(sol[j][2] - a[2]), 0, 60)
=============================================================================
