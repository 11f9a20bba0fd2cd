---------------------------- MODULE GeometryModel ----------------------------
(***************************************************************************)
(* The laws that the geometry of the package promises, for all angles of a *)
(* lattice and vectors of a cube: proves the specification consistent      *)
(* before it judges the code.                                              *)
(***************************************************************************)
EXTENDS Geometry, TLC

CONSTANTS Parts,   \* lattice: multiples of 2 PI / Parts
          Tol

VARIABLES a, b, v
Angles == {MulDiv(TwoPI, k, Parts) : k \in 0..Parts - 1}
Cube == {<<x, y, z>> : x \in {-S, 0, S}, y \in {-S, 0, S}, z \in {-S, 0, S}} \ {Origin}

Init == a \in Angles /\ b \in Angles /\ v \in Cube
Next == UNCHANGED <<a, b, v>>

Rots == {RE(a), RN(a), RU(a), RDistort(a, b)}
Proper == \A m \in Rots : /\ MClose(MatMul(m, Transpose(m)), I3, Tol)
                          /\ Close(Det(m), S, Tol)
KeepsLength == \A m \in Rots : Close(Norm(MatVec(m, v)), Norm(v), 2 * Tol)
Additive == /\ MClose(MatMul(RE(a), RE(b)), RE(a + b), Tol)
            /\ MClose(MatMul(RN(a), RN(b)), RN(a + b), Tol)
            /\ MClose(MatMul(RU(a), RU(b)), RU(a + b), Tol)
\* turning about an axis agrees with the matrices; north turns the other way
Axes == /\ VClose(Turn(<<S, 0, 0>>, a, v), MatVec(RE(a), v), Tol)
        /\ VClose(Turn(<<0, S, 0>>, -a, v), MatVec(RN(a), v), Tol)
        /\ VClose(Turn(<<0, 0, S>>, a, v), MatVec(RU(a), v), Tol)
UnitEnu == Close(Norm(Enu(a, b, S)), S, Tol)
South == Cos(b) > S \div 10 => (VClose(Enu(0, b, S), <<0, -Cos(b), Sin(b)>>, Tol) /\ VClose(Enu(HalfPI, b, S), <<Cos(b), 0, Sin(b)>>, Tol))
Canting == LET e == MatVec(RU(a), <<S, 0, 0>>)
               n == MatVec(RU(a), MatVec(RE(b), <<0, S, 0>>))
               B == Basis(e, n)
           IN  Abs(Sin(b)) < S /\ Norm(Cross(e, n)) > S \div 10 =>
               /\ VClose(Uncant(B, Cant(B, v)), v, Tol)
               /\ Close(Norm(Cant(B, v)), Norm(v), 2 * Tol)
               /\ VClose(Cant(B, <<S, 0, 0>>), e, Tol)
               /\ Close(Dot(Cant(B, <<0, 0, S>>), e), 0, Tol) /\ Close(Dot(Cant(B, <<0, 0, S>>), n), 0, Tol)
=============================================================================
