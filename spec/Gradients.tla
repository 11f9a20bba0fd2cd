------------------------------ MODULE Gradients ------------------------------
(***************************************************************************)
(* Derivatives.  A computation is cut into stages; at every cut, the       *)
(* adjoint of what passes there (the derivative of the goal with respect   *)
(* to it) is paired with how much it changes along a direction.  The       *)
(* pairing is the same at every cut (GradientModel): at the first one it   *)
(* is the derivative that is handed out, at the last one the change of the *)
(* goal itself.                                                            *)
(*                                                                         *)
(* Changes are difference quotients for a step, its half and its quarter.  *)
(* Where they do not agree with each other the computation is not smooth   *)
(* (or rounding exceeds the change) and nothing follows from them.         *)
(***************************************************************************)
EXTENDS Fix

\* rows[s][k]: pairing at cut k with step s, in units of the largest one
Column(rows, k) == {rows[s][k] : s \in 1..Len(rows)}
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
Spread(rows) == MaxOf({MaxOf(Column(rows, k)) - MinOf(Column(rows, k)) : k \in 1..Len(rows[1])})
Sharp(rows, blur, limit) == Spread(rows) <= limit /\ blur <= limit

\* the finest step is the least biased, the middle one the least noisy
Middle(rows) == rows[(Len(rows) + 1) \div 2]
PairsUp(rows, blur, tol) ==
    LET m == Middle(rows)
        n == Len(m)
    IN  \A k \in 1..n : Close(m[k], m[n], tol + 2 * Spread(rows) + blur)
=============================================================================
