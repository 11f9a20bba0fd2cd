---------------------------- MODULE QuotientModel ----------------------------
(***************************************************************************)
(* What the comparison of derivatives with quotients can tell: for every   *)
(* computation that is smooth enough (slope and curvature from             *)
(* Coefficients, noise of the values up to one unit per step), the true    *)
(* derivative is accepted, and one that is wrong by a third is not.        *)
(***************************************************************************)
EXTENDS Gradients

CONSTANTS Coefficients, Steps
VARIABLES slope, bend, h, noise, wrong
vars == <<slope, bend, h, noise, wrong>>

Init == /\ slope \in Coefficients \ {0}
        /\ bend \in Coefficients
        /\ h \in Steps
        /\ noise \in [1..3 -> {-1, 0, 1}]
        /\ wrong \in {-1, 0, 1, 2}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* quotient of a x + c x^3 around zero with step d: a + c d^2, and a unit of noise over 2 d
Part(s) == CASE s = 1 -> h
             [] s = 2 -> h \div 2
             [] s = 3 -> h \div 4
Quotient(s) == slope + Mul(bend, Sq(20 * Part(s))) + noise[s] * (S \div (20 * Part(s)))
Claim == slope + (wrong * slope) \div 3
Top == Max2(Abs(Claim), MaxOf({Abs(Quotient(s)) : s \in 1..3}))
Rows == [s \in 1..3 |-> <<MulDiv(Claim, S, Top), MulDiv(Quotient(s), S, Top)>>]
Tol == S \div 50

Accepts == wrong = 0 /\ Sharp(Rows, 0, S \div 20) => PairsUp(Rows, 0, Tol)
Refuses == wrong # 0 /\ Sharp(Rows, 0, S \div 20) => ~PairsUp(Rows, 0, Tol)
=============================================================================
