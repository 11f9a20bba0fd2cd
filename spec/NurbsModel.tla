------------------------------ MODULE NurbsModel -------------------------------
(***************************************************************************)
(* The algorithm of the package (The NURBS Book, A2.2) as a state machine: *)
(* the nonzero basis functions of a span, degree by degree, from the       *)
(* distances left[j] and right[j] to the knots.  It ends with the values   *)
(* of the recursion; the values are non-negative and add up to one.        *)
(***************************************************************************)
EXTENDS Nurbs

CONSTANTS Degrees, Extra, Steps     \* degrees, numbers of spans, positions per unit

VARIABLES p, n, x, j, r, row, saved
vars == <<p, n, x, j, r, row, saved>>

T == Stretch(x, n, p)
Span == SpanOf(T, n, p)
Left(a) == T - Knot(Span + 1 - a, n, p) * S
Right(a) == Knot(Span + a, n, p) * S - T

Init == /\ p \in Degrees
        /\ \E e \in Extra : n = p + e
        /\ \E k \in 0..Steps : x = MulDiv(k, S, Steps)
        /\ j = 1 /\ r = 0 /\ row = <<S>> /\ saved = 0
Inner == /\ j <= p /\ r < j
         /\ LET tmp == MulDiv(row[r + 1], S, Right(r + 1) + Left(j - r))
            IN  /\ row' = [row EXCEPT ![r + 1] = saved + Mul(Right(r + 1), tmp)]
                /\ saved' = Mul(Left(j - r), tmp)
         /\ r' = r + 1
         /\ UNCHANGED <<p, n, x, j>>
Outer == /\ j <= p /\ r = j
         /\ row' = Append(row, saved)
         /\ j' = j + 1 /\ r' = 0 /\ saved' = 0
         /\ UNCHANGED <<p, n, x>>
Next == Inner \/ Outer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == j = p + 1
All == Weights(T, Span, n, p)
MatchesRecursion == Done => \A k \in 0..p : Close(row[k + 1], All[Span - p + k + 1], 10)
Local == Done => \A k \in 1..n : k - 1 < Span - p \/ k - 1 > Span => All[k] = 0
NonNegative == Done => \A k \in 1..n : All[k] >= 0
PartitionOfUnity == Done => Close(SeqSum(All), S, 10) /\ Close(SeqSum(Slopes(T, Span, n, p)), 0, 20)
EndPoints == Done => (x = 0 => Close(All[1], S, 5)) /\ (x = S => Close(All[n], S, 5))
\* the slopes are those of the values
SlopesFit == Done /\ T \div S + 2000 < S => LET h == 1000
                           f == Weights(T + h, Span, n, p)
                           a == Slopes(T, Span, n, p)
                       IN  (T % S < S - h) => \A k \in 1..n : Close((f[k] - All[k]) * 1000, a[k], 25000)
\* a control polygon on a line with equal steps beyond the ends is reproduced for degree one
Linear == Done /\ p = 1 => Close(Dot(All, [k \in 1..n |-> (k - 1) * S]), T, 10)
Finishes == <>Done
=============================================================================
