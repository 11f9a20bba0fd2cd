---------------------------- MODULE GradientModel ----------------------------
(***************************************************************************)
(* Reverse accumulation.  All computations of up to Size operations on one *)
(* input are built, operation by operation, with their values and their    *)
(* tangents; then the adjoints are accumulated from the goal backwards.    *)
(* While operations above k have been undone, the adjoints of the          *)
(* operations up to k pair with their tangents to the tangent of the goal: *)
(* the frontier between done and undone is a cut.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Ops, Values, Size
VARIABLES x, nodes, k, adj, phase
vars == <<x, nodes, k, adj, phase>>

Lo == -1
Hi == 2
Clip(v) == IF v < Lo THEN Lo ELSE IF v > Hi THEN Hi ELSE v
Value(op, a, b) == CASE op = "add" -> a + b
                     [] op = "mul" -> a * b
                     [] op = "square" -> a * a
                     [] op = "clip" -> Clip(a)
\* partial derivatives
Left(op, a, b) == CASE op = "add" -> 1
                    [] op = "mul" -> b
                    [] op = "square" -> 2 * a
                    [] op = "clip" -> IF a < Lo \/ a > Hi THEN 0 ELSE 1
Right(op, a, b) == CASE op = "add" -> 1
                     [] op = "mul" -> a
                     [] OTHER -> 0

At(i) == nodes[i]
Input(v) == [op |-> "input", a |-> 0, b |-> 0, value |-> v, tangent |-> 1, degree |-> 1]
Degree(op, a, b) == CASE op = "add" -> IF At(a).degree > At(b).degree THEN At(a).degree ELSE At(b).degree
                      [] op = "mul" -> At(a).degree + At(b).degree
                      [] op = "square" -> 2 * At(a).degree
                      [] op = "clip" -> 100

Init == /\ x \in Values
        /\ nodes = <<Input(x)>>
        /\ k = 0
        /\ adj = <<>>
        /\ phase = "forward"

Forward == /\ phase = "forward"
           /\ Len(nodes) <= Size
           /\ \E op \in Ops, a \in 1..Len(nodes) : \E b \in (IF op \in {"add", "mul"} THEN a..Len(nodes) ELSE {a}) :
                nodes' = Append(nodes, [op |-> op, a |-> a, b |-> b, value |-> Value(op, At(a).value, At(b).value), degree |-> Degree(op, a, b),
                                        tangent |-> Left(op, At(a).value, At(b).value) * At(a).tangent + Right(op, At(a).value, At(b).value) * At(b).tangent])
           /\ UNCHANGED <<x, k, adj, phase>>

Turn == /\ phase = "forward"
        /\ Len(nodes) > 1
        /\ phase' = "backward"
        /\ k' = Len(nodes)
        /\ adj' = [i \in 1..Len(nodes) |-> IF i = Len(nodes) THEN 1 ELSE 0]
        /\ UNCHANGED <<x, nodes>>

\* undo operation k: its adjoint goes to its arguments, twice if they are the same
Undo == /\ phase = "backward"
        /\ k > 1
        /\ LET n == At(k)
               l == adj[k] * Left(n.op, At(n.a).value, At(n.b).value)
               r == adj[k] * Right(n.op, At(n.a).value, At(n.b).value)
           IN  adj' = [i \in 1..Len(nodes) |-> adj[i] + (IF i = n.a THEN l ELSE 0) + (IF i = n.b THEN r ELSE 0)]
        /\ k' = k - 1
        /\ phase' = IF k = 2 THEN "done" ELSE "backward"
        /\ UNCHANGED <<x, nodes>>

Next == Forward \/ Turn \/ Undo
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Goal == nodes[Len(nodes)]
\* value of the whole computation for another input
Run(y) == LET RECURSIVE go(_, _)
              go(i, acc) == IF i > Len(nodes) THEN acc[Len(acc)]
                            ELSE go(i + 1, Append(acc, Value(nodes[i].op, acc[nodes[i].a], acc[nodes[i].b])))
          IN  go(2, <<y>>)

Paired == phase # "forward" =>
    LET RECURSIVE sum(_)
        sum(i) == IF i = 0 THEN 0 ELSE adj[i] * nodes[i].tangent + sum(i - 1)
    IN  sum(k) = Goal.tangent
\* the derivative handed out is the one the values follow: symmetric quotients of polynomials up to degree two are exact
Adjoint == phase = "done" => /\ adj[1] = Goal.tangent
                             /\ Goal.degree <= 2 => 2 * adj[1] = Run(x + 1) - Run(x - 1)
Ends == <>(phase = "done")
=============================================================================
