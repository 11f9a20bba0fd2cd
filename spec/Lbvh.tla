-------------------------------- MODULE Lbvh --------------------------------
(***************************************************************************)
(* The bounding-volume hierarchy over the mirrors of a field (Karras 2012) *)
(* and its traversal by one ray.                                           *)
(*                                                                         *)
(* Init chooses the sorted codes of the mirrors (equal codes are allowed)  *)
(* and the set of mirrors whose bounding box the ray meets; a box that     *)
(* contains such a mirror is met, too.  Every behaviour walks the tree     *)
(* with an explicit stack.  The hierarchy is sound when the walk visits    *)
(* exactly the mirrors whose boxes are met, whatever the codes are.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxN,        \* largest number of mirrors
          Bits,        \* bits of a code
          Rounding,    \* "up": the steps of the split search are ceil(l/2), ceil(l/4), ...; "down": floor
          Ties         \* TRUE: equal codes are told apart by their index

VARIABLES n, codes, tree, below, met, stack, found, phase

vars == <<n, codes, tree, below, met, stack, found, phase>>

Pow2(k) == LET RECURSIVE p(_)
               p(i) == IF i = 0 THEN 1 ELSE 2 * p(i - 1)
           IN p(k)

\* Number of leading bits that a and b have in common, of b bits
RECURSIVE Common(_, _, _)
Common(a, b, bits) == IF bits = 0 THEN 0
                      ELSE IF a \div Pow2(bits - 1) # b \div Pow2(bits - 1) THEN 0
                      ELSE 1 + Common(a % Pow2(bits - 1), b % Pow2(bits - 1), bits - 1)

\* Longest common prefix of the keys of positions i and j, both counted from 0
Lcp(c, i, j) == IF j < 0 \/ j >= Len(c) THEN -1
                ELSE IF c[i + 1] # c[j + 1] THEN Common(c[i + 1], c[j + 1], Bits)
                ELSE IF Ties THEN Bits + Common(i, j, 4) ELSE Bits

Half(t) == IF Rounding = "up" THEN (t + 1) \div 2 ELSE t \div 2

\* The internal node i: direction of its range, length of its range, split, children
Node(c, i) ==
    LET d == IF Lcp(c, i, i + 1) > Lcp(c, i, i - 1) THEN 1 ELSE -1
        dmin == Lcp(c, i, i - d)
        RECURSIVE grow(_)
        grow(m) == IF Lcp(c, i, i + m * d) > dmin THEN grow(2 * m) ELSE m
        RECURSIVE shrink(_, _)
        shrink(t, l) == IF t < 1 THEN l
                        ELSE shrink(t \div 2, IF Lcp(c, i, i + (l + t) * d) > dmin THEN l + t ELSE l)
        len == shrink(grow(2) \div 2, 0)
        j == i + len * d
        dn == Lcp(c, i, j)
        RECURSIVE split(_, _)
        split(t, s) == IF t < 1 THEN s
                       ELSE LET s2 == IF Lcp(c, i, i + (s + t) * d) > dn THEN s + t ELSE s
                            IN  split(IF t > 1 THEN Half(t) ELSE 0, s2)
        g == i + split(Half(len), 0) * d + (IF d < 0 THEN d ELSE 0)
        lo == IF i < j THEN i ELSE j
        hi == IF i < j THEN j ELSE i
        leaf == Len(c) - 1
    IN  [left |-> IF lo = g THEN leaf + g ELSE g,
         right |-> IF hi = g + 1 THEN leaf + g + 1 ELSE g + 1,
         lo |-> lo, hi |-> hi]

\* nodes 0..n-2 are internal, n-1..2n-2 are the leaves in the order of the codes
Tree(c) == [i \in 0..Len(c) - 2 |-> Node(c, i)]

IsLeaf(c, v) == v >= Len(c) - 1
\* Leaves below a node; bounded so that a broken tree (a cycle) does not run forever
RECURSIVE Below(_, _, _, _)
Below(c, t, v, fuel) == IF fuel = 0 THEN {}
                        ELSE IF v < 0 \/ v > 2 * Len(c) - 2 THEN {}
                        ELSE IF IsLeaf(c, v) THEN {v - (Len(c) - 1)}
                        ELSE Below(c, t, t[v].left, fuel - 1) \cup Below(c, t, t[v].right, fuel - 1)
RECURSIVE DepthOf(_, _, _, _)
DepthOf(c, t, v, fuel) == IF fuel = 0 \/ IsLeaf(c, v) THEN 1
                          ELSE LET a == DepthOf(c, t, t[v].left, fuel - 1)
                                   b == DepthOf(c, t, t[v].right, fuel - 1)
                               IN  1 + IF a > b THEN a ELSE b

Sorted(c) == \A i \in 1..Len(c) - 1 : c[i] <= c[i + 1]

Init == /\ n \in 1..MaxN
        /\ codes \in {c \in [1..n -> 0..Pow2(Bits) - 1] : Sorted(c)}
        /\ tree = Tree(codes)
        /\ below = [v \in 0..2 * n - 2 |-> Below(codes, tree, v, 2 * n)]
        /\ met \in SUBSET (0..n - 1)
        /\ stack = <<0>>
        /\ found = {}
        /\ phase = "walk"

T == tree
\* the box of a node contains the boxes of all mirrors below it
Meets(v) == below[v] \cap met # {}

Step == /\ phase = "walk" /\ stack # <<>>
        /\ LET v == stack[Len(stack)]
               rest == SubSeq(stack, 1, Len(stack) - 1)
           IN  IF ~Meets(v) THEN stack' = rest /\ UNCHANGED found
               ELSE IF IsLeaf(codes, v) THEN stack' = rest /\ found' = found \cup {v - (n - 1)}
               ELSE stack' = rest \o <<T[v].left, T[v].right>> /\ UNCHANGED found
        /\ UNCHANGED <<n, codes, tree, below, met, phase>>
Finish == /\ phase = "walk" /\ stack = <<>>
          /\ phase' = "done"
          /\ UNCHANGED <<n, codes, tree, below, met, stack, found>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************** properties ********************************)
\* every node but the root has exactly one parent, and all leaves hang below the root
AtStart == met = {} /\ stack = <<0>>
Proper == AtStart =>
          LET kids == [k \in 1..2 * (n - 1) |-> IF k <= n - 1 THEN T[k - 1].left ELSE T[k - n].right]
          IN  /\ \A v \in 1..2 * n - 2 : Cardinality({k \in 1..2 * (n - 1) : kids[k] = v}) = 1
              /\ below[0] = 0..n - 1
\* a node covers a contiguous range of the sorted mirrors
Contiguous == AtStart => \A i \in 0..n - 2 : below[i] = T[i].lo..T[i].hi
NoOverflow == met = 0..n - 1 => Len(stack) <= DepthOf(codes, T, 0, 2 * n)
FoundOnlyMet == found \subseteq met
FoundAll == phase = "done" => found = met
Terminates == <>(phase = "done")
=============================================================================
