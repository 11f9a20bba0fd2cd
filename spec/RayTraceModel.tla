---------------------------- MODULE RayTraceModel ----------------------------
(***************************************************************************)
(* Properties of the ray specification itself, checked over a lattice of   *)
(* origins and aim points: a ray aimed at a point of the target from the   *)
(* front hits that very point, its bitmap position leads back to it within *)
(* half a pixel, and its energy is shared out completely.                  *)
(***************************************************************************)
EXTENDS RayTrace

CONSTANTS N, Kind

W == 9
H == 6
M(x) == MulDiv(x, S, 1000)      \* millimetres
T == IF Kind = "p"
     THEN [kind |-> "p", c |-> <<M(500), M(-250), M(6000)>>, n |-> <<0, -S, 0>>, w |-> M(4000), h |-> M(3000)]
     ELSE [kind |-> "c", c |-> <<M(500), M(-250), M(6000)>>, n |-> <<0, -S, 0>>, a |-> <<0, 0, S>>,
           r |-> M(1500), h |-> M(3000), open |-> PI]

VARIABLES o, p, d       \* origin, aimed point, direction

\* Points of the target, given by column and row position in pixels
Aim(i, j) ==
    IF Kind = "p"
    THEN VAdd(T.c, <<MulDiv(T.w, 2 * i - N, 2 * N + 1), 0, MulDiv(T.h, 2 * j - N, 2 * N + 1)>>)
    ELSE LET th == MulDiv(T.open, 2 * i - N, 2 * N + 1)
         IN  VAdd(T.c, <<Mul(T.r, Sin(th)), -Mul(T.r, Cos(th)), MulDiv(T.h, 2 * j - N, 2 * N + 1)>>)

Init == \E i, j \in 0..N, x \in -N..N, z \in 0..1, y \in 1..2 :
            /\ p = Aim(i, j)
            /\ o = <<M(3000 * x), M(-9000 * y), M(2000 * z)>>
            /\ d = Unit(VSub(p, o))
Next == UNCHANGED <<o, p, d>>

h == Hit(o, d, T, W, H)
Seen == IF Kind = "p" THEN TRUE
        ELSE Dot(d, Unit(<<p[1] - T.c[1], p[2] - T.c[2], 0>>)) < -M(250)
PHit == VAdd(o, VScale(h.dist, d))

HitsAreOnTarget == Seen => h.sure /\ h.hit /\ h.cos > 0 /\ VClose(PHit, p, 300)
RoundTrip ==
    Seen => LET q == OnTarget(T, h.e, (H - 1) * S - h.u, W, H)
                dv == VSub(q, p)
            IN  /\ Abs(dv[3]) <= T.h \div (2 * H) + 200
                /\ Norm(<<dv[1], dv[2]>>) <= (IF Kind = "p" THEN T.w ELSE Mul(T.r, T.open)) \div (2 * W) + 200
\* higher on the target is higher in the bitmap; left and right do not depend on the height
UpIsUp == Seen => LET p2 == VAdd(p, <<0, 0, M(50)>>)
                      h2 == Hit(o, Unit(VSub(p2, o)), T, W, H)
                  IN  h2.u > h.u /\ Close(h2.e, h.e, 300)
SharesAddUp ==
    (Seen /\ Splats(h.e, h.u, W, H))
      => LET col == h.e \div S
             top == H - 2 - h.u \div S
             four == <<Share(h.e, h.u, top, col, W, H), Share(h.e, h.u, top, col + 1, W, H),
                       Share(h.e, h.u, top + 1, col, W, H), Share(h.e, h.u, top + 1, col + 1, W, H)>>
         IN  /\ Close(SeqSum(four), S, 4)
             /\ \A r \in 0..H - 1, c \in 0..W - 1 :
                   (r \notin {top, top + 1} \/ c \notin {col, col + 1}) => Share(h.e, h.u, r, c, W, H) = 0
ReflectionInvolutive ==
    LET n == Unit(<<M(300), M(-200), M(900)>>)
        r == Reflect(d, n)
    IN  VClose(Reflect(r, n), d, 12) /\ Close(Dot(r, n), -Dot(d, n), 12)
ScatterKeepsLength ==
    LET s == Scatter(d, M(4), M(-7))
    IN  Close(Norm(s), S, 8) /\ VClose(Scatter(d, 0, 0), d, 2)
=============================================================================
