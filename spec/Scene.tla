-------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* A complete trace of a small scene: every ray of every sample is         *)
(* reflected, scattered, blocked or not, intersected with its target and   *)
(* shared out to the pixels.                                               *)
(*                                                                         *)
(* A scene is [W, H, mag, refl, ext, targets, mirrors, blocking, samples]  *)
(* and a sample [inc, pts, nrm, du, de, tgt, own].                         *)
(***************************************************************************)
EXTENDS RayTrace, Blocking

FarAway == 500 * S

\* All rays of a sample, as a sequence of [h, blocked, full]: the hit, whether it
\* is blocked and the intensity of the ray if it is not
RaysOf(sc, s) ==
    LET P == Len(s.pts)
        one(k) ==
            LET r == ((k - 1) \div P) + 1
                p == ((k - 1) % P) + 1
                d == Scatter(Reflect(s.inc, s.nrm[p]), s.du[r][p], s.de[r][p])
                h == Hit(s.pts[p], d, sc.targets[s.tgt + 1], sc.W, sc.H)
                ref == Mul(Mul(sc.mag, S - sc.ext), sc.refl)
            IN  [h |-> h, full |-> Mul(ref, h.cos), arrive |-> Mul(sc.mag, h.cos),
                 tol |-> 5 + Mul(ref, h.tolc),
                 blocked |-> IF ~sc.blocking THEN "no"
                             ELSE LET hit == Blocked(s.pts[p], d, sc.mirrors, s.own + 1, h.dist)
                                      miss == Blocked(s.pts[p], d, sc.mirrors, s.own + 1, FarAway)
                                  IN  \* a ray that misses its target can be blocked anywhere on its way
                                      IF h.sure THEN IF h.hit THEN hit ELSE miss
                                      ELSE IF hit = miss THEN hit ELSE "maybe"]
    IN  [k \in 1..(Len(s.du) * P) |-> one(k)]

Hits(x) == x.h.hit /\ x.h.cos > 0
SureHit(x) == x.h.sure /\ Hits(x) /\ x.full > 20
SureMiss(x) == x.h.sure /\ (~x.h.hit \/ x.h.cos = 0)

\* Greatest possible contribution of a ray whose fate is not certain
Doubt(x) == IF SureMiss(x) THEN 0
            ELSE IF ~x.h.sure \/ x.blocked = "maybe" \/ ~Hits(x) \/ x.full <= 20 THEN Max2(x.full, 0) + x.tol
            ELSE 0
Certain(x) == SureHit(x) /\ x.blocked = "no"

\* Expected value of a pixel and its tolerance
Pixel(rays, row, col, W, H) ==
    SeqSum([k \in 1..Len(rays) |->
        IF ~Certain(rays[k]) THEN 0
        ELSE LET w == Share(rays[k].h.e, rays[k].h.u, row, col, W, H)
             IN  IF w = 0 THEN 0 ELSE Mul(rays[k].full, w)])
Near(h, row, col, H) == Abs(h.e - col * S) <= 2 * S /\ Abs(h.u - (H - 1 - row) * S) <= 2 * S
PixelTol(rays, row, col, H) ==
    20 + SeqSum([k \in 1..Len(rays) |->
        Doubt(rays[k]) +
        IF Certain(rays[k]) /\ Near(rays[k].h, row, col, H)
        THEN rays[k].tol + Mul(rays[k].full, rays[k].h.tole + rays[k].h.tolu) + 2
        ELSE 0])

\* Rays on the outermost row or column of pixels are lost in the package only when they are
\* exactly on the upper edge; near it they are uncertain
EdgeDoubt(x, W, H) ==
    IF Certain(x) /\ ~Splats(x.h.e, x.h.u, W, H) THEN x.full ELSE 0
Energy(rays) == SeqSum([k \in 1..Len(rays) |-> IF Certain(rays[k]) THEN rays[k].full ELSE 0])
EnergyTol(rays, W, H) == 20 + SeqSum([k \in 1..Len(rays) |->
    Doubt(rays[k]) + (IF Certain(rays[k]) THEN rays[k].tol ELSE 0) + EdgeDoubt(rays[k], W, H)])

CountIf(rays, P(_)) == Cardinality({k \in 1..Len(rays) : P(rays[k])})
\* value is a fraction of n, given with scale S; it must be at least lo/n and at most hi/n
Fraction(value, lo, hi, n) == value >= MulDiv(lo, S, n) - 3 /\ value <= MulDiv(hi, S, n) + 3

OnTargetLo(rays) == CountIf(rays, LAMBDA x : SureHit(x))
OnTargetHi(rays) == CountIf(rays, LAMBDA x : ~SureMiss(x))
FreeLo(rays) == CountIf(rays, LAMBDA x : x.blocked = "no")
FreeHi(rays) == CountIf(rays, LAMBDA x : x.blocked # "yes")
ArriveLo(rays) == CountIf(rays, LAMBDA x : Certain(x))
ArriveHi(rays) == CountIf(rays, LAMBDA x : ~SureMiss(x) /\ x.blocked # "yes")
=============================================================================
