----------------------------- MODULE BitmapTrace ------------------------------
(***************************************************************************)
(* Conformance of the analysis of flux bitmaps.                            *)
(***************************************************************************)
EXTENDS Bitmap, TraceBase
VARIABLE l

ColTol == 30
BadCentre(e) ==
    LET i == e.in
        o == e.out
        N == 1..Len(i.bitmaps)
    IN  Broken({
          <<"centre of mass", \A k \in N : VClose(o.centre[k], Centre(i.bitmaps[k]), ColTol)>>,
          <<"independent of the other bitmaps", \A k \in N : VClose(o.alone[k], o.centre[k], ColTol)>>,
          <<"independent of the scale", \A k \in N : VClose(o.scaled[k], o.centre[k], ColTol)>>,
          <<"moves with the bitmap", \A k \in N : Total(i.bitmaps[k]) > 0 => VClose(o.moved[k], <<o.centre[k][1] + i.dx * S, o.centre[k][2] + i.dy * S>>, ColTol)>> })

BadTrapezoid(e) ==
    Broken({ <<"trapezoid", /\ Len(e.out.profiles) = Len(e.in.widths)
                            /\ \A k \in 1..Len(e.in.widths) :
                                 LET w == e.in.widths[k]
                                 IN  Len(e.out.profiles[k]) = w[1] /\ \A x \in 1..w[1] : Close(e.out.profiles[k][x], Trapezoid(w[1], w[2], w[3], x - 1), 3)>> })

\* metres shown by a bitmap of target t
Extent(t) == IF t.kind = "p" THEN <<t.w, t.h>> ELSE <<Mul(t.r, t.open), t.h>>
Peak(b) == LET RECURSIVE go(_, _)
               go(r, acc) == IF r > Height(b) THEN acc ELSE go(r + 1, Max2(acc, SeqSum(b[r])))
           IN  go(1, 0)
BadCrop(e) ==
    LET i == e.in
        o == e.out
        N == 1..Len(i.bitmaps)
        ext(k) == Extent(i.targets[i.idx[k] + 1])
        ok(k) == LET b == i.bitmaps[k]
                     m == Centre(b)
                     x == ext(k)
                     tol == 3 + Peak(b) \div 10000
                 IN  /\ Len(o.crops[k]) = Height(b) /\ Len(o.crops[k][1]) = Width(b)
                     /\ \A r \in 1..Height(b) : \A c \in 1..Width(b) :
                          Close(o.crops[k][r][c], CropPixel(b, m, i.w, i.h, x[1], x[2], c - 1, r - 1), tol)
        same(k) == LET x == ext(k) IN i.w = x[1] /\ i.h = x[2]
        \* all flux at least half of the bitmap's size from the edges of the shifted view
        contained(k) == LET b == i.bitmaps[k]
                            m == Centre(b)
                        IN  \A r \in 1..Height(b) : \A c \in 1..Width(b) : b[r][c] > 0 =>
                               /\ Abs((c - 1) * S - m[1]) < (Width(b) - 3) * Half
                               /\ Abs((r - 1) * S - m[2]) < (Height(b) - 3) * Half
    IN  Broken({
          <<"crop shows the region around the centre of mass", \A k \in N : ok(k)>>,
          <<"contained flux moves to the middle",
             \A k \in N : same(k) /\ contained(k) /\ Total(i.bitmaps[k]) > 0 =>
                 VClose(Centre(o.crops[k]), <<(Width(i.bitmaps[k]) - 1) * Half, (Height(i.bitmaps[k]) - 1) * Half>>, S \div 200)>> })

Bad(e) == CASE e.kind = "centre" -> BadCentre(e)
            [] e.kind = "trapezoid" -> BadTrapezoid(e)
            [] e.kind = "crop" -> BadCrop(e)
TInit == l = 1
TNext == l <= Len(Trace) /\ Report(Trace[l], Bad(Trace[l])) /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
