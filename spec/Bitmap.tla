-------------------------------- MODULE Bitmap --------------------------------
(***************************************************************************)
(* Analysis of flux bitmaps.  A bitmap is a sequence of rows (from the     *)
(* top), each a sequence of pixels (from the left); positions count from   *)
(* zero and have scale S.                                                  *)
(***************************************************************************)
EXTENDS Fix

Height(b) == Len(b)
Width(b) == Len(b[1])
RowSums(b) == [r \in 1..Height(b) |-> SeqSum(b[r])]
Total(b) == SeqSum(RowSums(b))
ColSums(b) == [c \in 1..Width(b) |-> SeqSum(Col(b, c))]

\* intensity-weighted mean position <<column, row>>
Centre(b) == IF Total(b) = 0 THEN <<0, 0>>
             ELSE << DotDiv(ColSums(b), [c \in 1..Width(b) |-> (c - 1) * S], Total(b)),
                     DotDiv(RowSums(b), [r \in 1..Height(b) |-> (r - 1) * S], Total(b)) >>

\* bilinear value at <<x, y>>; nothing lies outside of the bitmap
Pixel(b, c, r) == IF c >= 0 /\ c < Width(b) /\ r >= 0 /\ r < Height(b) THEN b[r + 1][c + 1] ELSE 0
Sample(b, x, y) ==
    LET c == x \div S
        r == y \div S
        fx == x % S
        fy == y % S
        line(k) == DotDiv(<<Pixel(b, c, k), Pixel(b, c + 1, k)>>, <<S - fx, fx>>, S)
    IN  DotDiv(<<line(r), line(r + 1)>>, <<S - fy, fy>>, S)

\* the w by h metres around the centre of mass of a bitmap that shows tw by th metres,
\* in as many pixels as the bitmap has: pixel (c, r), counted from zero, shows this place
CropPlace(b, m, w, h, tw, th, c, r) ==
    LET at(k, n, size, whole, mid) == mid + MulDiv(MulDiv((2 * k - (n - 1)) * S, 1, 2), size, whole)
    IN  << at(c, Width(b), w, tw, m[1]), at(r, Height(b), h, th, m[2]) >>
\* a bitmap without flux is looked at from its middle; there is nothing to see in it anyway
CropPixel(b, m, w, h, tw, th, c, r) == LET p == CropPlace(b, m, w, h, tw, th, c, r) IN Sample(b, p[1], p[2])
Crop(b, w, h, tw, th) == LET m == Centre(b)
                         IN  [r \in 1..Height(b) |-> [c \in 1..Width(b) |-> CropPixel(b, m, w, h, tw, th, c - 1, r - 1)]]

\* trapezoid of total width t with a plateau of width p and slopes of width s; position i from zero
Trapezoid(t, s, p, i) ==
    LET d == Abs(2 * i - (t - 1)) - p       \* twice the distance from the plateau
    IN  IF s = 0 THEN (IF d <= 0 THEN S ELSE 0)
        ELSE S - Clamp(MulDiv(d, S, 2 * s), 0, S)
=============================================================================
