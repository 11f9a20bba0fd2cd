----------------------------- MODULE BitmapModel ------------------------------
(***************************************************************************)
(* The definitions on all bitmaps up to Side x Side with the given pixel   *)
(* values and all small trapezoids.                                        *)
(***************************************************************************)
EXTENDS Bitmap

CONSTANTS Sides, Values, MaxWidth

VARIABLES b, m, t
vars == <<b, m, t>>

Bitmaps == UNION {[1..h -> [1..w -> Values]] : h \in Sides, w \in Sides}
Init == /\ \/ b \in Bitmaps /\ t = <<1, 1, 1>>
           \/ b = <<<<1>>>> /\ t \in {<<w, s, p>> : w \in 1..MaxWidth, s \in 0..5, p \in 0..MaxWidth}
        /\ m = Centre(b)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Scaled(k) == [r \in 1..Height(b) |-> [c \in 1..Width(b) |-> k * b[r][c]]]
\* moved by one pixel within a larger bitmap
Moved(dx, dy) == [r \in 1..Height(b) + 1 |-> [c \in 1..Width(b) + 1 |->
                    IF r - dy \in 1..Height(b) /\ c - dx \in 1..Width(b) THEN b[r - dy][c - dx] ELSE 0]]
Mirrored == [r \in 1..Height(b) |-> [c \in 1..Width(b) |-> b[r][Width(b) + 1 - c]]]

Inside == m[1] >= 0 /\ m[1] <= (Width(b) - 1) * S /\ m[2] >= 0 /\ m[2] <= (Height(b) - 1) * S
ScaleFree == Centre(Scaled(7)) = m
Shifts == Total(b) > 0 => \A dx, dy \in 0..1 : VClose(Centre(Moved(dx, dy)), <<m[1] + dx * S, m[2] + dy * S>>, 1)
Mirrors == Total(b) > 0 => Close(Centre(Mirrored)[1], (Width(b) - 1) * S - m[1], 1)
\* a crop of the original size is a shift by which nothing is lost if the flux is far enough from the edges
Padded == [r \in 1..(Height(b) + 4) |-> [c \in 1..(Width(b) + 4) |->
             IF r - 2 \in 1..Height(b) /\ c - 2 \in 1..Width(b) THEN 1000 * b[r - 2][c - 2] ELSE 0]]
CropCentred == Total(b) > 0 => LET k == Crop(Padded, S, S, S, S)
                               IN  /\ VClose(Centre(k), <<(Width(b) + 3) * Half, (Height(b) + 3) * Half>>, S \div 400)
                                   /\ Close(Total(k), Total(Padded), (Height(b) + 4) * (Width(b) + 4))
CropSmall == \A r \in 1..Height(b) : \A c \in 1..Width(b) :
                LET v == CropPixel(b, m, S \div 2, S \div 2, S, S, c - 1, r - 1)
                IN  v >= 0 /\ \E x \in Values : v <= x
Symmetric == \A i \in 0..t[1] - 1 : Trapezoid(t[1], t[2], t[3], i) = Trapezoid(t[1], t[2], t[3], t[1] - 1 - i)
Bounded == \A i \in 0..t[1] - 1 : Trapezoid(t[1], t[2], t[3], i) \in 0..S
Linear == \A i \in 0..t[1] - 2 : 2 * (i + 1) <= t[1] - 1 =>
             LET v(k) == Trapezoid(t[1], t[2], t[3], k)
             IN  v(i) <= v(i + 1) /\ (t[2] > 0 /\ v(i) > 0 /\ v(i + 1) < S => Close(v(i + 1) - v(i), S \div t[2], 2))
=============================================================================
