------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* Coordinate systems, rigid motions and canting.  Numbers have scale S,   *)
(* angles are in radians, matrices are sequences of rows.                  *)
(***************************************************************************)
EXTENDS Fix

I3 == << <<S, 0, 0>>, <<0, S, 0>>, <<0, 0, S>> >>

\* the rotations of the package: about east and up counter-clockwise when seen from the tip
\* of the axis, about north the other way round
RE(a) == << <<S, 0, 0>>, <<0, Cos(a), -Sin(a)>>, <<0, Sin(a), Cos(a)>> >>
RN(a) == << <<Cos(a), 0, -Sin(a)>>, <<0, S, 0>>, <<Sin(a), 0, Cos(a)>> >>
RU(a) == << <<Cos(a), -Sin(a), 0>>, <<Sin(a), Cos(a), 0>>, <<0, 0, S>> >>
RDistort(u, e) == MatMul(RE(e), RU(u))

Homog(m, t) == << <<m[1][1], m[1][2], m[1][3], t[1]>>, <<m[2][1], m[2][2], m[2][3], t[2]>>,
                  <<m[3][1], m[3][2], m[3][3], t[3]>>, <<0, 0, 0, S>> >>
Origin == <<0, 0, 0>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))

\* azimuth 0 is south, 90 degrees is east (the azimuth grows from south over east),
\* elevation counts from the horizon
Enu(az, el, slant) == << Mul(slant, Mul(Cos(el), Sin(az))), -Mul(slant, Mul(Cos(el), Cos(az))), Mul(slant, Sin(el)) >>

\* Offset east, north and up on the WGS84 ellipsoid of a point from a reference at latitude lat (micro-degrees); dlat and
\* dlon in nano-radians, dalt in millimetres; the result in millimetres (mm = 1) or micrometres (0)
EarthRadius == 6378137
Offset(lat, dlat, dlon, dalt, mm) ==
    LET phi == MulDiv(lat, 314159265, 1800000000) \div 10 + dlat \div 1000
        w2 == S - MulDiv(Sq(Sin(phi)), 669438, 100000000)
        rn == Div(S, Sqrt(w2))                             \* in units of the radius
        rm == Div(Mul(S - 6694, rn), w2)
        len(d, r, c) == MulDiv(MulDiv(d, EarthRadius, IF mm = 1 THEN 1000000 ELSE 1000), Mul(r, c), S)
    IN  << len(dlon, rn, Cos(phi)), len(dlat, rm, S), IF mm = 1 THEN dalt ELSE dalt * 1000 >>

\* turn v by the angle and about the unit vector k
Turn(k, a, v) == VAdd(VAdd(VScale(Cos(a), v), VScale(Sin(a), Cross(k, v))), VScale(Mul(Dot(k, v), S - Cos(a)), k))

\* canting vectors e and n span the plane of the facet; the columns of the rotation
\* are east, north and up of the facet
Basis(e, n) == LET ee == Unit(e)
                   u == Unit(Cross(ee, Unit(n)))
               IN  << ee, Unit(Cross(u, ee)), u >>
Cant(b, v) == VAdd(VAdd(VScale(v[1], b[1]), VScale(v[2], b[2])), VScale(v[3], b[3]))
Uncant(b, v) == << Dot(v, b[1]), Dot(v, b[2]), Dot(v, b[3]) >>
=============================================================================
