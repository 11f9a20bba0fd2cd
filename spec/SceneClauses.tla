------------------------------ MODULE SceneClauses ------------------------------
(***************************************************************************)
(* What a recorded trace of a scene (or a part of one) has to satisfy.     *)
(***************************************************************************)
EXTENDS Scene, TraceBase

BadTrace(e) ==
    LET sc == e.out.scene
        n == Len(sc.samples)
        rays == [k \in 1..n |-> RaysOf(sc, sc.samples[k])]
        N(k) == Len(rays[k])
        o == e.out
        pixels(k) == \A r \in 0..sc.H - 1, c \in 0..sc.W - 1 :
                        Close(o.flux[k][r + 1][c + 1], Pixel(rays[k], r, c, sc.W, sc.H), PixelTol(rays[k], r, c, sc.H))
        shape(f, m) == Len(f) = m /\ \A k \in 1..m : Len(f[k]) = sc.H /\ \A r \in 1..sc.H : Len(f[k][r]) = sc.W
        total(f) == SeqSum([r \in 1..sc.H |-> SeqSum(f[r])])
        per(t, r, c) == SeqSum([k \in 1..n |-> IF sc.samples[k].tgt = t - 1 THEN o.flux[k][r][c] ELSE 0])
    IN  IF ~shape(o.flux, n) \/ ~shape(o.per, Len(sc.targets)) THEN {"shape of the bitmaps"}
        ELSE Broken({
            <<"pixels", \A k \in 1..n : pixels(k)>>,
            <<"energy", \A k \in 1..n : Close(total(o.flux[k]), Energy(rays[k]), EnergyTol(rays[k], sc.W, sc.H))>>,
            <<"no negative flux", \A k \in 1..n, r \in 1..sc.H, c \in 1..sc.W : o.flux[k][r][c] >= 0>>,
            <<"fraction on target", \A k \in 1..n : Fraction(o.on[k], OnTargetLo(rays[k]), OnTargetHi(rays[k]), N(k))>>,
            <<"fraction not blocked", \A k \in 1..n : Fraction(o.free[k], FreeLo(rays[k]), FreeHi(rays[k]), N(k))>>,
            <<"fraction arriving", \A k \in 1..n : Fraction(o.arrive[k], ArriveLo(rays[k]), ArriveHi(rays[k]), N(k))>>,
            <<"sum per target", \A t \in 1..Len(sc.targets), r \in 1..sc.H, c \in 1..sc.W :
                                    Close(o.per[t][r][c], per(t, r, c), 5 + n)>>,
            <<"ray magnitude", Has(sc, "dni") =>
                 Close(MulDiv(sc.mag, N(1), 1), MulDiv(Mul(sc.dni, sc.area), 1, 1), N(1) * 4 + MulDiv(sc.dni, sc.area, S) \div 20000)>> })

\* splatting of arbitrary bitmap positions; irradiance is shared out to the four pixels around the position
BadSplat(e) ==
    LET i == e.in
        o == e.out.flux
        n == Len(i.e)
        want(k, r, c) == SeqSum([j \in 1..Len(i.e[k]) |->
                            LET w == Share(i.e[k][j], i.u[k][j], r, c, i.W, i.H) IN IF w = 0 THEN 0 ELSE Mul(i.mag[k][j], w)])
    IN  Broken({ <<"splatting", Len(o) = n /\ \A k \in 1..n, r \in 0..i.H - 1, c \in 0..i.W - 1 :
                     Close(o[k][r + 1][c + 1], want(k, r, c), 30)>> })

\* flux is proportional to reflectivity, irradiance and 1 - extinction
BadScale(e) ==
    LET i == e.in
        f == Mul(Div(Mul(i.refl2, S - i.ext2), Mul(i.refl1, S - i.ext1)), Div(i.dni2, i.dni1))
    IN  Broken({ <<"proportional", \A k \in 1..Len(e.out.a) : CloseRel(e.out.b[k], Mul(e.out.a[k], f), 100, 200)>> })

\* bitmaps of samples summed per target, exactly
BadSum(e) ==
    LET i == e.in
        n == Len(i.tgt)
        o == e.out.per
        want(t, r, c) == SeqSum([k \in 1..n |-> IF i.tgt[k] = t - 1 THEN i.flux[k][r][c] ELSE 0])
    IN  Broken({ <<"sum per target", Len(o) = i.targets /\ \A t \in 1..i.targets, r \in 1..i.H, c \in 1..i.W : o[t][r][c] = want(t, r, c)>> })

\* scattering: one ray direction turned by its two angles
BadScatter(e) ==
    LET i == e.in
        o == e.out
        K == 1..Len(i.d)
    IN  Broken({
          <<"scatter", \A k \in K : \A r \in 1..Len(i.u[k]), p \in 1..Len(i.d[k]) :
               VClose(First3(o.d[k][r][p]), Scatter(i.d[k][p], i.u[k][r][p], i.e[k][r][p]), 8)>>,
          <<"direction", \A k \in K : \A r \in 1..Len(i.u[k]), p \in 1..Len(i.d[k]) : o.d[k][r][p][4] = 0>>,
          <<"magnitude", \A k \in K : \A r \in 1..Len(i.u[k]), p \in 1..Len(i.d[k]) : o.mag[k][r][p] = S>> })
=============================================================================
