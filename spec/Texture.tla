-------------------------------- MODULE Texture --------------------------------
(***************************************************************************)
(* Samples made from an orientation density (C20).                         *)
(*                                                                         *)
(* Orientations are unit quaternions (x, y, z, w) with x = cos(a1),        *)
(* y = sin(a1) sin(a2) cos(a3), z = sin(a1) sin(a2) sin(a3),               *)
(* w = sin(a1) cos(a2), 0 <= a1 <= pi/2 (q and -q are the same rotation),  *)
(* 0 <= a2 <= pi, 0 <= a3 < 2 pi.  For a separation s there are            *)
(* n = floor(pi / s) steps of pi/2n in a1, 2n in a2 and 4n in a3.          *)
(* A bin's measure is that of its part of the half sphere.                 *)
(***************************************************************************)
EXTENDS Vec
BinSteps(sep) == FFloor(FDiv(FPi, sep))
BinStep(n) == FDiv(FPi, F(2 * n))
(* the angles of a unit quaternion; at the poles the undefined ones are zero *)
Angles(q) ==
    LET sgn == IF FSign(q[1]) = -1 THEN F(-1) ELSE One
        p == [k \in 1..4 |-> FMul(sgn, q[k])]
        s1 == FSqrt(FAdd(FAdd(FMul(p[2], p[2]), FMul(p[3], p[3])), FMul(p[4], p[4])))
        s2 == FSqrt(FAdd(FMul(p[2], p[2]), FMul(p[3], p[3])))
        a3 == FAtan2(p[3], p[2])
    IN <<FAtan2(s1, p[1]), FAtan2(s2, p[4]), IF FSign(a3) = -1 THEN FAdd(a3, FMul(F(2), FPi)) ELSE a3>>
Around(d) == FMin(FAbs(d), FAbs(FSub(FMul(F(2), FPi), FAbs(d))))
(* a is within half a step of the centre c *)
InBin(a, c, n, tol) ==
    LET h == FAdd(FDiv(BinStep(n), F(2)), tol)
    IN FLeq(FAbs(FSub(a[1], c[1])), h) /\ FLeq(FAbs(FSub(a[2], c[2])), h) /\ FLeq(Around(FSub(a[3], c[3])), h)
(* the rotation of a quaternion, scalar last *)
RotOf(q) ==
    LET x == q[1]  y == q[2]  z == q[3]  w == q[4]
        d(a, b) == FMul(F(2), FAdd(a, b))
        m(a, b) == FMul(a, b)
    IN <<<<FSub(One, d(m(y, y), m(z, z))), d(m(x, y), FNeg(m(z, w))), d(m(x, z), m(y, w))>>,
         <<d(m(x, y), m(z, w)), FSub(One, d(m(x, x), m(z, z))), d(m(y, z), FNeg(m(x, w)))>>,
         <<d(m(x, z), FNeg(m(y, w))), d(m(y, z), m(x, w)), FSub(One, d(m(x, x), m(y, y)))>>>>
(* a quaternion of a rotation: from its largest component *)
QuatOf(U) ==
    LET t == <<FSub(FSub(FAdd(One, U[1][1]), U[2][2]), U[3][3]), FSub(FSub(FAdd(One, U[2][2]), U[1][1]), U[3][3]),
               FSub(FSub(FAdd(One, U[3][3]), U[1][1]), U[2][2]), FAdd(FAdd(FAdd(One, U[1][1]), U[2][2]), U[3][3])>>
        k == CHOOSE j \in 1..4 : \A i \in 1..4 : FLeq(t[i], t[j])
        r == FSqrt(t[k])
        h(v) == FDiv(v, FMul(F(2), r))
        big == FDiv(r, F(2))
        s12 == FAdd(U[1][2], U[2][1])  s13 == FAdd(U[1][3], U[3][1])  s23 == FAdd(U[2][3], U[3][2])
        d32 == FSub(U[3][2], U[2][3])  d13 == FSub(U[1][3], U[3][1])  d21 == FSub(U[2][1], U[1][2])
    IN CASE k = 1 -> <<big, h(s12), h(s13), h(d32)>>
         [] k = 2 -> <<h(s12), big, h(s23), h(d13)>>
         [] k = 3 -> <<h(s13), h(s23), big, h(d21)>>
         [] OTHER -> <<h(d32), h(d13), h(d21), big>>
FromAngles(a) == <<FCos(a[1]), FMul(FMul(FSin(a[1]), FSin(a[2])), FCos(a[3])), FMul(FMul(FSin(a[1]), FSin(a[2])), FSin(a[3])), FMul(FSin(a[1]), FCos(a[2]))>>
(* integral of sin^2 over [lo, hi] *)
Sin2(lo, hi) == FDiv(FSub(FSub(hi, FMul(FSin(hi), FCos(hi))), FSub(lo, FMul(FSin(lo), FCos(lo)))), F(2))
Measure(n, i, j) == LET d == BinStep(n) IN FMul(FMul(Sin2(FMul(F(i), d), FMul(F(i + 1), d)), FSub(FCos(FMul(F(j), d)), FCos(FMul(F(j + 1), d)))), d)
Centre(n, i, j, k) == LET d == BinStep(n)  at(x) == FDiv(FMul(F(2 * x + 1), d), F(2)) IN <<at(i), at(j), at(k)>>
================================================================================
