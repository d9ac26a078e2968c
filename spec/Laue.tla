-------------------------------- MODULE Laue --------------------------------
(***************************************************************************)
(* When a rotating scattering vector meets the Ewald sphere.               *)
(*   |k + R(phi) G| = |k|   iff   c0 + c1 cos phi + c2 sin phi = 0.        *)
(***************************************************************************)
EXTENDS Motion

VM(v, m) == MV(Tr(m), v)
LaueFactors(k, axis) == LET K == Skew(axis) IN [k |-> k, kK |-> VM(k, K), kK2 |-> VM(k, MM(K, K))]
LaueCoef(lf, G) ==
    LET g2 == Dot(lf.kK2, G) IN
    [c0 |-> FAdd(FAdd(Dot(lf.k, G), g2), FDiv(Norm2(G), F(2))), c1 |-> FNeg(g2), c2 |-> Dot(lf.kK, G)]
LaueResidual(k, G) == FAdd(Dot(k, G), FDiv(Norm2(G), F(2)))      \* zero iff |k+G| = |k|

LEps == F("1e-9")
Wrap(phi) == LET tp == FMul(F(2), FPi) IN FSub(phi, FMul(tp, F(FFloor(FDiv(phi, tp)))))
(* angles in [0, 2 pi) at which c0 + c1 cos + c2 sin vanishes; amplitude A *)
Angles(c, A) == LET p0 == FAtan2(c.c2, c.c1)
                    d == FAcos(FNeg(FDiv(c.c0, A)))
                IN <<Wrap(FAdd(p0, d)), Wrap(FSub(p0, d))>>
(* Solution times in [0,1] for the rotation angle ang: sequence of [t, firm].  firm = FALSE marks
   solutions whose existence or membership in [0,1] is a matter of rounding.                     *)
TimesOf(c, ang) ==
    LET A2 == FAdd(FMul(c.c1, c.c1), FMul(c.c2, c.c2))
        A == FSqrt(A2)
        gap == FSub(A, FAbs(c.c0))
    IN IF FLeq(gap, FMul(FNeg(LEps), A)) \/ FLeq(A, F("1e-14")) THEN <<>>       \* no solutions
       ELSE LET tangent == FLeq(FAbs(gap), FMul(LEps, A))
                lim == IF FLeq(gap, Zero) THEN [c EXCEPT !.c0 = FMul(F(FSign(c.c0)), A)] ELSE c
                one(phi) ==
                    LET full == FMul(F(2), FPi)
                        low == IF FLt(FSub(full, LEps), phi) THEN FSub(phi, full) ELSE phi   \* just below zero
                    IN IF FLt(FAdd(ang, LEps), low) THEN <<>>
                       ELSE <<[t |-> FDiv(low, ang), firm |-> ~tangent /\ FLt(LEps, low) /\ FLt(low, FSub(ang, LEps))]>>
                a == Angles(lim, A)
            IN one(a[1]) \o one(a[2])
=============================================================================
