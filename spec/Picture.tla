------------------------------ MODULE Picture ------------------------------
(***************************************************************************)
(* What the picture (.xdmf) of a sample shows of its orientations: Bunge   *)
(* Euler angles, and the angles to the mean orientation, which is the      *)
(* rotation closest to all orientations in the mean square sense.          *)
(***************************************************************************)
EXTENDS Vec
Rad(x) == FDiv(FMul(x, FPi), F(180))
RotZ(a) == <<<<FCos(a), FNeg(FSin(a)), Zero>>, <<FSin(a), FCos(a), Zero>>, <<Zero, Zero, One>>>>
RotX(a) == <<<<One, Zero, Zero>>, <<Zero, FCos(a), FNeg(FSin(a))>>, <<Zero, FSin(a), FCos(a)>>>>
RotY(a) == <<<<FCos(a), Zero, FSin(a)>>, <<Zero, One, Zero>>, <<FNeg(FSin(a)), Zero, FCos(a)>>>>
(* the orientation with these Bunge angles, in radians *)
Bunge(p1, P, p2) == MM(RotZ(p1), MM(RotX(P), RotZ(p2)))
CosBetween(A, B) == LET D == MM(A, Tr(B)) IN FDiv(FSub(FAdd(D[1][1], FAdd(D[2][2], D[3][3])), One), F(2))
(* the sine of the angle between two rotations, from the skew part of the difference *)
SinBetween(A, B) == LET D == MM(A, Tr(B)) IN FDiv(Norm(<<FSub(D[3][2], D[2][3]), FSub(D[1][3], D[3][1]), FSub(D[2][1], D[1][2])>>), F(2))
MeanMatrix(Us) == LET n == F(Len(Us)) S == FoldLeft(LAMBDA acc, U : MAdd(acc, U), <<VZero, VZero, VZero>>, Us) IN MScale(FDiv(One, n), S)
(* the mean is far from being ambiguous *)
MeanFirm(Us) == FLt(FQ(1, 20), Det(MeanMatrix(Us)))
(* the closest rotation is the orthogonal polar factor, by Newton's iteration *)
MeanRotation(Us) == FoldLeft(LAMBDA X, k : TLCEval(MScale(FQ(1, 2), MAdd(X, Tr(Inv3(X))))), MeanMatrix(Us), [k \in 1..14 |-> k])
IsAngleBetween(a, A, B, tol) == Near(FCos(a), CosBetween(A, B), tol) /\ Near(FAbs(FSin(a)), SinBetween(A, B), tol) /\ FLeq(FNeg(tol), a) /\ FLeq(a, FAdd(FPi, tol))
=============================================================================
