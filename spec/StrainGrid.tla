------------------------------ MODULE StrainGrid ------------------------------
(***************************************************************************)
(* The strain to lattice conversion over a grid of strains that reaches    *)
(* far beyond small deformations and over the edge where cells invert.     *)
(* Checked with exact arithmetic: B is the triangular factor that the      *)
(* documentation describes and converts back to the strain; feasibility    *)
(* (Cholesky pivots) agrees with the sign of the determinants.             *)
(***************************************************************************)
EXTENDS StrainTrace, Json
CONSTANTS Emit, Values
Us == <<Id3, RotMat(<<FQ(2, 3), FQ(-1, 3), FQ(2, 3)>>, F("0.7")), RotMat(<<FQ(3, 5), Zero, FQ(-4, 5)>>, F("2.5"))>>
B0g == B0Of(<<F(3), F("3.5"), F(4), F(80), F(95), F(100)>>)
VARIABLE q     \* 100 + hundredths: e11 e12 e13 e22 e23 e33
Emat == LET v(j) == FQ(q[j] - 100, 100) IN <<<<v(1), v(2), v(3)>>, <<v(2), v(4), v(5)>>, <<v(3), v(5), v(6)>>>>
Feas == Feasible(Id3, Emat)
Init == \E a \in [1..6 -> Values] : q = a /\ (Emit => PrintT("@@CASE " \o ToJson([e |-> [j \in 1..6 |-> a[j] - 100]])))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Tol == F("1e-30")
Upper(B) == B[2][1] = Zero /\ B[3][1] = Zero /\ B[3][2] = Zero /\ FLt(Zero, B[1][1]) /\ FLt(Zero, B[2][2]) /\ FLt(Zero, B[3][3])
RoundTrip == Feas = "yes" => \A j \in 1..3 :
    LET E == MM(Us[j], MM(Emat, Tr(Us[j])))   \* the same crystal strain in another orientation
        B == TLCEval(StrainedB(Us[j], E, B0g))
    IN Upper(B) /\ MNear(StrainOf(B, B0g), Emat, Tol) /\ MNear(B, StrainedB(Id3, Emat, B0g), Tol)
NoStrain == (\A j \in 1..6 : q[j] = 100) => MNear(StrainedB(Id3, Emat, B0g), B0g, Tol)
(* an inverted or flattened cell has a direction that does not keep a positive length *)
Inverted == Feas = "no" => LET M == StrainMetric(Id3, Emat) IN
    \/ FLeq(M[1][1], Zero) \/ FLeq(FSub(FMul(M[1][1], M[2][2]), FMul(M[1][2], M[1][2])), Zero) \/ FLeq(Det(M), Zero)
(* feasibility does not depend on the orientation *)
SameEverywhere == \A j \in 1..3 : Feas # "either" => Feasible(Us[j], MM(Us[j], MM(Emat, Tr(Us[j])))) \in {Feas, "either"}
===============================================================================
