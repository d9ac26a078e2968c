----------------------------- MODULE PolyHistory -----------------------------
(***************************************************************************)
(* A polycrystal under histories of transforms and diffractions.  The      *)
(* design keeps the lattice matrices B of the crystal frame from the       *)
(* construction and rotates only orientations and lab strains.  Checked    *)
(* with exact arithmetic: B stays the one a polycrystal constructed        *)
(* directly in the moved state would have, lab strain and orientation      *)
(* describe the same crystal, the sample state never moves, diffraction    *)
(* changes nothing, and the scattering vectors rotate rigidly.  A second   *)
(* polycrystal made from the same mesh, orientations, strains and phases,  *)
(* and that mesh itself, follow only their own moves.                      *)
(***************************************************************************)
EXTENDS Crystal, Json

CONSTANTS Depth, Emit

Cell == <<F(3), F("3.5"), F(4), F(80), F(95), F(100)>>
B0   == B0Of(Cell)
U0   == RotMat(<<FQ(2, 3), FQ(-1, 3), FQ(2, 3)>>, F("0.7"))
E0   == <<<<F("0.05"), F("0.01"), F("-0.02")>>, <<F("0.01"), F("-0.04"), F("0.03")>>, <<F("-0.02"), F("0.03"), F("0.02")>>>>
X0   == <<F(3), F(-1), F(2)>>
Hkl  == <<F(1), F(-2), F(1)>>
Mot(n) == CASE n \in {"a0", "aMid", "a1"} -> [axis |-> <<Zero, Zero, One>>, ang |-> F(2), tr |-> <<One, F(-2), FQ(1, 2)>>, org |-> VZero]
            [] OTHER -> [axis |-> <<FQ(3, 5), Zero, FQ(-4, 5)>>, ang |-> FQ(1, 2), tr |-> VZero, org |-> <<F(7), One, Zero>>]
Tim(n) == CASE n = "a0" -> Zero [] n = "aMid" -> FQ(2, 5) [] n = "a1" -> One [] OTHER -> FQ(1, 3)
Moves == {"a0", "aMid", "a1", "b"}

VARIABLES x, U, E, B, smp, hist, twin, mesh
vars == <<x, U, E, B, smp, hist, twin, mesh>>

Sample0 == [x |-> X0, U |-> U0, E |-> E0]
Init == x = X0 /\ U = U0 /\ E = E0 /\ B = StrainedB(U0, E0, B0) /\ smp = Sample0 /\ hist = <<>> /\ twin = Sample0 /\ mesh = X0
Log(n) == hist' = Append(hist, n) /\ ((Emit /\ Len(hist) + 1 = Depth) => PrintT("@@CASE " \o ToJson([hist |-> hist'])))
Transform(n) ==
    LET R == TLCEval(MotionRot(Mot(n), Tim(n))) IN
    /\ x' = Move(Mot(n), Tim(n), x) /\ U' = MM(R, U) /\ E' = MM(R, MM(E, Tr(R)))
    /\ UNCHANGED <<B, smp, twin, mesh>> /\ Log(n)
Diffract == UNCHANGED <<x, U, E, B, smp, twin, mesh>> /\ Log("diffract")
(* the second polycrystal is transformed (and diffracts) *)
TwinMotion == [axis |-> <<Zero, FQ(5, 13), FQ(12, 13)>>, ang |-> FQ(3, 2), tr |-> <<F(-1), F(4), One>>, org |-> <<One, One, F(-3)>>]
TwinMoved(w) == LET R == TLCEval(MotionRot(TwinMotion, FQ(3, 4))) IN
    [x |-> Move(TwinMotion, FQ(3, 4), w.x), U |-> MM(R, w.U), E |-> MM(R, MM(w.E, Tr(R)))]
Twin == twin' = TwinMoved(twin) /\ UNCHANGED <<x, U, E, B, smp, mesh>> /\ Log("twin")
(* the mesh that both were made from is moved *)
Shift == <<F(2), F(-1), FQ(1, 4)>>
MoveMesh == mesh' = VAdd(mesh, Shift) /\ UNCHANGED <<x, U, E, B, smp, twin>> /\ Log("mesh")
Next == Len(hist) < Depth /\ (Diffract \/ Twin \/ MoveMesh \/ \E n \in Moves : Transform(n))
Spec == Init /\ [][Next]_vars

Tol == F("1e-35")
KeptLattice == MNear(B, StrainedB(U, E, B0), Tol)
SampleKept == smp = Sample0
ProperOrientation == IsRot(U, Tol)
SameCrystal == MNear(MM(Tr(U), MM(E, U)), MM(Tr(U0), MM(E0, U0)), Tol)
(* the total rotation of the history carries the scattering vector along *)
Total == FoldLeft(LAMBDA R, n : IF n \notin Moves THEN R ELSE MM(MotionRot(Mot(n), Tim(n)), R), Id3, hist)
Rigid == /\ MNear(U, MM(Total, U0), Tol)
         /\ VNear(MV(U, MV(B, Hkl)), MV(Total, MV(U0, MV(B, Hkl))), Tol)
(* everyone follows its own moves: the histories restricted to them *)
Own(S) == SelectSeq(hist, LAMBDA n : n \in S)
FollowsOwn == /\ x = FoldLeft(LAMBDA p, n : Move(Mot(n), Tim(n), p), X0, Own(Moves))
              /\ twin = FoldLeft(LAMBDA w, n : TwinMoved(w), Sample0, Own({"twin"}))
              /\ mesh = FoldLeft(LAMBDA p, n : VAdd(p, Shift), X0, Own({"mesh"}))
Sym == MNear(E, Tr(E), Tol)
==============================================================================
