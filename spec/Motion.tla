------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* Rigid body motions.  A motion is [axis, ang, tr, org]; at time t it     *)
(* rotates by t*ang about axis through org and then translates by t*tr.    *)
(***************************************************************************)
EXTENDS Vec

Skew(a) == <<<<Zero, FNeg(a[3]), a[2]>>, <<a[3], Zero, FNeg(a[1])>>, <<FNeg(a[2]), a[1], Zero>>>>
RotMat(axis, phi) ==
    LET K == Skew(axis) IN
    MAdd(Id3, MAdd(MScale(FSin(phi), K), MScale(FSub(One, FCos(phi)), MM(K, K))))

MotionRot(m, t)  == RotMat(m.axis, FMul(m.ang, t))
MoveBy(m, R, t, x)  == VAdd(VAdd(MV(R, VSub(x, m.org)), m.org), VScale(t, m.tr))
Move(m, t, x)    == MoveBy(m, MotionRot(m, t), t, x)
InverseOf(m)     == [axis |-> VNeg(m.axis), ang |-> m.ang, tr |-> VNeg(m.tr), org |-> m.org]
NoMotion         == [axis |-> <<Zero, Zero, One>>, ang |-> Zero, tr |-> VZero, org |-> VZero]

(* The magnitude that rounding errors of a moved point are relative to. *)
MoveScale(m, x)  == FAdd(FAdd(MaxAbs(x), MaxAbs(m.org)), FAdd(MaxAbs(m.tr), T9))

(* A motion as recorded in a trace. *)
MotionOf(r) == [axis |-> V3(r.axis.d), ang |-> F(r.ang), tr |-> V3(r.tr.d), org |-> V3(r.org.d)]
=============================================================================
