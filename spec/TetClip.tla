-------------------------------- MODULE TetClip --------------------------------
(***************************************************************************)
(* Cutting crystals by the faces of the beam (C13).  For tetrahedra and    *)
(* planes of a grid: the two sides of a cut make up the whole, order of    *)
(* cuts does not matter, parts lie on their side, and the shadow moments   *)
(* of a body are those of its parts.  The states are the cases executed.   *)
(***************************************************************************)
EXTENDS Render, Json
CONSTANTS Emit, More
VARIABLE q
P == {0, 1, 2}
Corner == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>
Normals == {<<1, 0, 0>>, <<0, -1, 0>>, <<1, 1, 1>>, <<1, -1, 0>>, <<-2, 1, 3>>} \cup (IF More THEN {<<0, 0, 1>>, <<3, -1, 2>>, <<1, 2, -1>>} ELSE {})
(* the offset of the plane in quarters of the way along its normal *)
Init == \E n \in Normals, o \in -2..9, m \in Normals, p \in {1, 3, 5} :
          /\ q = [n |-> n, o |-> o, m |-> m, p |-> p]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Vec3(a) == <<F(a[1]), F(a[2]), F(a[3])>>
T == <<Vec3(Corner[1]), Vec3(Corner[2]), Vec3(Corner[3]), Vec3(Corner[4])>>
Plane(n, o) == [n |-> Vec3(n), d |-> FQ(o, 4)]
Other(f) == [n |-> VNeg(f.n), d |-> FNeg(f.d)]
A == Plane(q.n, q.o)
B == Plane(q.m, q.p)
Tiny == F("1e-30")
Whole == TetVol(T)
SidesAdd == Near(FAdd(BodyVol(ClipAll(<<T>>, <<A>>)), BodyVol(ClipAll(<<T>>, <<Other(A)>>))), Whole, Tiny)
FourAdd == Near(Sum(<<BodyVol(ClipAll(<<T>>, <<A, B>>)), BodyVol(ClipAll(<<T>>, <<A, Other(B)>>)), BodyVol(ClipAll(<<T>>, <<Other(A), B>>)), BodyVol(ClipAll(<<T>>, <<Other(A), Other(B)>>))>>), Whole, Tiny)
Commute == Near(BodyVol(ClipAll(<<T>>, <<A, B>>)), BodyVol(ClipAll(<<T>>, <<B, A>>)), Tiny)
OnSide == LET b == ClipAll(<<T>>, <<A, B>>) IN
          \A j \in 1..Len(b) : \A c \in 1..4 : FLeq(Dot(A.n, b[j][c]), FAdd(A.d, Tiny)) /\ FLeq(Dot(B.n, b[j][c]), FAdd(B.d, Tiny))
Again == Near(BodyVol(ClipAll(<<T>>, <<A, A>>)), BodyVol(ClipAll(<<T>>, <<A>>)), Tiny)
(* a detector across x: shadows along x of the parts have the centre of the whole as their mean *)
D == [c0 |-> <<F(10), F(-5), F(-5)>>, z |-> <<Zero, Zero, One>>, y |-> <<Zero, One, Zero>>, n |-> <<F(-1), Zero, Zero>>, pz |-> FQ(1, 2), py |-> One]
K == <<F(1), FQ(1, 5), FQ(-1, 7)>>
ShadowAdds ==
    LET a == ClipAll(<<T>>, <<A>>)  b == ClipAll(<<T>>, <<Other(A)>>) IN
    (a # <<>> /\ b # <<>>) =>
        LET s == ShadowOf(D, K, <<T>>)  sa == ShadowOf(D, K, a)  sb == ShadowOf(D, K, b)
            mean(x, y) == FDiv(FAdd(FMul(sa.v, x), FMul(sb.v, y)), Whole)
        IN /\ Near(mean(sa.z, sb.z), s.z, Tiny) /\ Near(mean(sa.y, sb.y), s.y, Tiny)
           /\ Near(mean(FAdd(sa.zz, FMul(FSub(sa.z, s.z), FSub(sa.z, s.z))), FAdd(sb.zz, FMul(FSub(sb.z, s.z), FSub(sb.z, s.z)))), s.zz, Tiny)
           /\ Near(mean(FAdd(sa.zy, FMul(FSub(sa.z, s.z), FSub(sa.y, s.y))), FAdd(sb.zy, FMul(FSub(sb.z, s.z), FSub(sb.y, s.y)))), s.zy, Tiny)
           /\ FLeq(s.zlo, sa.zlo) /\ FLeq(sa.zhi, s.zhi)
================================================================================
