-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Tetrahedral meshes: a sequence of node positions and a sequence of      *)
(* elements, each four node numbers (from 0).  The derived geometry of an  *)
(* element is a function of its nodes only.                                *)
(***************************************************************************)
EXTENDS Motion

Corners(nodes, el) == <<nodes[el[1] + 1], nodes[el[2] + 1], nodes[el[3] + 1], nodes[el[4] + 1]>>
(* faces in the order 012, 013, 023, 123, with the number of the remaining corner *)
FaceOf == <<<<1, 2, 3>>, <<1, 2, 4>>, <<1, 3, 4>>, <<2, 3, 4>>>>
RestOf == <<4, 3, 2, 1>>

TetVolume(p)   == FDiv(FAbs(Det(<<VSub(p[2], p[1]), VSub(p[3], p[1]), VSub(p[4], p[1])>>)), F(6))
TetCentroid(p) == VMean(p)
TetNormal(p, f) ==
    LET a == p[FaceOf[f][1]]  b == p[FaceOf[f][2]]  c == p[FaceOf[f][3]]
        n == Unit(Cross(VSub(b, a), VSub(c, a)))
    IN  IF FLt(Dot(n, VSub(p[RestOf[f]], a)), Zero) THEN n ELSE VNeg(n)
(* outward normal of the face with node numbers fc of element el *)
FaceNormal(nodes, el, fc) ==
    LET a == nodes[fc[1] + 1]  b == nodes[fc[2] + 1]  c == nodes[fc[3] + 1]
        o == CHOOSE x \in {el[j] : j \in 1..4} : x \notin {fc[j] : j \in 1..3}
        n == Unit(Cross(VSub(b, a), VSub(c, a)))
    IN  IF FLt(Dot(n, VSub(nodes[o + 1], a)), Zero) THEN n ELSE VNeg(n)
(* fcs: the faces of element el, each once, in any order *)
FacesOf(el, fcs) == {{fcs[f][j] : j \in 1..3} : f \in 1..4} = {{el[j] : j \in FR} : FR \in {{1, 2, 3}, {1, 2, 4}, {1, 3, 4}, {2, 3, 4}}}
Sides(p) == {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>}
SideLen2(p, sd) == Norm2(VSub(p[sd[1]], p[sd[2]]))
MaxSide(p) == FSqrt(FMax(FMax(FMax(SideLen2(p, <<1, 2>>), SideLen2(p, <<1, 3>>)), FMax(SideLen2(p, <<1, 4>>), SideLen2(p, <<2, 3>>))),
                         FMax(SideLen2(p, <<2, 4>>), SideLen2(p, <<3, 4>>))))
(* 1 for well shaped elements, towards zero for flat ones *)
Quality(p) == LET m == MaxSide(p) IN FDiv(FMul(F(6), TetVolume(p)), FMul(m, FMul(m, m)))

(* circumsphere: centre c with |c - p[i]| all equal *)
CircumCentre(p) ==
    LET A == <<VSub(p[2], p[1]), VSub(p[3], p[1]), VSub(p[4], p[1])>>
        b == <<FDiv(Norm2(A[1]), F(2)), FDiv(Norm2(A[2]), F(2)), FDiv(Norm2(A[3]), F(2))>>
    IN VAdd(p[1], MV(Inv3(A), b))
(* circumcentre of a triangle, in its plane *)
TriCentre(a, b, c) ==
    LET u == VSub(b, a)  v == VSub(c, a)  w == Cross(u, v)
    IN VAdd(a, VDiv(VAdd(VScale(Norm2(u), Cross(v, w)), VScale(Norm2(v), Cross(w, u))), FMul(F(2), Norm2(w))))

(* The two most distant corners, provided that they are so by a margin. *)
LongestSides(p) == {sd \in Sides(p) : \A o \in Sides(p) : FLeq(SideLen2(p, o), FMul(SideLen2(p, sd), F("1.000001")))}
SegSphere(p, sd) == LET c == VScale(F("0.5"), VAdd(p[sd[1]], p[sd[2]])) IN [c |-> c, r |-> FDiv(FSqrt(SideLen2(p, sd)), F(2))]
Within(p, sp, margin) == \A j \in 1..4 : FLeq(Dist(p[j], sp.c), FMul(sp.r, margin))

(* A sphere of radius r may be demanded to be no larger than this. *)
SphereBound(p) ==
    LET cc == CircumCentre(p)
        R3 == Dist(cc, p[1])
        ls == LongestSides(p)
    IN  IF Cardinality(ls) # 1 THEN R3
        ELSE LET sd == CHOOSE x \in ls : TRUE
                 s1 == SegSphere(p, sd)
                 others == {1, 2, 3, 4} \ {sd[1], sd[2]}
                 far == {o \in others : \A q \in others : q = o \/ FLt(FMul(Dist(p[q], s1.c), F("1.000001")), Dist(p[o], s1.c))}
             IN  IF Within(p, s1, F("1.00000001")) THEN FMin(R3, s1.r)
                 ELSE IF Cardinality(far) # 1 THEN R3
                 ELSE LET o == CHOOSE x \in far : TRUE
                          c2 == TriCentre(p[sd[1]], p[sd[2]], p[o])
                          s2 == [c |-> c2, r |-> Dist(c2, p[sd[1]])]
                      IN IF Within(p, s2, F("1.00000001")) THEN FMin(R3, s2.r) ELSE R3

(* ---- moves ---- *)
(* A move is [k |-> "translate", v] or [k |-> "update", m, t]. *)
MoveNodes(nodes, mv) ==
    IF mv.k = "translate" THEN TLCEval([j \in 1..Len(nodes) |-> VAdd(nodes[j], mv.v)])
    ELSE LET R == TLCEval(MotionRot(mv.m, mv.t)) IN TLCEval([j \in 1..Len(nodes) |-> MoveBy(mv.m, R, mv.t, nodes[j])])
MoveRot(mv) == IF mv.k = "translate" THEN Id3 ELSE MotionRot(mv.m, mv.t)
RotateMove(axis, ang) == [k |-> "update", m |-> [axis |-> axis, ang |-> ang, tr |-> VZero, org |-> VZero], t |-> One]
=============================================================================
