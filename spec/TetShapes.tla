------------------------------ MODULE TetShapes ------------------------------
(***************************************************************************)
(* All tetrahedra on a small asymmetric grid of points, with the geometry  *)
(* the specification derives from them; its theorems are checked exactly   *)
(* and every tetrahedron is emitted as a case.                             *)
(***************************************************************************)
EXTENDS Mesh, Json
CONSTANT Emit
Grid == <<<<0,0,0>>, <<4,0,0>>, <<0,3,0>>, <<4,3,0>>, <<0,0,2>>, <<4,0,2>>, <<1,3,2>>, <<2,1,5>>, <<1,1,1>>, <<9,1,0>>, <<2,2,-1>>>>
Pt(k) == <<F(Grid[k][1]), F(Grid[k][2]), F(Grid[k][3])>>
VARIABLE q
P(x) == <<Pt(x[1]), Pt(x[2]), Pt(x[3]), Pt(x[4])>>
Init == \E a, b, c, d \in 1..Len(Grid) :
          /\ a < b /\ b < c /\ c < d
          /\ FLt(F("1e-9"), TetVolume(P(<<a, b, c, d>>)))
          /\ q = <<a, b, c, d>>
          /\ Emit => PrintT("@@CASE " \o ToJson([p |-> [j \in 1..4 |-> Grid[q[j]]]]))
Next == \E x, y \in 1..4 : x < y /\ q' = [q EXCEPT ![x] = q[y], ![y] = q[x]]   \* every node order
Spec == Init /\ [][Next]_q
Tol == F("1e-30")
Area2(p, f) == Norm(Cross(VSub(p[FaceOf[f][2]], p[FaceOf[f][1]]), VSub(p[FaceOf[f][3]], p[FaceOf[f][1]])))
(* outward normals weighted by area close the surface, and give the volume *)
Closed == LET p == P(q) IN VNear(VSum([f \in 1..4 |-> VScale(Area2(p, f), TetNormal(p, f))]), VZero, Tol)
VolumeByFlux == LET p == P(q) IN
    Near(Sum([f \in 1..4 |-> FMul(FDiv(Area2(p, f), F(6)), Dot(TetNormal(p, f), p[FaceOf[f][1]]))]), TetVolume(p), Tol)
(* the bound demanded of spheres is attainable: some sphere within it contains the element, and none can beat half the longest side *)
BoundSound == LET p == P(q) b == SphereBound(p) IN FLeq(FDiv(MaxSide(p), F("2.0001")), b)
CircumEqual == LET p == P(q) c == CircumCentre(p) IN \A j \in 2..4 : Near(Dist(c, p[j]), Dist(c, p[1]), Tol)
Sorted == [j \in 1..4 |-> LET S == {q[k] : k \in 1..4} IN CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
OrderFree == LET p == P(q) o == P(Sorted) IN TetVolume(p) = TetVolume(o) /\ Near(SphereBound(p), SphereBound(o), Tol) /\ VNear(TetCentroid(p), TetCentroid(o), Tol)
==============================================================================
