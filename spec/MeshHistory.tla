----------------------------- MODULE MeshHistory -----------------------------
(***************************************************************************)
(* A mesh and its caches under histories of moves.  The design keeps the   *)
(* derived geometry (centroids, spheres, normals) next to the nodes and    *)
(* moves them along instead of recomputing them; a reload recomputes them. *)
(* Checked exhaustively with exact arithmetic to Depth moves; every        *)
(* maximal history is emitted as a test of the implementation.             *)
(***************************************************************************)
EXTENDS Mesh, Json

CONSTANTS Depth, Emit

Nodes0 == <<<<Zero, Zero, Zero>>, <<F(4), Zero, Zero>>, <<One, F(3), Zero>>, <<One, One, F(5)>>, <<F(5), F(4), F(3)>>>>
Enod0  == <<<<0, 1, 2, 3>>, <<4, 2, 1, 3>>>>
Ax     == <<FQ(3, 5), Zero, FQ(4, 5)>>
Mot    == [axis |-> <<Zero, Zero, One>>, ang |-> F(2), tr |-> <<One, F(-2), FQ(1, 2)>>, org |-> <<F(7), One, Zero>>]
Names  == {"translate", "rotate", "update0", "updateMid", "update1", "reload"}
Effect(n) ==
    CASE n = "translate" -> [k |-> "translate", v |-> <<F(2), F(-1), FQ(1, 3)>>]
      [] n = "rotate" -> RotateMove(Ax, FQ(7, 5))
      [] n = "update0" -> [k |-> "update", m |-> Mot, t |-> Zero]
      [] n = "updateMid" -> [k |-> "update", m |-> Mot, t |-> FQ(2, 5)]
      [] n = "update1" -> [k |-> "update", m |-> Mot, t |-> One]
      [] n = "reload" -> [k |-> "translate", v |-> VZero]

VARIABLES nodes, cen, sph, nrm, hist
vars == <<nodes, cen, sph, nrm, hist>>

ElemCen(nd) == TLCEval([k \in 1..Len(Enod0) |-> TetCentroid(Corners(nd, Enod0[k]))])
ElemSph(nd) == TLCEval([k \in 1..Len(Enod0) |-> CircumCentre(Corners(nd, Enod0[k]))])
ElemNrm(nd) == TLCEval([k \in 1..Len(Enod0) |-> [f \in 1..4 |-> TetNormal(Corners(nd, Enod0[k]), f)]])

Init == /\ nodes = Nodes0 /\ cen = ElemCen(Nodes0) /\ sph = ElemSph(Nodes0) /\ nrm = ElemNrm(Nodes0) /\ hist = <<>>
Do(n) ==
    LET mv == Effect(n)
        R == TLCEval(MoveRot(mv))
    IN  /\ nodes' = MoveNodes(nodes, mv)
        /\ IF n = "reload"
           THEN cen' = ElemCen(nodes) /\ sph' = ElemSph(nodes) /\ nrm' = ElemNrm(nodes)
           ELSE /\ cen' = MoveNodes(cen, mv)
                /\ sph' = MoveNodes(sph, mv)
                /\ nrm' = TLCEval([k \in 1..Len(Enod0) |-> TLCEval([f \in 1..4 |-> MV(R, nrm[k][f])])])
        /\ hist' = Append(hist, n)
        /\ (Emit /\ Len(hist) + 1 = Depth) => PrintT("@@CASE " \o ToJson([hist |-> hist']))
Next == Len(hist) < Depth /\ \E n \in Names : Do(n)
Spec == Init /\ [][Next]_vars

Tol == F("1e-30")
CachesAgree ==
    /\ \A k \in 1..Len(Enod0) :
        /\ VNear(cen[k], TetCentroid(Corners(nodes, Enod0[k])), Tol)
        /\ VNear(sph[k], CircumCentre(Corners(nodes, Enod0[k])), Tol)
        /\ \A f \in 1..4 : VNear(nrm[k][f], TetNormal(Corners(nodes, Enod0[k]), f), Tol)
Rigid == \A k \in 1..Len(Enod0) :
            /\ Near(TetVolume(Corners(nodes, Enod0[k])), TetVolume(Corners(Nodes0, Enod0[k])), Tol)
            /\ Near(Dist(nodes[1], nodes[5]), Dist(Nodes0[1], Nodes0[5]), Tol)
(* the nodes are determined by the moves alone: composing the history again gives them *)
Composed == \A j \in 1..Len(Nodes0) : VNear(nodes[j], FoldLeft(LAMBDA nd, n : MoveNodes(nd, Effect(n)), Nodes0, hist)[j], Tol)
==============================================================================
