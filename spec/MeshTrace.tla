------------------------------ MODULE MeshTrace ------------------------------
(* Judging observed meshes (C02, C03).  A snapshot g holds the public       *)
(* fields of a TetraMesh.                                                   *)
EXTENDS Mesh

MeshShapes(g, nn, ne) ==
    /\ g.coord.sh = <<nn, 3>> /\ g.coord.fin
    /\ g.enod.sh = <<ne, 4>>
    /\ g.ecentroids.sh = <<ne, 3>> /\ g.ecentroids.fin
    /\ g.espherecentroids.sh = <<ne, 3>> /\ g.espherecentroids.fin
    /\ g.eradius.sh = <<ne>> /\ g.eradius.fin
    /\ g.evolumes.sh = <<ne>> /\ g.evolumes.fin
    /\ g.enormals.sh = <<ne, 4, 3>> /\ g.enormals.fin
    /\ g.efaces.sh = <<ne, 4, 3>>
    /\ g.dof.sh = <<nn, 3>>
    /\ g.centroid.sh = <<3>> /\ g.centroid.fin

(* faces and degrees of freedom follow from the numbers of the nodes *)
Numbered(g, nn, enod) ==
    Chk("the faces of an element are its four triples of nodes", \A k \in 1..Len(enod) : FacesOf(enod[k], g.efaces.d[k]))
    \o Chk("every coordinate of every node has its own degree of freedom", \A j \in 1..nn : \A a \in 1..3 : F(g.dof.d[j][a]) = F(3 * (j - 1) + a - 1))
NormalsOk(g, nodes, enod, tol(_)) ==
    \A k \in 1..Len(enod) : \A f \in 1..4 : VNear(V3(g.enormals.d[k][f]), FaceNormal(nodes, enod[k], g.efaces.d[k][f]), tol(k))

Extent(nodes) == LET c == VMean(nodes) IN FAdd(MaxOf(Map(LAMBDA p : MaxAbs(VSub(p, c)), nodes)), F("1e-300"))
Reach(nodes)  == FAdd(MaxOf(Map(LAMBDA p : MaxAbs(p), nodes)), F("1e-300"))

(* The derived fields of snapshot g are those of a mesh with these nodes and elements. *)
DerivedOk(g, nodes, enod) ==
    LET ne == Len(enod)
        P == TLCEval([k \in 1..ne |-> Corners(nodes, enod[k])])
        far == Reach(nodes)
        tol == FMul(T10, far)
        \* relative loss of accuracy of an element: rounding of its corners relative to its thickness
        loss == TLCEval([k \in 1..ne |-> FDiv(FMul(F("1e-13"), far), FMul(Quality(P[k]), MaxSide(P[k])))])
    IN  Chk("element volumes are the positive volumes of the elements",
            \A k \in 1..ne : LET v == TetVolume(P[k]) IN Near(F(g.evolumes.d[k]), v, FMul(v, FAdd(T10, FMul(F(20), loss[k])))))
     \o Chk("element centroids are the means of their nodes",
            \A k \in 1..ne : VNear(V3(g.ecentroids.d[k]), TetCentroid(P[k]), tol))
     \o Chk("face normals are the outward unit normals of their faces",
            NormalsOk(g, nodes, enod, LAMBDA k : FAdd(T10, FMul(F(200), loss[k]))))
     \o Chk("the mesh centroid is the mean of the element centroids",
            VNear(V3(g.centroid.d), VMean(Map(LAMBDA p : TetCentroid(p), P)), tol))
     \o Chk("each element sphere contains its element",
            \A k \in 1..ne : LET c == V3(g.espherecentroids.d[k])  r == F(g.eradius.d[k]) IN
                \A j \in 1..4 : FLeq(Dist(P[k][j], c), FAdd(FMul(r, F("1.0001")), tol)))
     \o Chk("no element sphere is larger than needed",
            \A k \in 1..ne : LET r == F(g.eradius.d[k]) IN
                FLeq(r, FAdd(FMul(SphereBound(P[k]), FAdd(F("1.000101"), FMul(F(50), loss[k]))), tol)))

(* the elements that the statement is about: not flat to rounding *)
NonDegenerate(nodes, enod) == \A k \in 1..Len(enod) : FLt(F("1e-6"), Quality(Corners(nodes, enod[k])))

JudgeMeshNew(s, e) ==
    LET nodes == VecsOf(e.coord) IN
    Then(Chk("the mesh has the fields of its nodes and elements",
             e.g.n = Len(e.enod.d) /\ MeshShapes(e.g, e.coord.sh[1], Len(e.enod.d))),
    Then(Chk("the mesh has the nodes and elements it was made from", e.g.coord.d = e.coord.d /\ e.g.enod.d = e.enod.d)
         \o Numbered(e.g, e.coord.sh[1], e.enod.d),
         IF e.c03 THEN DerivedOk(e.g, nodes, e.enod.d) ELSE <<>>))

(***************************************************************************)
(* The regions that generated meshes are to fill: parts that do not        *)
(* overlap.  Depth: how deep a point lies in a part (negative: outside),   *)
(* at least where that is close to zero; exact but for the ellipsoid,      *)
(* where it is an underestimate of the distance.                           *)
(***************************************************************************)
Depth(g, x) ==
    IF g.k = "capsule" THEN
        LET p == V3(g.p)  w == VSub(V3(g.q), p)
            t == FDiv(Dot(VSub(x, p), w), Dot(w, w))
            u == IF FLt(t, Zero) THEN Zero ELSE IF FLt(One, t) THEN One ELSE t
        IN FSub(F(g.r), Dist(x, VAdd(p, VScale(u, w))))
    ELSE LET d == VSub(x, V3(g.c)) IN
    CASE g.k = "ball" -> FSub(F(g.r), Norm(d))
      [] g.k = "box" -> MinOf([a \in 1..3 |-> FSub(F(g.h[a]), FAbs(d[a]))])
      [] g.k = "ellipsoid" -> FMul(MinOf(V3(g.h)), FSub(One, Norm([a \in 1..3 |-> FDiv(d[a], F(g.h[a]))])))
      [] g.k = "torus" -> LET along == d[g.axis + 1]
                              q == FSub(FSqrt(FAbs(FSub(Dot(d, d), FMul(along, along)))), F(g.r))
                          IN FSub(F(g.s), FSqrt(FAdd(FMul(q, q), FMul(along, along))))
Content(g) ==
    LET cube(x) == FMul(x, FMul(x, x))
        third == FDiv(FMul(F(4), FPi), F(3))
    IN CASE g.k = "ball" -> FMul(third, cube(F(g.r)))
         [] g.k = "box" -> FMul(F(8), FMul(F(g.h[1]), FMul(F(g.h[2]), F(g.h[3]))))
         [] g.k = "ellipsoid" -> FMul(third, FMul(F(g.h[1]), FMul(F(g.h[2]), F(g.h[3]))))
         [] g.k = "torus" -> FMul(FMul(F(2), FMul(FPi, FPi)), FMul(F(g.r), FMul(F(g.s), F(g.s))))
         [] g.k = "capsule" -> FAdd(FMul(third, cube(F(g.r))), FMul(FPi, FMul(FMul(F(g.r), F(g.r)), Dist(V3(g.p), V3(g.q)))))
Fills(e, nodes) ==
    LET eps == FMul(F("0.05"), F(e.rad))
        deepest(x) == MaxOf([j \in 1..Len(e.parts) |-> Depth(e.parts[j], x)])
        full == Sum([j \in 1..Len(e.parts) |-> Content(e.parts[j])])
        vol == Sum([k \in 1..e.g.n |-> TetVolume(Corners(nodes, e.g.enod.d[k]))])
    IN Chk("a generated mesh stays within the region of its level set",
           \A k \in 1..e.g.n : \A j \in 1..4 : FLeq(FNeg(eps), deepest(nodes[e.g.enod.d[k][j] + 1])))
    \o Chk("a generated mesh fills the region of its level set", FLeq(FMul(F("0.92"), full), vol) /\ FLeq(vol, FMul(F("1.02"), full)))
    (* the largest element in a sphere of radius r is the regular one: 8 sqrt 3 / 27 = 0.5132 r^3; flat ones may have larger spheres *)
    \o Chk("the elements of a generated mesh are no larger than asked for",
           \A k \in 1..e.g.n : FLeq(TetVolume(Corners(nodes, e.g.enod.d[k])), FMul(F("0.5133"), FMul(F(e.cell), FMul(F(e.cell), F(e.cell))))))
(* A generated mesh: only its own nodes and elements are known. *)
JudgeMeshMade(s, e) ==
    LET nodes == VecsOf(e.g.coord) IN
    Then(Chk("the mesh has the fields of its nodes and elements",
             e.g.n > 0 /\ MeshShapes(e.g, e.g.coord.sh[1], e.g.n)),
    Then(Chk("elements refer to existing nodes, four different ones each",
             \A k \in 1..e.g.n : \A j \in 1..4 : e.g.enod.d[k][j] \in 0..(Len(nodes) - 1) /\ Cardinality({e.g.enod.d[k][h] : h \in 1..4}) = 4),
    Then(Numbered(e.g, Len(nodes), e.g.enod.d) \o Chk("every element has a positive volume", \A k \in 1..e.g.n : FLt(F("1e-12"), Quality(Corners(nodes, e.g.enod.d[k])))),
         DerivedOk(e.g, nodes, e.g.enod.d) \o Fills(e, nodes))))

MoveOf(e) ==
    CASE e.kind = "translate" -> [k |-> "translate", v |-> V3(e.v.d)]
      [] e.kind = "rotate" -> RotateMove(V3(e.axis.d), F(e.ang))
      [] e.kind = "update" -> [k |-> "update", m |-> MotionOf(e.motion), t |-> F(e.t)]
      [] e.kind = "reload" -> [k |-> "translate", v |-> VZero]

MeshState(e) == [nodes |-> VecsOf(e.coord), enod |-> e.enod.d, sph |-> VecsOf(e.g.espherecentroids), g0 |-> e.g, rot |-> Id3, far |-> Reach(VecsOf(e.coord)), steps |-> 1]
MeshAfter(m, e) ==
    LET mv == MoveOf(e)
        nd == MoveNodes(m.nodes, mv)
    IN [m EXCEPT !.nodes = nd, !.sph = MoveNodes(m.sph, mv), !.rot = TLCEval(MM(MoveRot(mv), m.rot)),
                 !.far = FMax(FMax(m.far, Reach(nd)), IF mv.k = "update" THEN MoveScale(mv.m, nd[1]) ELSE Zero), !.steps = @ + 1]

JudgeMeshMove(s, e) ==
    LET a == MeshAfter(s.mesh, e)
        g == e.g
        g0 == s.mesh.g0
        nn == Len(a.nodes)
        ne == Len(a.enod)
        tol == FMul(FMul(F("1e-12"), a.far), F(a.steps))
    IN Then(Chk("the mesh keeps its numbers of nodes and elements", g.n = ne /\ MeshShapes(g, nn, ne)),
    Then(Numbered(g, nn, a.enod),
        Chk("nodes are the composition of the moves (" \o e.kind \o ")", \A j \in 1..nn : VNear(V3(g.coord.d[j]), a.nodes[j], tol))
        \o Chk("connectivity never changes", g.enod.d = g0.enod.d)
        \o Chk("volumes never change", \A k \in 1..ne : LET v == F(g0.evolumes.d[k]) IN Near(F(g.evolumes.d[k]), v, FMul(v, F("1e-8"))))
        \o Chk("sphere radii never change", \A k \in 1..ne : LET v == F(g0.eradius.d[k]) IN Near(F(g.eradius.d[k]), v, FMul(v, F("1e-8"))))
        \o Chk("element centroids are those of the current nodes (" \o e.kind \o ")",
               \A k \in 1..ne : VNear(V3(g.ecentroids.d[k]), TetCentroid(Corners(a.nodes, a.enod[k])), tol))
        \o Chk("sphere centres move with the nodes (" \o e.kind \o ")",
               \A k \in 1..ne : VNear(V3(g.espherecentroids.d[k]), a.sph[k], FMul(tol, F(1000))))
        \o Chk("face normals are those of the current nodes (" \o e.kind \o ")",
               NormalsOk(g, a.nodes, a.enod, LAMBDA k : T8))
        \o Chk("the mesh centroid is that of the current nodes (" \o e.kind \o ")",
               VNear(V3(g.centroid.d), VMean([k \in 1..ne |-> TetCentroid(Corners(a.nodes, a.enod[k]))]), tol))))
=============================================================================
