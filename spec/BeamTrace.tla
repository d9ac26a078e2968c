------------------------------ MODULE BeamTrace ------------------------------
(* Containment in and intersection with the convex hull of the beam (C08).    *)
EXTENDS BeamGeom

(* one face per plane *)
SamePlane(f, g, ext) == VNear(f.n, g.n, F("1e-7")) /\ Near(f.d, g.d, FMul(F("1e-7"), ext))
Distinct(faces, ext) == FoldLeft(LAMBDA acc, f : IF \E j \in 1..Len(acc) : SamePlane(acc[j], f, ext) THEN acc ELSE Append(acc, f), <<>>, faces)
(* the common point of three planes, <<>> if they have none *)
Meet(f, g, h) ==
    LET D == Det(<<f.n, g.n, h.n>>) IN
    IF FLeq(FAbs(D), F("1e-9")) THEN <<>> ELSE <<MV(Inv3(<<f.n, g.n, h.n>>), <<f.d, g.d, h.d>>)>>
(* corners of the intersection of two hulls given by their distinct faces *)
CommonCorners(fa, fb, tol) ==
    LET all == fa \o fb
        N == Len(all)
        tri == SetToSeq({<<a, b, c>> \in (1..N) \X (1..N) \X (1..N) : a < b /\ b < c})
    IN FoldLeft(LAMBDA acc, t : LET p == Meet(all[t[1]], all[t[2]], all[t[3]])
                                IN IF p # <<>> /\ FLeq(Depth(all, p[1]), tol) THEN acc \o p ELSE acc, <<>>, tri)

BeamMarginOf(verts, more) == BeamMargin(FMax(Reached(verts), more))

(* e: verts, pts, inside (booleans) *)
JudgeBeamContains(s, e) ==
    LET v == VecsOf(e.verts)
        faces == TLCEval(HullFaces(v))
        pts == VecsOf(e.pts)
        ok(j) == LET d == Depth(faces, pts[j])
                     m == BeamMargin(FMax(Reached(v), MaxAbs(pts[j])))
                 IN /\ FLt(d, FNeg(m)) => e.inside[j]
                    /\ FLt(m, d) => ~e.inside[j]
    IN Then(Chk("there is an answer per point", Len(e.inside) = Len(pts)),
            Chk("containment is that of the convex hull " \o e.how, \A j \in 1..Len(pts) : ok(j)))

(* e: verts, poly (vertices of a convex polyhedron), none, hull (vertices), vol *)
JudgeBeamIntersect(s, e) ==
    LET v == VecsOf(e.verts)
        w == VecsOf(e.poly)
        size == FAdd(MaxOf([j \in 1..Len(w) |-> Dist(w[j], w[1])]), Zero)
        ext == FAdd(FMax(Reached(v), Reached(w)), Zero)
        fb == TLCEval(Distinct(HullFaces(v), ext))
        fp == TLCEval(Distinct(HullFaces(w), ext))
        tol == FMul(F("1e-20"), ext)
        \* rounding of faces to six decimals, amplified at sharp corners
        m == FMul(F("1e-4"), ext)
        corners == TLCEval(CommonCorners(fp, fb, tol))
        hc == VecsOf(e.hull)
        hf == TLCEval(HullFaces(hc))
        mid == VMean(corners)
        deep == corners # <<>> /\ FLt(Depth(fp \o fb, mid), FNeg(F("2e-4")))
        apart == corners = <<>> /\ CommonCorners(fp, fb, m) = <<>>
    IN IF e.none THEN Chk("a polyhedron that reaches into the beam has a common part with it", ~deep)
       ELSE Then(Chk("the common part has finite corners", e.hull.fin /\ e.hull.sh[1] >= 4),
            Chk("disjoint polyhedra have no common part", ~apart)
            \o (IF ~deep THEN <<>> ELSE
                Chk("the common part lies in the polyhedron and in the beam", \A j \in 1..Len(hc) : FLeq(Depth(fp \o fb, hc[j]), m))
                \o Chk("the common part contains all common points", \A j \in 1..Len(corners) : FLeq(Depth(hf, corners[j]), m))))
==============================================================================
