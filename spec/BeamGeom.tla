------------------------------ MODULE BeamGeom ------------------------------
(* Convex hulls of a few points as the intersection of their face planes.    *)
EXTENDS Motion

(* The faces of the hull of v: outward unit normal n and offset d, inside is n.x < d. *)
HullFaces(v) ==
    LET N == Len(v)
        ext == MaxOf([j \in 1..N |-> Dist(v[j], v[1])])
        eps == FMul(F("1e-9"), ext)
        plane(a, b, c) ==
            LET w == Cross(VSub(v[b], v[a]), VSub(v[c], v[a])) IN
            IF FLeq(Norm(w), FMul(F("1e-9"), FMul(ext, ext))) THEN <<>>
            ELSE LET n == Unit(w)
                     d == Dot(n, v[a])
                     s == [j \in 1..N |-> FSub(Dot(n, v[j]), d)]
                 IN IF \A j \in 1..N : FLeq(s[j], eps) THEN <<[n |-> n, d |-> d]>>
                    ELSE IF \A j \in 1..N : FLeq(FNeg(eps), s[j]) THEN <<[n |-> VNeg(n), d |-> FNeg(d)]>>
                    ELSE <<>>
        tri == {<<a, b, c>> \in (1..N) \X (1..N) \X (1..N) : a < b /\ b < c}
        all == FoldLeft(LAMBDA acc, x : acc \o plane(x[1], x[2], x[3]), <<>>, SetToSeq(tri))
    IN all
Reached(v) == FAdd(MaxOf([j \in 1..Len(v) |-> MaxAbs(v[j])]), One)
(* largest signed distance to a face: negative inside *)
Depth(faces, p) == MaxOf([j \in 1..Len(faces) |-> FSub(Dot(faces[j].n, p), faces[j].d)])
BeamMargin(reach) == FMul(F("4e-6"), reach)
=============================================================================
