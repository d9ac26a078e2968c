------------------------------- MODULE BeamGrid -------------------------------
(***************************************************************************)
(* The beam as the convex hull of its vertices.  Two definitions of        *)
(* containment are checked against each other with exact arithmetic: on    *)
(* the inner side of every face plane, and inside a tetrahedron of         *)
(* vertices (Caratheodory).  Emitted: every shape, vertex order class,     *)
(* placement and way of asking.                                            *)
(***************************************************************************)
EXTENDS BeamTrace, Json
CONSTANT Emit
P(a, b, c) == <<F(a), F(b), F(c)>>
Shapes == [box |-> <<P(1, 2, 3), P(-1, 2, 3), P(1, -2, 3), P(-1, -2, 3), P(1, 2, -3), P(-1, 2, -3), P(1, -2, -3), P(-1, -2, -3)>>,
           tet |-> <<P(3, 0, 0), P(-1, 2, 0), P(-1, -2, 1), P(0, 0, -3)>>,
           oct |-> <<P(2, 0, 0), P(-1, 0, 0), P(0, 3, 0), P(0, -2, 0), P(0, 0, 1), P(0, 0, -4)>>,
           prism |-> <<P(3, 0, 4), P(-2, 2, 4), P(-2, -2, 4), P(3, 0, -4), P(-2, 2, -4), P(-2, -2, -4)>>,
           skew |-> <<P(1, 1, 5), P(-1, 1, 5), P(1, -1, 5), P(-1, -1, 5), P(3, 3, -2), P(1, 3, -2), P(3, 1, -2), P(1, 1, -2)>>]
Grid == {<<FQ(a, 2), FQ(b, 2), FQ(c, 2)>> : a \in {-5, -2, 0, 1, 3}, b \in {-4, -1, 0, 2, 5}, c \in {-7, -3, 0, 1, 6}}
VARIABLE q
Init == \E n \in DOMAIN Shapes, o \in {"given", "reversed", "shuffled"}, pl \in {"centred", "aside", "rotated"}, sz \in {"tiny", "unit", "large"},
           w \in {"one", "batch", "replaced", "numpy", "intersect", "clip"} :
          /\ q = [shape |-> n, order |-> o, place |-> pl, size |-> sz, how |-> w]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
V == Shapes[q.shape]
Fs == TLCEval(HullFaces(V))
InTet(t, x) ==
    LET D == Det(<<VSub(t[2], t[1]), VSub(t[3], t[1]), VSub(t[4], t[1])>>)
        c == MV(Inv3(Tr(<<VSub(t[2], t[1]), VSub(t[3], t[1]), VSub(t[4], t[1])>>)), VSub(x, t[1]))
    IN D # Zero /\ FLeq(F("-1e-30"), c[1]) /\ FLeq(F("-1e-30"), c[2]) /\ FLeq(F("-1e-30"), c[3]) /\ FLeq(FAdd(c[1], FAdd(c[2], c[3])), F("1.000000000000000001"))
Tets == LET N == Len(V) IN {<<a, b, c, d>> \in (1..N) \X (1..N) \X (1..N) \X (1..N) : a < b /\ b < c /\ c < d}
Once == q.order = "given" /\ q.place = "centred" /\ q.size = "unit" /\ q.how = "one"
TwoDefinitions == Once => \A x \in Grid :
    LET byFaces == FLeq(Depth(Fs, x), F("1e-25"))
        byTets == \E t \in Tets : InTet(<<V[t[1]], V[t[2]], V[t[3]], V[t[4]]>>, x)
    IN byFaces = byTets
VerticesAreCorners == Once => \A j \in 1..Len(V) : Near(Depth(Fs, V[j]), Zero, F("1e-30"))
(* a hull cut with itself keeps its corners *)
SelfCommon == Once => LET d == Distinct(Fs, F(10)) c == CommonCorners(d, <<>>, F("1e-25")) IN
    /\ \A j \in 1..Len(V) : \E i \in 1..Len(c) : VNear(c[i], V[j], F("1e-25"))
    /\ \A i \in 1..Len(c) : FLeq(Depth(Fs, c[i]), F("1e-25"))
===============================================================================
