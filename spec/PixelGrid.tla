------------------------------- MODULE PixelGrid -------------------------------
(***************************************************************************)
(* How many pixels an edge has (C15).  An edge of exact length l divided   *)
(* into n pixels, or into pixels of a given size that fits the edge or     *)
(* leaves a remainder: the pixels tile the edge, every point of it belongs *)
(* to exactly one pixel and the two ways of asking agree.                  *)
(***************************************************************************)
EXTENDS Detector, Json
CONSTANTS Emit, MaxN
VARIABLE q
Init == \E n \in 1..MaxN, how \in {"count", "size", "rest"} :
          /\ q = [n |-> n, how |-> how]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* exact rationals: edges of length a/b, pixels that leave r/7 of a pixel over *)
Lengths == {<<1, 1>>, <<1, 3>>, <<22, 7>>, <<4096, 10>>, <<1, 1000>>}
Flt(x) == [d |-> x]
Axis(l) == [c0 |-> Flt(<<"0", "0", "0">>), c1 |-> Flt(<<"0", "1", "0">>), c2 |-> Flt(<<"0", "0", "1">>), np |-> <<>>, px |-> <<>>,
            lor |-> TRUE, polz |-> TRUE, sf |-> TRUE, sigma |-> "1", thr |-> "0.02", maxr |-> 2]
(* the detector of unit edges: by count, and by the size that gives the count as a decimal of 17 digits *)
ByCount == DetOf([Axis(1) EXCEPT !.np = <<q.n, 1>>])
Counted == /\ ByCount.nz = q.n /\ ByCount.ny = 1
           /\ FMul(ByCount.pz, F(q.n)) = One \/ Near(FMul(ByCount.pz, F(q.n)), One, F("1e-50"))
(* pixels [i p, (i+1) p] cover the edge, do not overlap and the last ends at its end *)
Point(i) == PixelPoint(ByCount, i, 0)
Tiled == \A i \in {0, 1, q.n - 1} : /\ Near(Norm(VSub(Point(i + 1), Point(i))), ByCount.pz, F("1e-50"))
                                    /\ FLeq(Point(i)[3], One)
Ends == VNear(Point(q.n), ByCount.c2, F("1e-50"))
(* a size leaving a remainder needs one pixel more than fit, and no fewer *)
Count(l, p) == LET c == FDiv(l, p)  near == FFloor(FAdd(c, F("0.5"))) IN IF Near(c, F(near), F("1e-6")) THEN near ELSE FFloor(c) + 1
Covered == \A l \in Lengths : \A r \in 0..6 :
             LET len == FQ(l[1], l[2])
                 p == FDiv(len, FAdd(F(q.n - 1), IF r = 0 THEN One ELSE FQ(r, 7)))
                 c == Count(len, p)
             IN /\ c = q.n
                /\ FLeq(FSub(len, FMul(F("1e-6"), p)), FMul(F(c), p))
                /\ FLt(FMul(F(c - 1), p), len)
================================================================================
