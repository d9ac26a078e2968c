-------------------------------- MODULE DetHits --------------------------------
(***************************************************************************)
(* Where rays meet a detector (C09), over detectors in all placements and  *)
(* rays to chosen places of their plane, with exact arithmetic: the hit is *)
(* the place aimed at, whatever the length of the ray, forwards only;      *)
(* moving everything together changes nothing, and swapping the two edges  *)
(* swaps the coordinates.  The states are the rays that are executed.      *)
(***************************************************************************)
EXTENDS Detector, Json
CONSTANT Emit
RotA == <<<<FQ(3, 5), FQ(-4, 5), Zero>>, <<FQ(4, 5), FQ(3, 5), Zero>>, <<Zero, Zero, One>>>>
RotB == <<<<FQ(1, 3), FQ(2, 3), FQ(2, 3)>>, <<FQ(2, 3), FQ(1, 3), FQ(-2, 3)>>, <<FQ(-2, 3), FQ(2, 3), FQ(-1, 3)>>>>
Placements == [front |-> Id3, turned |-> RotA, tilted |-> RotB, behind |-> <<<<F(-1), Zero, Zero>>, <<Zero, F(-1), Zero>>, <<Zero, Zero, One>>>>]
(* along an edge of length 1: outside, just outside, at, just inside, middle ... in thousandths *)
Along == {-700, -1, 1, 0, 500, 999, 1000, 1001, 1800}
VARIABLE q
Init == \E p \in DOMAIN Placements, fl \in BOOLEAN, a \in Along, b \in Along, w \in {"forward", "backward"}, so \in {"origin", "near", "far"}, c \in {"square", "wide"} :
          /\ q = [place |-> p, flip |-> fl, a |-> a, b |-> b, way |-> w, src |-> so, shape |-> c]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Src == CASE q.src = "origin" -> VZero [] q.src = "near" -> <<FQ(1, 2), FQ(-1, 3), FQ(1, 5)>> [] q.src = "far" -> <<F(-20), F(7), F(5)>>
Frame(fl) ==
    LET M == Placements[q.place]
        Zl == IF q.shape = "square" THEN F(40) ELSE F(16)
        Yl == F(40)
        c0 == MV(M, <<F(100), FNeg(F(15)), FNeg(F(12))>>)
        c1 == MV(M, <<F(100), FSub(Yl, F(15)), FNeg(F(12))>>)
        c2 == MV(M, <<F(100), FNeg(F(15)), FSub(Zl, F(12))>>)
        a == IF fl THEN c2 ELSE c1
        b == IF fl THEN c1 ELSE c2
    IN [c0 |-> c0, c1 |-> a, c2 |-> b, zl |-> IF fl THEN Yl ELSE Zl, yl |-> IF fl THEN Zl ELSE Yl,
        z |-> Unit(VSub(b, c0)), y |-> Unit(VSub(a, c0)), n |-> Unit(Cross(VSub(b, c0), VSub(a, c0)))]
D == Frame(q.flip)
Aim(d) == VAdd(d.c0, VAdd(VScale(FMul(FQ(q.a, 1000), d.zl), d.z), VScale(FMul(FQ(q.b, 1000), d.yl), d.y)))
Ray(d) == VScale(IF q.way = "forward" THEN FQ(1, 7) ELSE FQ(-1, 3), VSub(Aim(d), Src))
H == Hit(D, Ray(D), Src)
Tol == F("1e-30")
HitsAim == ~H.graze /\ Near(H.zd, FMul(FQ(q.a, 1000), D.zl), Tol) /\ Near(H.yd, FMul(FQ(q.b, 1000), D.yl), Tol)
Forward == (q.way = "forward") = FLt(Zero, H.s)
InsideIffBetween == (q.a \in 1..999 /\ q.b \in 1..999) = FLt(F("1e-25"), InsideBy(D, H))
Shifted == LET w == <<F(3), F(-8), FQ(1, 3)>>
               h == Hit([D EXCEPT !.c0 = VAdd(@, w)], Ray(D), VAdd(Src, w))
           IN Near(h.zd, H.zd, Tol) /\ Near(h.yd, H.yd, Tol) /\ Near(h.cosn, H.cosn, Tol)
Swapped == LET f == Frame(~q.flip)
               h == Hit(f, Ray(D), Src)
           IN Near(h.zd, H.yd, Tol) /\ Near(h.yd, H.zd, Tol) /\ Near(h.cosn, FNeg(H.cosn), Tol)
================================================================================
