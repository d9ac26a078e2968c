------------------------------- MODULE Detector -------------------------------
(***************************************************************************)
(* The flat pixelated detector: placement, pixel grid, where a ray meets   *)
(* it, the frame and the intensity factor of a peak (C09 C10 C11 C15).     *)
(***************************************************************************)
EXTENDS BeamTrace

(* a detector from its recorded parameters: c0 c1 c2, np (<<>> or <<nz, ny>>), px (<<>> or <<pz, py>>), factors *)
DetOf(e) ==
    LET c0 == V3(e.c0.d)  c1 == V3(e.c1.d)  c2 == V3(e.c2.d)
        zv == VSub(c2, c0)  yv == VSub(c1, c0)
        zl == Norm(zv)  yl == Norm(yv)
        pz == IF e.np # <<>> THEN FDiv(zl, F(e.np[1])) ELSE F(e.px[1])
        py == IF e.np # <<>> THEN FDiv(yl, F(e.np[2])) ELSE F(e.px[2])
        count(l, p) == LET c == FDiv(l, p)
                           near == FFloor(FAdd(c, F("0.5")))
                       IN IF Near(c, F(near), F("1e-6")) THEN near ELSE FFloor(c) + 1
        z == VDiv(zv, zl)  y == VDiv(yv, yl)
    IN [c0 |-> c0, c1 |-> c1, c2 |-> c2, zl |-> zl, yl |-> yl, z |-> z, y |-> y, n |-> Unit(Cross(z, y)), pz |-> pz, py |-> py,
        nz |-> IF e.np # <<>> THEN e.np[1] ELSE count(zl, pz), ny |-> IF e.np # <<>> THEN e.np[2] ELSE count(yl, py),
        lor |-> e.lor, pol |-> e.polz, sf |-> e.sf, sigma |-> F(e.sigma), thr |-> F(e.thr), maxr |-> e.maxr]

At3(r, j) == <<F(r[j]), F(r[j + 1]), F(r[j + 2])>>
PixelPoint(d, i, j) == VAdd(d.c0, VAdd(VScale(FMul(F(i), d.pz), d.z), VScale(FMul(F(j), d.py), d.y)))
DetReach(d) == FAdd(FMax(MaxAbs(d.c0), FMax(MaxAbs(d.c1), MaxAbs(d.c2))), FAdd(d.zl, d.yl))

(* the ray from src along ko: grazing, or s (> 0 forward), detector coordinates, cosine to the normal *)
Hit(d, ko, src) ==
    LET kn == Dot(ko, d.n)
        c == FDiv(kn, Norm(ko))
    IN IF FLeq(FAbs(c), F("1e-9")) THEN [graze |-> TRUE]
       ELSE LET s == FDiv(Dot(VSub(d.c0, src), d.n), kn)
                w == VSub(VAdd(src, VScale(s, ko)), d.c0)
            IN [graze |-> FALSE, s |-> s, zd |-> Dot(w, d.z), yd |-> Dot(w, d.y), cosn |-> c, len |-> FMul(s, Norm(ko))]

(* distance by which a hit lies inside the detector (negative outside) *)
InsideBy(d, h) == FMin(FMin(h.zd, FSub(d.zl, h.zd)), FMin(h.yd, FSub(d.yl, h.yd)))
(* accuracy of the hit: rounding, amplified by grazing incidence *)
HitTol(d, h, src) == FDiv(FMul(F("1e-12"), FAdd(DetReach(d), FAdd(MaxAbs(src), FAbs(h.len)))), FAbs(h.cosn))

(* ------------------------------- frames ------------------------------- *)
(* the frames a time may belong to: one, or two where rounding of the division of the scan decides *)
FramesOf(t, k) ==
    LET x == FMul(t, F(k))
        f(y) == LET i == FFloor(y) IN IF F(i) = y THEN i - 1 ELSE i
        cl(i) == IF i < 0 THEN 0 ELSE IF i > k - 1 THEN k - 1 ELSE i
        dyadic == k \in {1, 2, 4, 8, 16, 32, 64, 128}
        m == FMul(F(k), F("4e-16"))
    IN IF dyadic THEN {cl(f(x))} ELSE {cl(f(FSub(x, m))), cl(f(FAdd(x, m)))}

(* --------------------------- intensity factor --------------------------- *)
(* lor, pol, sf: recorded strings.  "bad" when the product is infinite, undefined or not positive *)
IntensityOf(d, lor, pol, sf) ==
    LET use == (IF d.lor THEN <<lor>> ELSE <<>>) \o (IF d.pol THEN <<pol>> ELSE <<>>) \o (IF d.sf THEN <<sf>> ELSE <<>>)
    IN IF \E j \in 1..Len(use) : ~FIsNum(use[j]) THEN [ok |-> FALSE]
       ELSE LET v == FoldLeft(LAMBDA a, x : FMul(a, F(x)), One, use)
            IN IF FLeq(v, Zero) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> v]
===============================================================================
