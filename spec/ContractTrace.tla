----------------------------- MODULE ContractTrace -----------------------------
(***************************************************************************)
(* Recorded calls with arguments that can or cannot be honoured (C22).     *)
(* Whether a call must be rejected is decided from the numbers that were   *)
(* passed; within the tolerances of the checks either answer will do.      *)
(***************************************************************************)
EXTENDS SFTrace, SessionTrace
Con == INSTANCE ContractModel

Num3(a) == a.sh = <<3>> /\ a.fin
Both(vs) == IF "no" \in vs THEN "no" ELSE IF "either" \in vs THEN "either" ELSE "yes"
UnitAxis(a) == IF ~Num3(a) THEN "no"
               ELSE LET off == FAbs(FSub(Norm(V3(a.d)), One))
                    IN IF FLeq(off, T9) THEN "yes" ELSE IF FLeq(F("5e-5"), off) THEN "no" ELSE "either"
(* the number pi as a double is below pi *)
InsideAngle(x) == IF FIsNum(x) /\ FLt(Zero, F(x)) /\ FLt(F(x), F("3.141592653589793")) THEN "yes" ELSE "no"
(* all vertices are corners of their hull: three faces with independent normals meet there *)
AllCorners(a) ==
    IF ~(a.fin /\ Len(a.sh) = 2 /\ a.sh[2] = 3 /\ a.sh[1] >= 4) THEN "no"
    ELSE LET v == Map(V3, a.d)
             ext == MaxOf([j \in 1..Len(v) |-> Dist(v[j], v[1])])
             f == TLCEval(HullFaces(v))
             eps == FMul(F("1e-9"), ext)
             at(j) == SelectSeq(f, LAMBDA x : FLeq(FAbs(FSub(Dot(x.n, v[j]), x.d)), eps))
             corner(j) == LET q == at(j) IN
                 \E x \in 1..Len(q), y \in 1..Len(q), z \in 1..Len(q) : x < y /\ y < z /\ FLeq(F("1e-3"), FAbs(Det(<<q[x].n, q[y].n, q[z].n>>)))
             \* flat: every node is in one face
             solid == \E x \in 1..Len(f) : \E j \in 1..Len(v) : FLt(FMul(F("1e-3"), ext), FAbs(FSub(Dot(f[x].n, v[j]), f[x].d)))
             twice == \E j \in 1..Len(v), k \in 1..Len(v) : j < k /\ FLeq(Dist(v[j], v[k]), eps)
         IN IF FSign(ext) = 0 \/ f = <<>> \/ ~solid \/ twice \/ \E j \in 1..Len(v) : ~corner(j) THEN "no" ELSE "yes"
Perpendicular(dir, pol) ==
    IF ~(Num3(pol) /\ FLt(T9, Norm(V3(pol.d)))) THEN "no"
    ELSE LET c == FAbs(Dot(Unit(V3(pol.d)), Unit(V3(dir.d))))
         IN IF FLeq(c, F("1e-13")) THEN "yes" ELSE IF FLeq(F("1e-5"), c) THEN "no" ELSE "either"
PerElement(sh, n) == IF sh = <<3, 3>> \/ sh = <<n, 3, 3>> THEN "yes" ELSE "no"
Exts == [motion |-> ".motion", beam |-> ".beam", detector |-> ".det", polycrystal |-> ".pc"]
BraggOrder(s, e) ==
    IF ~FIsNum(e.lo) THEN "no"
    ELSE LET p == s.poly
             b == BeamOf(e.beam)
             ub == UpperBound(p, b, TLCEval(HullFaces(b.verts)), BeamMargin(FMax(Reached(b.verts), p.far)), e)
             lo == F(e.lo)
         IN IF FLt(lo, Zero) \/ (e.hi # "none" /\ FLeq(F(e.hi), lo)) THEN "no"
            ELSE IF ~ub.ok THEN "either"
            ELSE IF FLeq(FMul(ub.hi, F("1.000001")), lo) THEN "no"
            ELSE IF FLeq(lo, FMul(ub.hi, F("0.999999"))) THEN "yes" ELSE "either"
Needed == {"detector_distance", "number_of_detector_pixels_z", "number_of_detector_pixels_y", "detector_center_pixel_z", "detector_center_pixel_y", "pixel_side_length_z",
           "pixel_side_length_y", "wavelength", "beam_side_length_z", "beam_side_length_y", "rotation_step", "rotation_axis"}
Verdict(s, e) ==
    LET k == e.o.k IN
    CASE k \in {"motion", "turn"} -> Both({UnitAxis(e.axis), InsideAngle(e.ang)})
      [] k = "beam" -> Both({AllCorners(e.verts), Perpendicular(e.dir, e.pol)})
      [] k = "reshape" -> AllCorners(e.verts)
      [] k = "poly" -> Both({PerElement(e.ush, e.n), PerElement(e.esh, e.n), IF e.phases > 1 /\ ~e.mapped THEN "no" ELSE "yes"})
      [] k = "template" -> Both({IF Needed \subseteq {e.keys[j] : j \in 1..Len(e.keys)} THEN "yes" ELSE "no", UnitAxis(e.axis), InsideAngle(e.ang)})
      [] k = "render" -> IF e.how \in {"micro", "nano", "macro", "auto"} THEN "yes" ELSE "no"
      [] k = "load" -> IF e.tail = Exts[e.o.cls] THEN "yes" ELSE "no"
      [] k = "diffract" -> BraggOrder(s, e)
      [] k = "detector" -> IF e.n_given # e.size_given THEN "yes" ELSE "no"
      [] k = "level" -> IF FLt(F(e.least), Zero) /\ FLt(Zero, F(e.most)) THEN "yes" ELSE "no"

ContractBegin(st, e) == ("refs" :> e.refs) @@ ("rel" :> e.rel) @@ ("con" :> Con!Clean) @@ st
ContractAfter(s, e) == ("con" :> Con!After(s.con, e.o, Verdict(s, e) = "yes")) @@ s
JudgeContractCall(s, e) ==
    LET v == Verdict(s, e)
        t == Con!After(s.con, e.o, v = "yes")
    IN Chk("input that cannot be honoured is rejected (" \o e.o.k \o ")", v = "no" => e.err # "")
       \o Chk("input inside the documented domain is accepted (" \o e.o.k \o "): " \o e.err, v = "yes" => e.err = "")
       \o (IF v = "either" THEN <<>> ELSE Differences(IF v = "no" THEN "an object involved in a rejected call" ELSE "an object after an accepted call", e.snap, RefOf(s, Con!Key(t)), s.rel))
JudgeContractLook(s, e) == Differences("work with objects that rejected calls involved", e.snap, RefOf(s, "look " \o Con!Key(s.con)), s.rel)
===============================================================================
