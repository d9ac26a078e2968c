------------------------------- MODULE Crystal -------------------------------
(***************************************************************************)
(* Lattices, strain, space groups, structure factors.                      *)
(*   A unit cell is <<a, b, c, alpha, beta, gamma>> (angles in degrees).   *)
(*   A symmetry operation is [r |-> integer 3x3 matrix, t |-> vector].     *)
(***************************************************************************)
EXTENDS Motion

Rad(deg) == FMul(deg, FDiv(FPi, F(180)))
Deg(rad) == FMul(rad, FDiv(F(180), FPi))

CellMetric(c) ==
    LET ca == FCos(Rad(c[4]))  cb == FCos(Rad(c[5]))  cg == FCos(Rad(c[6]))
        ab == FMul(FMul(c[1], c[2]), cg)  ac == FMul(FMul(c[1], c[3]), cb)  bc == FMul(FMul(c[2], c[3]), ca)
    IN <<<<FMul(c[1], c[1]), ab, ac>>, <<ab, FMul(c[2], c[2]), bc>>, <<ac, bc, FMul(c[3], c[3])>>>>
RecMetric(c) == Inv3(CellMetric(c))

(* The upper triangular R with positive diagonal and R^T R = M. *)
CholOk(M) == /\ FLt(Zero, M[1][1]) /\ FLt(Zero, FSub(FMul(M[1][1], M[2][2]), FMul(M[1][2], M[1][2]))) /\ FLt(Zero, Det(M))
CholU(M) ==
    LET r11 == FSqrt(M[1][1])
        r12 == FDiv(M[1][2], r11)
        r13 == FDiv(M[1][3], r11)
        r22 == FSqrt(FSub(M[2][2], FMul(r12, r12)))
        r23 == FDiv(FSub(M[2][3], FMul(r12, r13)), r22)
        r33 == FSqrt(FSub(FSub(M[3][3], FMul(r13, r13)), FMul(r23, r23)))
    IN <<<<r11, r12, r13>>, <<Zero, r22, r23>>, <<Zero, Zero, r33>>>>

B0Of(cell) == MScale(FMul(F(2), FPi), CholU(RecMetric(cell)))

(* Strain E in lab coordinates of a crystal of orientation U. *)
StrainMetric(U, E) == MAdd(MScale(F(2), MM(Tr(U), MM(E, U))), Id3)
StrainedB(U, E, B0) == MM(Inv3(CholU(StrainMetric(U, E))), B0)
(* Crystal-frame strain of a lattice matrix *)
StrainOf(B, B0) == LET FF == MM(B0, Inv3(B)) IN MScale(F("0.5"), MSub(MM(Tr(FF), FF), Id3))

(* ---- reflections ---- *)
IDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
HR(h, R)   == <<h[1] * R[1][1] + h[2] * R[2][1] + h[3] * R[3][1],
                h[1] * R[1][2] + h[2] * R[2][2] + h[3] * R[3][2],
                h[1] * R[1][3] + h[2] * R[2][3] + h[3] * R[3][3]>>
HF(h)      == <<F(h[1]), F(h[2]), F(h[3])>>
FracDist(x) == LET r == FSub(x, F(FFloor(FAdd(x, F("0.5"))))) IN FAbs(r)   \* distance to the nearest integer
Absent(h, ops) == \E o \in 1..Len(ops) : HR(h, ops[o].r) = h /\ FLt(F("1e-3"), FracDist(Dot(HF(h), ops[o].t)))
(* (sin theta / lambda)^2 of a reflection *)
Stl2(h, G) == LET v == HF(h) IN FDiv(Dot(v, MV(G, v)), F(4))

(* The reflections with lo <= sin(theta)/lambda <= hi that are not absent.  firm: certainly in
   the range; maybe: so close to a bound that rounding decides.                                *)
Reflections(cell, ops, lo, hi) ==
    LET G == RecMetric(cell)
        m == [j \in 1..3 |-> FFloor(FMul(FMul(F(2), hi), FMul(cell[j], F("1.0001")))) + 1]
        box == {<<h, k, l>> : h \in (-m[1])..m[1], k \in (-m[2])..m[2], l \in (-m[3])..m[3]}
        lo2 == FMul(lo, lo)  hi2 == FMul(hi, hi)
        eps == F("1e-8")
        near == {h \in box : /\ h # <<0, 0, 0>>
                             /\ LET q == Stl2(h, G) IN FLeq(q, FMul(hi2, FAdd(One, eps))) /\ FLeq(FMul(lo2, FSub(One, eps)), q)}
        allowed == {h \in near : ~Absent(h, ops)}
        firm == {h \in allowed : LET q == Stl2(h, G) IN FLeq(q, FMul(hi2, FSub(One, eps))) /\ FLeq(FMul(lo2, FAdd(One, eps)), q)}
    IN [firm |-> firm, maybe |-> allowed \ firm]

(* ---- structure factors ---- *)
(* An atom: [pos, occ (site population over number of operations), a |-> 4 reals, b |-> 4 reals, c,
             fp, fpp, adp |-> "iso" | "ani" | "none", u |-> real or matrix]                          *)
FormFactor(at, s2) == FAdd(at.c, Sum([j \in 1..4 |-> FMul(at.a[j], FExp(FNeg(FMul(at.b[j], s2))))]))
CellStar(cell) == LET G == RecMetric(cell) IN <<FSqrt(G[1][1]), FSqrt(G[2][2]), FSqrt(G[3][3])>>
StructureFactor(h, cell, ops, atoms) ==
    LET hv == HF(h)
        s2 == Stl2(h, RecMetric(cell))
        twopi == FMul(F(2), FPi)
        cs == CellStar(cell)
        part(at) ==
            LET f == FAdd(FormFactor(at, s2), at.fp)
                iso == IF at.adp = "iso" THEN FExp(FNeg(FMul(FMul(F(8), FMul(FPi, FPi)), FMul(at.u, s2)))) ELSE One
                term(o) ==
                    LET ph == FMul(twopi, Dot(hv, VAdd(MV(o.fr, at.pos), o.t)))
                        hr == HF(HR(h, o.r))
                        w == <<FMul(hr[1], cs[1]), FMul(hr[2], cs[2]), FMul(hr[3], cs[3])>>
                        damp == IF at.adp = "ani" THEN FExp(FNeg(FMul(FMul(F(2), FMul(FPi, FPi)), Dot(w, MV(at.u, w))))) ELSE iso
                        c == FMul(damp, FCos(ph))
                        sn == FMul(damp, FSin(ph))
                    IN <<FSub(FMul(f, c), FMul(at.fpp, sn)), FAdd(FMul(f, sn), FMul(at.fpp, c))>>
                tot == FoldLeft(LAMBDA acc, o : LET z == term(o) IN <<FAdd(acc[1], z[1]), FAdd(acc[2], z[2])>>, <<Zero, Zero>>, ops)
            IN <<FMul(at.occ, tot[1]), FMul(at.occ, tot[2])>>
    IN FoldLeft(LAMBDA acc, at : LET z == part(at) IN <<FAdd(acc[1], z[1]), FAdd(acc[2], z[2])>>, <<Zero, Zero>>, atoms)
Intensity(F2) == FAdd(FMul(F2[1], F2[1]), FMul(F2[2], F2[2]))

(* ---- from recorded data ---- *)
CellOf(c) == TLCEval([j \in 1..6 |-> F(c[j])])
OpsOf(rot, trans) == TLCEval([j \in 1..Len(rot) |-> [r |-> rot[j], fr |-> M3(rot[j]), t |-> V3(trans[j])]])
AtomsOf(q) == TLCEval([j \in 1..Len(q) |->
    [pos |-> V3(q[j].pos), occ |-> F(q[j].occ), a |-> TLCEval([x \in 1..4 |-> F(q[j].a[x])]), b |-> TLCEval([x \in 1..4 |-> F(q[j].b[x])]), c |-> F(q[j].c),
     fp |-> F(q[j].fp), fpp |-> F(q[j].fpp), adp |-> q[j].adp,
     u |-> IF q[j].adp = "ani" THEN M3(q[j].u) ELSE IF q[j].adp = "iso" THEN F(q[j].u) ELSE Zero]])
=============================================================================
