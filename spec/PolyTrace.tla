------------------------------ MODULE PolyTrace ------------------------------
(***************************************************************************)
(* Polycrystals: state, transformation, diffraction (C04 C05 C06 C16 C17   *)
(* C18).  s.poly is the specification's own state of the polycrystal; what *)
(* the implementation reports is judged against it.                        *)
(***************************************************************************)
EXTENDS Factors, Laue, BeamGeom, MeshTrace

PhaseOf(p) == [cell |-> CellOf(p.cell), ops |-> OpsOf(p.rot, p.trans), cif |-> p.cif, atoms |-> AtomsOf(p.atoms)]

(* Site populations: atoms on special positions are generated by several operations. *)
Images(ops, pos) == TLCEval([o \in 1..Len(ops) |-> VAdd(MV(ops[o].fr, pos), ops[o].t)])
SameSite(a, b) == \A j \in 1..3 : FLt(FracDist(FSub(a[j], b[j])), F("1e-3"))
Multiplicity(ops, pos) == LET im == Images(ops, pos) IN Cardinality({o \in 1..Len(ops) : \A q \in 1..(o - 1) : ~SameSite(im[o], im[q])})
WithPopulation(ph) == [ph EXCEPT !.atoms = TLCEval([j \in 1..Len(ph.atoms) |->
    [ph.atoms[j] EXCEPT !.occ = FDiv(FMul(@, F(Multiplicity(ph.ops, ph.atoms[j].pos))), F(Len(ph.ops)))]])]

PolyState(e) ==
    LET U == MatsOf(e.U)
        E == MatsOf(e.E)
        ph == TLCEval([j \in 1..Len(e.phases) |-> WithPopulation(PhaseOf(e.phases[j]))])
        b0 == TLCEval([j \in 1..Len(ph) |-> B0Of(ph[j].cell)])
        nodes == VecsOf(e.coord)
    IN [nodes |-> nodes, enod |-> e.enod.d, U |-> U, E |-> E, pmap |-> e.pmap, ph |-> ph,
        B |-> TLCEval([k \in 1..Len(U) |-> StrainedB(U[k], E[k], b0[e.pmap[k] + 1])]),
        sph |-> VecsOf(e.obs.lab.espherecentroids),
        vol |-> TLCEval([k \in 1..Len(U) |-> TetVolume(Corners(nodes, e.enod.d[k]))]),
        obs0 |-> e.obs, far |-> Reach(nodes), steps |-> 1]

PolyAfter(p, e) ==
    LET m == MotionOf(e.motion)
        t == F(e.t)
        R == TLCEval(MotionRot(m, t))
        mv == [k |-> "update", m |-> m, t |-> t]
        nd == MoveNodes(p.nodes, mv)
    IN [p EXCEPT !.nodes = nd, !.sph = MoveNodes(p.sph, mv),
                 !.U = TLCEval([k \in 1..Len(p.U) |-> MM(R, p.U[k])]),
                 !.E = TLCEval([k \in 1..Len(p.E) |-> MM(R, MM(p.E[k], Tr(R)))]),
                 !.far = FMax(FMax(p.far, Reach(nd)), MoveScale(m, nd[1])), !.steps = @ + 1]

MatsNear(a, q, tol) == a.fin /\ a.sh = <<Len(q), 3, 3>> /\ \A k \in 1..Len(q) : MNear(M3(a.d[k]), q[k], tol)

SampleClauses(p, o) ==
    LET o0 == p.obs0 IN
    Chk("the sample mesh does not change", o.sample = o0.sample)
    \o Chk("sample orientations and strains do not change", o.Us = o0.Us /\ o.Es = o0.Es)
    \o Chk("phases and phase map do not change", o.pmap = o0.pmap /\ o.nph = o0.nph)
    \o Chk("volumes do not change", o.vol = o0.vol)

(* the lab state reported by o is that of p *)
LabClauses(p, o, what) ==
    LET nn == Len(p.nodes)
        ne == Len(p.enod)
        g == o.lab
        tol == FMul(FMul(F("1e-12"), p.far), F(p.steps))
        utol == FMul(F("1e-13"), F(10 * p.steps))
    IN Then(Chk("the lab mesh keeps its numbers of nodes and elements " \o what, g.n = ne /\ MeshShapes(g, nn, ne)), Then(Numbered(g, nn, p.enod),
        Chk("lab nodes are the moved nodes " \o what, \A j \in 1..nn : VNear(V3(g.coord.d[j]), p.nodes[j], tol))
        \o Chk("lab sphere centres are the moved ones " \o what, \A k \in 1..ne : VNear(V3(g.espherecentroids.d[k]), p.sph[k], FMul(F(1000), tol)))
        \o Chk("lab centroids are those of the nodes " \o what,
               /\ \A k \in 1..ne : VNear(V3(g.ecentroids.d[k]), TetCentroid(Corners(p.nodes, p.enod[k])), tol)
               /\ VNear(V3(g.centroid.d), VMean([k \in 1..ne |-> TetCentroid(Corners(p.nodes, p.enod[k]))]), tol))
        \o Chk("lab normals are those of the nodes " \o what,
               NormalsOk(g, p.nodes, p.enod, LAMBDA k : T8))
        \o Chk("lab mesh connectivity and sizes are kept " \o what,
               /\ g.enod.d = p.enod
               /\ \A k \in 1..ne : /\ RNear(F(g.evolumes.d[k]), p.vol[k], F("1e-8"), Zero)
                                   /\ RNear(F(g.eradius.d[k]), F(p.obs0.lab.eradius.d[k]), F("1e-8"), Zero))))
     \o Chk("lab orientations are the rotated ones " \o what, MatsNear(o.Ul, p.U, utol))
     \o Chk("lab strains are the rotated ones " \o what, MatsNear(o.El, p.E, FMul(utol, F(10))))

JudgePolyNew(s, e) ==
    LET p == PolyState(e) IN
    LabClauses(p, e.obs, "at construction")
    \o Chk("sample fields start equal to the lab fields",
           /\ e.obs.sample = e.obs.lab /\ e.obs.Us.d = e.obs.Ul.d /\ e.obs.Es.d = e.obs.El.d)
    \o Chk("the phase map is the one given", e.obs.nph = Len(e.phases) /\ e.obs.pmap = e.pmap)
    \o Chk("volumes are those of the elements", e.obs.vol.sh = <<Len(p.vol)>> /\ \A k \in 1..Len(p.vol) : RNear(F(e.obs.vol.d[k]), p.vol[k], F("1e-9"), Zero))

JudgePolyTransform(s, e) ==
    LET p == PolyAfter(s.poly, e) IN
    LabClauses(p, e.obs, "after a transform") \o SampleClauses(s.poly, e.obs)
JudgePolyLook(s, e) == LabClauses(s.poly, e.obs, e.when) \o SampleClauses(s.poly, e.obs)

(* ------------------------------ diffraction ------------------------------ *)
BeamOf(b) == [verts |-> VecsOf(b.verts), lam |-> F(b.lam), pol |-> Unit(V3(b.pol.d)),
              k |-> VScale(FDiv(FMul(F(2), FPi), F(b.lam)), Unit(V3(b.dir.d)))]

ColumnNames == <<"grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times", "G0_x", "G0_y", "G0_z",
                 "Gx", "Gy", "Gz", "K_out_x", "K_out_y", "K_out_z", "Source_x", "Source_y", "Source_z", "lorentz_factors",
                 "polarization_factors", "volumes", "2theta", "scherrer_fwhm", "peak_index">>

Sub3(r, j) == <<F(r[j]), F(r[j + 1]), F(r[j + 2])>>
IsInt(x) == FIsNum(x) /\ F(x) = F(FFloor(F(x)))
(* columns that must be numbers: all but the Lorentz factor *)
RowNumeric(r) == \A j \in 1..25 : j = 20 \/ FIsNum(r[j])
RowIndexed(p, r) == /\ \A j \in {1, 2, 3, 4, 5, 25} : IsInt(r[j])
                    /\ FFloor(F(r[1])) \in 0..(Len(p.U) - 1)
RowKey(r) == <<FFloor(F(r[1])), FFloor(F(r[3])), FFloor(F(r[4])), FFloor(F(r[5]))>>

(* What a peak says follows from its element, reflection and time. *)
RowClauses(p, b, m, r, fs, ops) ==
    LET g == FFloor(F(r[1])) + 1
        h == <<FFloor(F(r[3])), FFloor(F(r[4])), FFloor(F(r[5]))>>
        t == F(r[7])
        G0 == MV(p.U[g], MV(p.B[g], HF(h)))
        R == MotionRot(m, t)
        G == MV(R, G0)
        ko == VAdd(b.k, G)
        gs == FMul(F("1e-9"), FAdd(Norm(G0), Norm(b.k)))
        ph == p.ph[p.pmap[g] + 1]
    IN Chk("times lie in [0,1]", FLeq(Zero, t) /\ FLeq(t, One))
    \o Chk("the phase number is that of the element", FFloor(F(r[2])) = p.pmap[g])
    \o Chk("G0 is U B hkl of the element", VNear(Sub3(r, 8), G0, gs))
    \o Chk("G is G0 rotated to the time of the peak", VNear(Sub3(r, 11), G, FMul(gs, F(10))))
    \o Chk("the Laue condition holds", FLeq(FAbs(LaueResidual(b.k, G)), FMul(F("1e-8"), FMul(Norm(b.k), FAdd(Norm(G), T9)))))
    \o Chk("the outgoing vector is k + G", VNear(Sub3(r, 14), ko, FMul(gs, F(10))))
    \o Chk("the source is the moved sphere centre", VNear(Sub3(r, 17), MoveBy(m, R, t, p.sph[g]), FMul(F("1e-9"), FAdd(p.far, MoveScale(m, p.sph[g])))))
    \o Chk("the Lorentz factor is that of the ray", LorentzOk(r[20], b.k, Sub3(r, 14), m.axis))
    \o Chk("the polarization factor is that of the ray", PolarizationOk(r[21], Sub3(r, 14), b.pol))
    \o Chk("the volume is that of the element", RNear(F(r[22]), p.vol[g], F("1e-9"), Zero))
    \o Chk("the scattering angle is that of the ray", Near(FCos(F(r[23])), FCos(TwoTheta(b.k, ko)), F("1e-11")) /\ FLeq(Zero, F(r[23])) /\ FLeq(F(r[23]), F("3.1415926536")))
    \o Chk("the size broadening is Scherrer's", ScherrerOk(r[24], p.vol[g], F(r[23]), b.lam))
    \o Chk("the squared structure factor is that of the reflection",
           IF ~ph.cif THEN F(r[6]) = One
           ELSE h \in DOMAIN fs[p.pmap[g] + 1] /\ RNear(F(r[6]), fs[p.pmap[g] + 1][h], F("1e-7"), F("1e-8")))

DetectorCone(det, k, src) ==
    LET c0 == V3(det.c0.d)  c1 == V3(det.c1.d)  c2 == V3(det.c2.d)
        c3 == VAdd(c2, VSub(c1, c0))
        ang(c) == FAcos(Clamp1(FDiv(Dot(VSub(c, src), k), FMul(Norm(VSub(c, src)), Norm(k)))))
    IN FDiv(FMax(FMax(ang(c0), ang(c1)), FMax(ang(c2), ang(c3))), F(2))

(* the upper Bragg bound in force *)
UpperBound(p, b, faces, margin, e) ==
    IF ~e.has_det THEN [ok |-> TRUE, hi |-> F(e.hi)]
    ELSE LET dep == TLCEval([j \in 1..Len(p.nodes) |-> Depth(faces, p.nodes[j])])
             lit == {j \in 1..Len(p.nodes) : FLt(dep[j], Zero)}
             src == IF lit = {} THEN VMean([k \in 1..Len(p.enod) |-> TetCentroid(Corners(p.nodes, p.enod[k]))])
                    ELSE VMean(Map(LAMBDA j : p.nodes[j], SetToSeq(lit)))
             cone == DetectorCone(e.det, b.k, src)
         IN [ok |-> \A j \in 1..Len(p.nodes) : FLt(margin, FAbs(dep[j])),
             hi |-> IF e.hi = "none" THEN cone ELSE FMin(F(e.hi), cone)]

JudgeDiffract(s, e) ==
    LET p == s.poly
        b == BeamOf(e.beam)
        m == MotionOf(e.motion)
        rows == e.peaks.d
        n == Len(rows)
        want == {e.want[j] : j \in 1..Len(e.want)}
        faces == TLCEval(HullFaces(b.verts))
        margin == BeamMargin(FMax(FMax(Reached(b.verts), p.far), MoveScale(m, p.sph[1])))
        ub == UpperBound(p, b, faces, margin, e)
        lo == FDiv(FSin(F(e.lo)), b.lam)
        hi == FDiv(FSin(ub.hi), b.lam)
        refl == TLCEval([j \in 1..Len(p.ph) |-> Reflections(p.ph[j].cell, p.ph[j].ops, lo, hi)])
        \* squared structure factors of the reflections of phases with a crystal structure file
        fs == TLCEval([j \in 1..Len(p.ph) |-> IF p.ph[j].cif
                 THEN [h \in refl[j].firm \cup refl[j].maybe |-> Intensity(StructureFactor(h, p.ph[j].cell, p.ph[j].ops, p.ph[j].atoms))] ELSE <<>>])
        vanish(j, h) == p.ph[j].cif /\ FLt(fs[j][h], F("2e-6"))
        lf == LaueFactors(b.k, m.axis)
        keys == TLCEval([j \in 1..n |-> RowKey(rows[j])])
        times == TLCEval([j \in 1..n |-> F(rows[j][7])])
        rowsOf(key) == {j \in 1..n : keys[j] = key}
        tt == F("1e-7")
        \* one element and reflection: every firm, clearly lit solution is reported exactly once
        complete(g, h) ==
            LET G0 == MV(p.U[g], MV(p.B[g], HF(h)))
                sol == TLCEval(TimesOf(LaueCoef(lf, G0), m.ang))
                have == rowsOf(<<g - 1, h[1], h[2], h[3]>>)
            IN /\ \A x \in 1..Len(sol) :
                    LET d == Depth(faces, Move(m, sol[x].t, p.sph[g]))
                        hit == {j \in have : Near(times[j], sol[x].t, tt)}
                        twin == Len(sol) = 2 /\ Near(sol[1].t, sol[2].t, FMul(F(4), tt))
                    IN (sol[x].firm /\ ~twin) => /\ FLt(d, FNeg(margin)) => Cardinality(hit) = 1
                                                 /\ FLt(margin, d) => hit = {}
               /\ \A j \in have : \E x \in 1..Len(sol) : Near(times[j], sol[x].t, F("1e-4"))
               /\ Cardinality(have) = Cardinality({times[j] : j \in have}) /\ Cardinality(have) <= 2
        incomplete == {gh \in UNION {{<<g, h>> : h \in refl[p.pmap[g] + 1].firm} : g \in 1..Len(p.U)} :
                          ~vanish(p.pmap[gh[1]] + 1, gh[2]) /\ ~complete(gh[1], gh[2])}
    IN Chk("the result has the documented columns", e.cols = ColumnNames /\ Len(e.peaks.sh) = 2 /\ e.peaks.sh[2] = 25)
     \o Then(Chk("peaks are numbers", \A j \in 1..n : RowNumeric(rows[j])),
        Then(Chk("peaks belong to elements, reflections and indices are integers", \A j \in 1..n : RowIndexed(p, rows[j])),
            Chk("peak indices count the rows", \A j \in 1..n : F(rows[j][25]) = F(j - 1))
            \o (IF "row" \in want
                THEN LET bad == {j \in 1..n : RowClauses(p, b, m, rows[j], fs, 0) # <<>>}
                     IN IF bad = {} THEN <<>> ELSE RowClauses(p, b, m, rows[CHOOSE j \in bad : TRUE], fs, 0)
                ELSE <<>>)
            \o (IF "complete" \in want /\ ub.ok
                THEN Chk("every illuminated solution of every reflection is reported exactly once",
                         IF incomplete = {} THEN TRUE ELSE PrintT(<<"incomplete", CHOOSE x \in incomplete : TRUE, Cardinality(incomplete)>>) /\ FALSE)
                  \o Chk("no source lies outside the beam", \A j \in 1..n : FLeq(Depth(faces, Sub3(rows[j], 17)), margin))
                ELSE <<>>)
            \o (IF "hkl" \in want /\ ub.ok
                THEN Chk("only allowed reflections within the Bragg bounds are reported",
                         \A j \in 1..n : LET pj == p.pmap[keys[j][1] + 1] + 1
                                             h == <<keys[j][2], keys[j][3], keys[j][4]>>
                                         IN h \in refl[pj].firm \cup refl[pj].maybe /\ ~(p.ph[pj].cif /\ FLt(fs[pj][h], F("5e-7"))))
                ELSE <<>>)))
     \o Chk("the result carries the beam and the rotation axis",
            /\ e.kin.fin /\ e.kin.sh = <<3>> /\ VNear(V3(e.kin.d), b.k, FMul(T9, Norm(b.k)))
            /\ F(e.wl) = b.lam /\ e.axis.fin /\ VNear(V3(e.axis.d), m.axis, T12))

(* Diffraction may only be refused where the detector leaves no Bragg angles. *)
JudgeDiffractRefused(s, e) ==
    LET p == s.poly
        b == BeamOf(e.beam)
        ub == UpperBound(p, b, TLCEval(HullFaces(b.verts)), BeamMargin(FMax(Reached(b.verts), p.far)), e)
    IN Chk("diffraction is refused only for Bragg bounds that exclude each other: " \o e.err,
           FLt(F(e.lo), Zero) \/ ~ub.ok \/ FLeq(ub.hi, FMul(F(e.lo), F("1.000000001"))))

(* The reflections that the phases say they considered (after diffract): e has the fields of a diffract event and hkl *)
JudgeHklSet(s, e) ==
    LET p == s.poly
        b == BeamOf(e.beam)
        faces == TLCEval(HullFaces(b.verts))
        margin == BeamMargin(FMax(Reached(b.verts), p.far))
        ub == UpperBound(p, b, faces, margin, e)
        lo == FDiv(FSin(F(e.lo)), b.lam)
        hi == FDiv(FSin(ub.hi), b.lam)
        ok(j) == LET a == e.hkl[j]
                     rf == TLCEval(Reflections(p.ph[j].cell, p.ph[j].ops, lo, hi))
                     rows == {<<FFloor(F(a.d[x][1])), FFloor(F(a.d[x][2])), FFloor(F(a.d[x][3]))>> : x \in 1..a.sh[1]}
                 IN /\ rf.firm \subseteq rows /\ rows \subseteq rf.firm \cup rf.maybe
                    /\ Cardinality(rows) = a.sh[1]
    IN IF ~ub.ok THEN <<>> ELSE
       Chk("the considered reflections are the allowed ones within the bounds, each once", \A j \in 1..Len(e.hkl) : ok(j))

(* ------------------- solutions of the Laue equation, as a batch ------------------- *)
(* e.G has shape (elements, 3, planes) *)
JudgeLaueBatch(s, e) ==
    LET T == e.G.sh[1]  H == e.G.sh[3]
        f0 == V3(e.f0.d)  f1 == V3(e.f1.d)  f2 == V3(e.f2.d)
        ang == F(e.ang)
        n == Len(e.times.d)
        Gv(a, h) == <<F(e.G.d[a][1][h]), F(e.G.d[a][2][h]), F(e.G.d[a][3][h])>>
        coef(a, h) == LET g == Gv(a, h) IN [c0 |-> FAdd(Dot(f2, g), FDiv(Norm2(g), F(2))), c1 |-> Dot(f0, g), c2 |-> Dot(f1, g)]
        tm == NumsOf(e.times)
        ok(a, h) ==
            LET c == coef(a, h)
                sol == TLCEval(TimesOf(c, ang))
                have == {j \in 1..n : e.grains.d[j] = a - 1 /\ e.planes.d[j] = h - 1}
                at(t) == {j \in have : Near(tm[j], t, F("1e-7"))}
                tangent == FMul(c.c0, c.c0) = FAdd(FMul(c.c1, c.c1), FMul(c.c2, c.c2))
                inside(t) == FLt(T9, t) /\ FLt(t, FSub(One, T9))
            IN /\ \A x \in 1..Len(sol) : sol[x].firm => Cardinality(at(sol[x].t)) = 1
               /\ \A j \in have : \E x \in 1..Len(sol) : Near(tm[j], sol[x].t, F("1e-4"))
               /\ \A x \in 1..Len(sol) : (e.exact /\ tangent /\ inside(sol[x].t)) => Cardinality(at(sol[x].t)) = 1
               /\ (e.exact /\ Len(sol) > 0 /\ FAdd(c.c0, c.c1) = Zero) => Cardinality(at(Zero)) = 1
               /\ Cardinality(have) <= 2 /\ Cardinality({tm[j] : j \in have}) = Cardinality(have)
    IN Then(Chk("times are numbers in [0,1] of planes of elements",
                /\ e.times.fin /\ e.times.sh = <<n>> /\ e.grains.sh = <<n>> /\ e.planes.sh = <<n>> /\ e.out.sh = <<n, 3>>
                /\ \A j \in 1..n : FLeq(Zero, tm[j]) /\ FLeq(tm[j], One) /\ e.grains.d[j] \in 0..(T - 1) /\ e.planes.d[j] \in 0..(H - 1)),
            Chk("all solutions in [0,1] and nothing else, each once", \A a \in 1..T, h \in 1..H : ok(a, h))
            \o Chk("solutions come with their scattering vector",
                   e.out.fin /\ \A j \in 1..n : VNear(V3(e.out.d[j]), Gv(e.grains.d[j] + 1, e.planes.d[j] + 1), T12)))
=============================================================================
