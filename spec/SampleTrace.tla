------------------------------ MODULE SampleTrace ------------------------------
(***************************************************************************)
(* Recorded samples made by the templates (C20).                           *)
(***************************************************************************)
EXTENDS MotionTrace, Texture
(* |count - n p| is no more than chance allows (beyond seven standard deviations) *)
Plausible(count, n, p) == FLeq(FAbs(FSub(F(count), FMul(F(n), p))), FAdd(FMul(F(7), FSqrt(FMul(F(n), FMul(p, FSub(One, p))))), F(5)))
Count(n, P(_)) == Cardinality({j \in 1..n : P(j)})
(* moments of uniformly distributed rotations: the entries have mean 0 and mean square 1/3 *)
Uniform(U, n) == n >= 100 => \A a \in 1..3, b \in 1..3 :
    LET x == [j \in 1..n |-> U[j][a][b]]
        lim(s) == FDiv(FMul(F(7), F(s)), FSqrt(F(n)))
    IN /\ FLeq(FAbs(FDiv(Sum(x), F(n))), lim("0.5774"))
       /\ FLeq(FAbs(FSub(FDiv(Sum([j \in 1..n |-> FMul(x[j], x[j])]), F(n)), FQ(1, 3))), lim("0.2982"))
Common(e, n) ==
    LET U == [j \in 1..n |-> M3(e.U.d[j])]
    IN Then(Chk("a sample has finite fields of the right shape", e.U.fin /\ e.Ul.fin /\ e.E.fin /\ e.El.fin /\ e.coord.fin /\ e.U.sh = <<n, 3, 3>> /\ e.E.sh = <<n, 3, 3>> /\ e.El.sh = <<n, 3, 3>> /\ e.Ul.sh = <<n, 3, 3>>),
         Chk("orientations are proper rotations", \A j \in 1..n : IsRot(U[j], T9))
         \o Chk("a new sample is aligned with the lab", \A j \in 1..n : MNear(M3(e.Ul.d[j]), U[j], T12) /\ MNear(M3(e.El.d[j]), M3(e.E.d[j]), T12))
         \o Chk("elements have an orientation of their own", Cardinality({e.U.d[j] : j \in 1..n}) = n)
         \o Chk("the sample is of the one phase asked for", e.pmap = [j \in 1..n |-> 0] /\ e.nph = 1 /\ e.phase = e.asked_phase))

Nodes(e, j) == {e.enod.d[j][k] : k \in 1..4}
Pt(e, i) == V3(e.coord.d[i + 1])
Vol6(e, j) == LET q == [k \in 1..4 |-> Pt(e, e.enod.d[j][k])] IN FAbs(Dot(VSub(q[2], q[1]), Cross(VSub(q[3], q[1]), VSub(q[4], q[1]))))
Mean4(e, j) == VMean([k \in 1..4 |-> Pt(e, e.enod.d[j][k])])
Rad2(p) == FAdd(FMul(p[1], p[1]), FMul(p[2], p[2]))
(* the elements fill the cylinder: nodes inside, faces shared or on the hull, volume that of an inscribed prism of 8 or more sides *)
Tiles(e, n) ==
    LET R == F(e.R)  h == F(e.h)  hz == FDiv(h, F(2))
        used == UNION {Nodes(e, j) : j \in 1..n}
        eps == FMul(F("1e-9"), FAdd(R, h))
        inside(p) == FLeq(FSqrt(Rad2(p)), FAdd(R, eps)) /\ FLeq(FAbs(p[3]), FAdd(hz, eps))
        faces == UNION {{Nodes(e, j) \ {v} : v \in Nodes(e, j)} : j \in 1..n}
        owners(f) == Cardinality({j \in 1..n : f \subseteq Nodes(e, j)})
        onTop(f, s) == \A v \in f : Near(Pt(e, v)[3], FMul(F(s), hz), eps)
        (* all nodes of a face of the mantle are further out than any inscribed polygon *)
        onSide(f) == \A v \in f : FLeq(FMul(R, FCos(FDiv(FPi, F(8)))), FAdd(FSqrt(Rad2(Pt(e, v))), eps))
        vol == FDiv(Sum([j \in 1..n |-> Vol6(e, j)]), F(6))
        full == FMul(FMul(FPi, FMul(R, R)), h)
    IN Chk("the sample stays inside its cylinder", \A v \in used : inside(Pt(e, v)))
       \o Chk("the elements fit together", \A f \in faces : LET o == owners(f) IN o = 2 \/ (o = 1 /\ (onTop(f, 1) \/ onTop(f, -1) \/ onSide(f))))
       \o Chk("the elements fill the cylinder", FLeq(vol, FMul(full, FAdd(One, T9))) /\ FLeq(FMul(F("0.9"), full), vol))
       \o Chk("no element is empty", \A j \in 1..n : FSign(Vol6(e, j)) = 1)
       \o Chk("about as many crystals as asked for", (e.asked >= 60) => (n * 4 >= e.asked /\ n <= 4 * e.asked))

(* e.centres: for both sides of the plane <normal, offset> the quaternions of the bins of positive density and their probability *)
JudgeOdfSample(s, e) ==
    LET n == e.enod.sh[1]
        U == Map(LAMBDA j : M3(e.U.d[j]), [j \in 1..n |-> j])
        g == BinSteps(F(e.sep))
        x(j) == Mean4(e, j)
        off(j) == FSub(Dot(V3(e.normal), x(j)), F(e.offset))
        side(j) == IF FSign(off(j)) = -1 THEN 1 ELSE 2
        sure(j) == FLt(T9, FAbs(off(j)))
        cs == [k \in 1..2 |-> [m \in 1..Len(e.centres[k]) |-> [a |-> Angles([t \in 1..4 |-> F(e.centres[k][m].q[t])]), p |-> F(e.centres[k][m].p)]]]
        ang == Map(LAMBDA j : Angles(QuatOf(U[j])), [j \in 1..n |-> j])
        inb(j, k, m) == InBin(ang[j], cs[k][m].a, g, T7)
        bin == [j \in 1..n |-> IF \E m \in 1..Len(cs[side(j)]) : inb(j, side(j), m) THEN CHOOSE m \in 1..Len(cs[side(j)]) : inb(j, side(j), m) ELSE 0]
        E(j) == LET p == x(j) IN MAdd(M3(e.strain[1]), MAdd(MScale(p[1], M3(e.strain[2])), MAdd(MScale(p[2], M3(e.strain[3])), MScale(p[3], M3(e.strain[4])))))
        on(k) == {j \in 1..n : side(j) = k}
    IN Then(Chk("a sample is made from a density", e.ok),
       Then(Common(e, n),
         Tiles(e, n)
         \o Chk("every element has the strain of its place", \A j \in 1..n : MNear(M3(e.E.d[j]), E(j), FMul(T9, FAdd(One, MaxAbs(x(j))))))
         \o (IF e.uniform THEN Chk("orientations are spread as the density says", Uniform(U, n))
             ELSE Then(Chk("orientations lie where the density of their place is positive", \A j \in 1..n : sure(j) => bin[j] # 0),
                  Chk("orientations are spread as the density says", \A k \in 1..2 : \A m \in 1..Len(cs[k]) :
                        Plausible(Cardinality({j \in on(k) : bin[j] = m}), Cardinality(on(k)), cs[k][m].p))
                  \o Chk("orientations are spread over their bins", \A t \in 1..3 : LET h == {j \in 1..n : bin[j] # 0}
                        IN /\ Plausible(Cardinality({j \in h : FLt(ang[j][t], cs[side(j)][bin[j]].a[t])}), Cardinality(h), FQ(1, 2))
                           (* and are not all at the centre *)
                           /\ Plausible(Cardinality({j \in h : FLt(FAbs(FSub(ang[j][t], cs[side(j)][bin[j]].a[t])), FDiv(BinStep(g), F(4)))}), Cardinality(h), FQ(1, 2)))))))
(* a density that is not normalised *)
JudgeOdfRejected(s, e) == Chk("a density that is not normalised is rejected", e.bad => ~e.ok)

JudgePowder(s, e) ==
    LET n == e.asked
        U == [j \in 1..n |-> M3(e.U.d[j])]
        r == FMul(F(e.R), FAdd(One, T12))
    IN Then(Chk("a powder is made", e.ok),
       Then(Chk("a powder has the number of grains asked for", e.enod.sh = <<n, 4>> /\ e.nelem = n),
       Then(Common(e, n),
            Chk("grains lie within the bounding radius", \A j \in 1..n : \A v \in Nodes(e, j) : FLeq(Norm(Pt(e, v)), r))
            \o Chk("no grain is empty", \A j \in 1..n : FLt(FMul(F("0.1"), FMul(F(e.R), FMul(F(e.R), F(e.R)))), Vol6(e, j)))
            \o Chk("grains have the strain given", \A j \in 1..n : MNear(M3(e.E.d[j]), M3(e.strain), T12))
            \o Chk("grains are oriented uniformly", Uniform(U, n)))))
=============================================================================
