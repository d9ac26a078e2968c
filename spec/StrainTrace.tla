----------------------------- MODULE StrainTrace -----------------------------
(* Lattice matrices of strained cells, one by one and in batches (C16).       *)
EXTENDS Crystal

(* Squared Cholesky pivots: all positive exactly if the cell is not inverted. *)
Pivots(M) ==
    LET d1 == M[1][1]
        d2 == FSub(FMul(M[1][1], M[2][2]), FMul(M[1][2], M[1][2]))
        d3 == Det(M)
    IN IF FLeq(d1, Zero) THEN <<d1>>
       ELSE IF FLeq(d2, Zero) THEN <<d1, FDiv(d2, d1)>>
       ELSE <<d1, FDiv(d2, d1), FDiv(d3, d2)>>
Feasible(U, E) ==
    LET p == MinOf(Pivots(StrainMetric(U, E))) IN
    IF FLt(F("1e-6"), p) THEN "yes" ELSE IF FLt(p, F("-1e-9")) THEN "no" ELSE "either"

StrainVector(M) == <<M[1][1], M[1][2], M[1][3], M[2][2], M[2][3], M[3][3]>>

(* e: cell, U, E (batches), call in {lab, crystal}, err, B, back (vectors, may be empty) *)
JudgeStrainBatch(s, e) ==
    LET b0 == B0Of(CellOf(e.cell))
        n == e.U.sh[1]
        U == MatsOf(e.U)
        E == MatsOf(e.E)
        feas == TLCEval([j \in 1..n |-> Feasible(U[j], E[j])])
        scale == MaxAbs(<<b0[1][1], b0[2][2], b0[3][3]>>)
        ok(j) == LET want == StrainedB(U[j], E[j], b0)
                     amp == FDiv(F("1e-12"), MinOf(Pivots(StrainMetric(U[j], E[j]))))
                     got == M3(e.B.d[j])
                 IN /\ MNear(got, want, FMul(FMul(amp, F(10)), FAdd(scale, MaxAbs(<<want[1][1], want[2][2], want[3][3]>>))))
                    /\ FLt(Zero, got[1][1]) /\ FLt(Zero, got[2][2]) /\ FLt(Zero, got[3][3])
                    /\ got[2][1] = Zero /\ got[3][1] = Zero /\ got[3][2] = Zero
        back(j) == LET want == StrainVector(MM(Tr(U[j]), MM(E[j], U[j])))
                   IN \A c \in 1..6 : Near(F(e.back.d[j][c]), want[c], FDiv(F("1e-11"), MinOf(Pivots(StrainMetric(U[j], E[j])))))
    IN IF \E j \in 1..n : feas[j] = "no" THEN Chk("a strain that inverts the cell is rejected", e.err # "")
       ELSE IF e.err # "" THEN Chk("a strain that keeps the cell is accepted", \E j \in 1..n : feas[j] = "either")
       ELSE Then(Chk("there is a lattice matrix per element", e.B.fin /\ e.B.sh = <<n, 3, 3>>),
                 Chk("B is the upper triangular matrix of the strained metric", \A j \in 1..n : ok(j))
                 \o (IF e.back.sh[1] = 0 THEN <<>>
                     ELSE Chk("B converts back to the strain", e.back.fin /\ e.back.sh = <<n, 6>> /\ \A j \in 1..n : back(j))))

(* constructing a polycrystal with these strains *)
JudgeStrainMade(s, e) ==
    LET n == e.U.sh[1]
        feas == TLCEval([j \in 1..n |-> Feasible(M3(e.U.d[j]), M3(e.E.d[j]))])
    IN IF \E j \in 1..n : feas[j] = "no" THEN Chk("a polycrystal with an inverted cell is rejected", e.err # "")
       ELSE Chk("a polycrystal with feasible strains is accepted", e.err = "" \/ \E j \in 1..n : feas[j] = "either")
==============================================================================
