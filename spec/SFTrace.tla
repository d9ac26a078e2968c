------------------------------ MODULE SFTrace ------------------------------
(* Structure factors computed in batches (C18).                             *)
EXTENDS PolyTrace
(* e: phase, hkl (n,3), F (n,2), parts: sequence of [rows, F] computed separately *)
JudgeSFBatch(s, e) ==
    LET ph == WithPopulation(PhaseOf(e.phase))
        n == Len(e.hkl)
        \* scale of the sum, for tolerances
        amp == FAdd(One, Sum([j \in 1..Len(ph.atoms) |-> FMul(FMul(ph.atoms[j].occ, F(Len(ph.ops))),
                   FAdd(FAdd(FAbs(FormFactor(ph.atoms[j], Zero)), FAbs(ph.atoms[j].fp)), FAbs(ph.atoms[j].fpp)))]))
        tol == FMul(F("1e-9"), amp)
        ok(j) == LET z == StructureFactor(e.hkl[j], ph.cell, ph.ops, ph.atoms)
                 IN Near(F(e.F.d[j][1]), z[1], tol) /\ Near(F(e.F.d[j][2]), z[2], tol)
        part(p) == p.F.fin /\ p.F.sh = <<Len(p.rows), 2>> /\ \A j \in 1..Len(p.rows) :
                      /\ Near(F(p.F.d[j][1]), F(e.F.d[p.rows[j] + 1][1]), FMul(T12, amp))
                      /\ Near(F(p.F.d[j][2]), F(e.F.d[p.rows[j] + 1][2]), FMul(T12, amp))
    IN Then(Chk("there is a finite structure factor per reflection", e.F.fin /\ e.F.sh = <<n, 2>>),
            Chk("structure factors are the sum over atoms and symmetries", \A j \in 1..n : ok(j))
            \o Chk("structure factors do not depend on the other reflections of the batch", \A p \in 1..Len(e.parts) : part(e.parts[p])))
=============================================================================
