----------------------------- MODULE FactorTrace -----------------------------
(* Batches of rays given to the factor functions (C19).                      *)
EXTENDS Factors

Same(x, y) == x = y \/ (FIsNum(x) /\ FIsNum(y) /\ RNear(F(x), F(y), F("1e-12"), F("1e-15")))
(* e: k, axis, pol, lam, ko (n,3), lor, pola, tth, vol, wid (n), alone: lor, pola, wid of each ray asked for alone *)
JudgeFactorBatch(s, e) ==
    LET n == e.ko.sh[1]
        k == V3(e.k.d)
        ax == V3(e.axis.d)
        p == V3(e.pol.d)
        ko(j) == V3(e.ko.d[j])
        has(f) == f \in {e.has[j] : j \in 1..Len(e.has)}
    IN (IF ~has("lor") THEN <<>> ELSE
        Then(Chk("there is a Lorentz factor per ray", e.lor.sh = <<n>>),
             Chk("the Lorentz factor of each ray is 1/(sin 2theta |sin eta|), infinite only near the beam or the axis plane",
                 \A j \in 1..n : LorentzOk(e.lor.d[j], k, ko(j), ax))
             \o Chk("the Lorentz factor of a ray does not depend on its batch", \A j \in 1..n : Same(e.lor.d[j], e.alone_lor[j]))))
     \o (IF ~has("pola") THEN <<>> ELSE
        Then(Chk("there is a polarization factor per ray", e.pola.sh = <<n>>),
             Chk("the polarization factor of each ray is one minus the squared cosine to the polarization",
                 \A j \in 1..n : PolarizationOk(e.pola.d[j], ko(j), p))
             \o Chk("the polarization factor of a ray does not depend on its batch", \A j \in 1..n : Same(e.pola.d[j], e.alone_pola[j]))))
     \o (IF ~has("wid") THEN <<>> ELSE
        Then(Chk("there is a width per ray", e.wid.sh = <<n>>),
             Chk("the width of each peak is Scherrer's", \A j \in 1..n : ScherrerOk(e.wid.d[j], F(e.vol.d[j]), F(e.tth.d[j]), F(e.lam)))
             \o Chk("the width of a peak does not depend on its batch", \A j \in 1..n : Same(e.wid.d[j], e.alone_wid[j]))))
==============================================================================
