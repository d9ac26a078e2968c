------------------------------ MODULE FactorGrid ------------------------------
(***************************************************************************)
(* The factors of a ray over a grid of scattering angles, azimuths and     *)
(* rotation axes, checked with exact arithmetic: the Lorentz factor is     *)
(* infinite exactly within the tolerance, otherwise at least one, mirror   *)
(* symmetric; the polarization factor lies in [0,1]; the peak width falls  *)
(* with size and grows with the angle.  The states are the cases that the  *)
(* implementation is given: one special ray at some place of a batch.      *)
(***************************************************************************)
EXTENDS Factors, Json
CONSTANT Emit, Batches
(* tenths of a degree *)
Thetas == {0, 2, 4, 6, 20, 150, 400, 449, 451, 700, 880, 900}
Etas == {0, 4, 6, 300, 900, 1500, 1794, 1796, 1800}
Axes == [perp |-> <<Zero, Zero, One>>, perpDown |-> <<Zero, Zero, F(-1)>>, tilt |-> <<FQ(3, 5), Zero, FQ(4, 5)>>, back |-> <<FQ(-7, 25), FQ(24, 25), Zero>>, along |-> <<One, Zero, Zero>>]
VARIABLE q
Init == \E th \in Thetas, et \in Etas, a \in DOMAIN Axes, n \in Batches, p \in {"first", "last", "all"} :
          /\ q = [theta |-> th, eta |-> et, axis |-> a, n |-> n, pos |-> p]
          /\ (n = 1 => p = "first")
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Tenth(tenths) == FDiv(FMul(F(tenths), FPi), F(1800))
K == <<F(7), Zero, Zero>>
(* the ray at scattering angle 2 theta and azimuth eta from the projected axis (or from z when the axis is along the beam) *)
Ray(th, et, ax) ==
    LET w == PerpPart(K, ax)
        e1 == IF FLt(Norm(w), F("1e-9")) THEN <<Zero, Zero, One>> ELSE Unit(w)
        e2 == Cross(<<One, Zero, Zero>>, e1)
        u == VAdd(VScale(FCos(et), e1), VScale(FSin(et), e2))
    IN VScale(Norm(K), VAdd(VScale(FCos(FMul(F(2), th)), <<One, Zero, Zero>>), VScale(FSin(FMul(F(2), th)), u)))
A == Axes[q.axis]
Ko == Ray(Tenth(q.theta), Tenth(q.eta), A)
Mirror == Ray(Tenth(q.theta), FNeg(Tenth(q.eta)), A)
Tol == F("1e-30")
Once == q.pos = "first" /\ \A n \in Batches : q.n <= n
AngleBack == Once => Near(TwoTheta(K, Ko), FMul(F(2), Tenth(q.theta)), Tol)
Sideways == q.theta \notin {0, 900}  \* the ray has an azimuth
EtaBack == (Once /\ Sideways /\ q.axis \in {"perp", "perpDown"}) => Near(FAcos(Clamp1(CosEta(K, Ko, A))), Tenth(q.eta), F("1e-25"))
LorentzWhere == Once =>
    LET c == LorentzClass(K, Ko, A)
        near == q.theta < 5 \/ (q.axis \in {"perp", "perpDown"} /\ (q.eta < 5 \/ q.eta > 1795))
    IN c = (IF q.theta = 900 THEN "back" ELSE IF near THEN "inf" ELSE "finite")
LorentzAtLeastOne == (Once /\ LorentzClass(K, Ko, A) = "finite") => FLeq(One, LorentzValue(K, Ko, A))
LorentzMirror == (Once /\ LorentzClass(K, Ko, A) = "finite") => RNear(LorentzValue(K, Ko, A), LorentzValue(K, Mirror, A), Tol, Zero)
LorentzDef == (Once /\ q.axis = "perp" /\ LorentzClass(K, Ko, A) = "finite") =>
    Near(FMul(LorentzValue(K, Ko, A), FAbs(FMul(FSin(FMul(F(2), Tenth(q.theta))), FSin(Tenth(q.eta))))), One, F("1e-25"))
PolRange == Once => \A p \in {<<Zero, One, Zero>>, <<Zero, FQ(3, 5), FQ(4, 5)>>} :
    LET x == Polarization(Ko, p) IN FLeq(Zero, FAdd(x, Tol)) /\ FLeq(x, One)
WidthFalls == (Once /\ q.theta # 900) => Near(Scherrer(F(8), Tenth(q.theta), F("0.5")), FDiv(Scherrer(One, Tenth(q.theta), F("0.5")), F(2)), Tol)
=============================================================================
