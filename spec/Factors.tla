------------------------------- MODULE Factors -------------------------------
(* Lorentz, polarization and size broadening factors of one ray (C19).       *)
EXTENDS Crystal

(* two theta and eta (against the rotation axis) in radians *)
Clamp1(x) == FMax(FNeg(One), FMin(One, x))
TwoTheta(k, ko) == FAcos(Clamp1(FDiv(Dot(k, ko), FMul(Norm(k), Norm(ko)))))
PerpPart(k, ko) == VSub(ko, VScale(FDiv(Dot(k, ko), Norm2(k)), k))
CosEta(k, ko, axis) == FDiv(Dot(axis, PerpPart(k, ko)), FMul(Norm(axis), Norm(PerpPart(k, ko))))
AngleTol == F("0.5")
(* "inf", "finite" or "either" (rounding decides), or "back": so close to    *)
(* straight back that the factor, huge, hangs on the rounding of the ray     *)
LorentzClass(k, ko, axis) ==
    LET m == F("1e-7")
        th == FDiv(Deg(TwoTheta(k, ko)), F(2))
    IN IF FLt(th, FSub(AngleTol, m)) THEN "inf"
       ELSE IF FLt(FSub(F(90), th), F("1e-3")) THEN "back"
       ELSE LET eta == Deg(FAcos(Clamp1(CosEta(k, ko, axis))))
                e == FMin(eta, FSub(F(180), eta))
            IN IF FLt(e, FSub(AngleTol, m)) THEN "inf"
               ELSE IF FLt(th, FAdd(AngleTol, m)) \/ FLt(e, FAdd(AngleTol, m)) THEN "either" ELSE "finite"
LorentzValue(k, ko, axis) ==
    LET s2 == FSin(TwoTheta(k, ko))
        ce == CosEta(k, ko, axis)
    IN FDiv(One, FMul(s2, FSqrt(FSub(One, FMul(ce, ce)))))
LorentzOk(x, k, ko, axis) ==
    LET c == LorentzClass(k, ko, axis) IN
    CASE c = "inf" -> x = "inf"
      [] c = "finite" -> FIsNum(x) /\ RNear(F(x), LorentzValue(k, ko, axis), F("1e-8"), Zero)
      [] c = "back" -> x = "inf" \/ (FIsNum(x) /\ FLt(F(1000), F(x)))
      [] c = "either" -> x = "inf" \/ (FIsNum(x) /\ RNear(F(x), LorentzValue(k, ko, axis), F("1e-8"), Zero))

Polarization(ko, p) == LET c == Dot(ko, p) IN FSub(One, FDiv(FMul(c, c), FMul(Norm2(ko), Norm2(p))))
PolarizationOk(x, ko, p) == FIsNum(x) /\ Near(F(x), Polarization(ko, p), F("1e-12")) /\ FLeq(F(x), One) /\ FLeq(F("-1e-15"), F(x))

(* volume in cubic microns, wavelength in Angstrom, result in radians *)
Scherrer(vol, tth, lam) ==
    LET D == FMul(F(20000), FCbrt(FDiv(FMul(F(3), vol), FMul(F(4), FPi))))
    IN FDiv(FMul(F("0.9"), lam), FMul(D, FCos(FDiv(tth, F(2)))))
ScherrerOk(x, vol, tth, lam) == FIsNum(x) /\ RNear(F(x), Scherrer(vol, tth, lam), F("1e-9"), Zero)
=============================================================================
