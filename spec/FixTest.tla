------------------------------- MODULE FixTest -------------------------------
(* The real arithmetic satisfies the laws the specification relies on.      *)
EXTENDS Vec
Vals == {F(0), F(1), F("-2.5"), FQ(1, 3), F("1e-7"), F("12345.678"), F("0.1")}
VARIABLE x
Init == x \in Vals
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Eps == F("1e-45")
Sane ==
    /\ \A y \in Vals : FAdd(x, y) = FAdd(y, x) /\ FSub(FAdd(x, y), y) = x /\ Near(FMul(x, y), FMul(y, x), Eps)
    /\ \A y \in Vals \ {F(0)} : Near(FMul(FDiv(x, y), y), x, Eps)
    /\ Near(FSqrt(FMul(x, x)), FAbs(x), Eps)
    /\ Near(FAdd(FMul(FSin(x), FSin(x)), FMul(FCos(x), FCos(x))), One, Eps)
    /\ (FLeq(FAbs(x), F(3)) => Near(FAtan2(FSin(x), FCos(x)), x, Eps))
    /\ (FLeq(FAbs(x), F(3)) => Near(FAcos(FCos(x)), FAbs(x), F("1e-25")))
    /\ (FLeq(FAbs(x), F(3)) => Near(FMul(FExp(x), FExp(FNeg(x))), One, Eps))
    /\ Near(FMul(FCbrt(FAbs(x)), FMul(FCbrt(FAbs(x)), FCbrt(FAbs(x)))), FAbs(x), Eps)
    /\ FFloor(F("-2.5")) = -3 /\ FFloor(F("7.99")) = 7
    /\ Near(FSin(FPi), Zero, Eps) /\ Near(FPi, F("3.141592653589793"), F("1e-15"))
    /\ F("0.1") # FQ(1, 10) /\ Near(F("0.1"), FQ(1, 10), F("1e-17"))
==============================================================================
