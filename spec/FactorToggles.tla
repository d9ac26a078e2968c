----------------------------- MODULE FactorToggles -----------------------------
(***************************************************************************)
(* The intensity factor of a peak is the product of exactly the enabled    *)
(* factors (C11).  States: the switches of a detector and what the three   *)
(* factors of a peak are.  A peak is shown only where the product is a     *)
(* positive number; turning a switch off removes exactly its factor.       *)
(***************************************************************************)
EXTENDS Detector, Json
CONSTANT Emit
Values == [pos |-> "2.5", small |-> "1e-12", big |-> "1e9", zero |-> "0.0", inf |-> "inf", nan |-> "nan", neg |-> "-1.5"]
VARIABLE q
Init == \E a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, l \in {"pos", "big", "inf", "nan"}, p \in {"pos", "small", "zero", "nan"}, f \in {"pos", "big", "zero", "inf", "neg"} :
          /\ q = [lor |-> a, pol |-> b, sf |-> c, l |-> l, p |-> p, f |-> f]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
It(sw) == IntensityOf(sw, Values[q.l], Values[q.p], Values[q.f])
Sw(a, b, c) == [lor |-> a, pol |-> b, sf |-> c]
Me == Sw(q.lor, q.pol, q.sf)
Good(x) == x \in {"pos", "small", "big"}
ShownWhenEnabledAreGood == LET bad == {x \in {<<q.lor, q.l>>, <<q.pol, q.p>>, <<q.sf, q.f>>} : x[1] /\ ~Good(x[2])} IN It(Me).ok = (bad = {})
NoneIsOne == (~q.lor /\ ~q.pol /\ ~q.sf) => It(Me).ok /\ It(Me).v = One
Factorises == (q.lor /\ It(Me).ok) => RNear(It(Me).v, FMul(F(Values[q.l]), It(Sw(FALSE, q.pol, q.sf)).v), F("1e-40"), F("1e-50"))
Independent == ~q.sf => It(Me) = IntensityOf(Me, Values[q.l], Values[q.p], "nan")
================================================================================
