---------------------------- MODULE PictureGrid ----------------------------
(***************************************************************************)
(* Samples whose picture is looked at: a base orientation on a grid of     *)
(* Bunge angles, including those where the first and last are not          *)
(* separable, elements turned from it by equal and opposite angles so that *)
(* the mean is known, and what was done before the picture was taken.      *)
(***************************************************************************)
EXTENDS Picture, Json
CONSTANT Emit
Phi1s == {0, 90, 210}
PHIs == {0, 1, 90, 179, 180}
Phi2s == {0, 45, 330}
Turns == {0, 5, 40}
VARIABLE q
Init == \E p1 \in Phi1s, P \in PHIs, p2 \in Phi2s, d \in Turns, a \in {"one", "pair", "triple", "cross", "off"}, m \in {"as made", "moved", "loaded", "moved and loaded"} :
    /\ q = [p1 |-> p1, P |-> P, p2 |-> p2, d |-> d, arr |-> a, before |-> m]
    /\ (a = "one" => d = 0)
    /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
A(x) == Rad(F(x))
Base == Bunge(A(q.p1), A(q.P), A(q.p2))
(* turned from the base about z, x and y *)
Set == LET d == A(q.d) n == FNeg(d) t(M) == MM(Base, M) IN
    CASE q.arr = "one" -> <<Base>>
      [] q.arr = "pair" -> <<t(RotZ(d)), t(RotZ(n))>>
      [] q.arr = "triple" -> <<t(RotX(d)), Base, t(RotX(n))>>
      [] q.arr = "cross" -> <<t(RotX(d)), t(RotY(d)), t(RotX(n)), t(RotY(n))>>
      [] q.arr = "off" -> <<Base, Base, t(RotY(d))>>
Once == q.before = "as made"
Tol == F("1e-25")
Proper == Once => IsRot(Base, Tol)
(* where the middle angle vanishes only the sum of the others matters, where it is straight their difference *)
Locked == Once => /\ (q.P = 0 => MNear(Base, RotZ(FAdd(A(q.p1), A(q.p2))), Tol))
                  /\ (q.P = 180 => MNear(Base, Bunge(FSub(A(q.p1), A(q.p2)), FPi, Zero), Tol))
Twofold == Once => MNear(Base, Bunge(FAdd(A(q.p1), FPi), FNeg(A(q.P)), FAdd(A(q.p2), FPi)), Tol)
MeanKnown == (Once /\ q.arr # "off") => MeanFirm(Set) /\ MNear(MeanRotation(Set), Base, Tol)
MeanProper == (Once /\ q.p1 = 0) => IsRot(MeanRotation(Set), Tol)
(* no other rotation nearby is closer to all of them *)
Cost(R) == Sum([j \in 1..Len(Set) |-> FSub(One, CosBetween(Set[j], R))])
MeanClosest == (Once /\ q.p1 = 0) => LET R == MeanRotation(Set) IN
    \A e \in {A(1), FNeg(A(1)), A(20)} : \A M \in {RotX(e), RotY(e), RotZ(e)} : FLt(Cost(R), Cost(MM(R, M)))
AnglesKnown == (Once /\ q.arr # "off") => \A j \in 1..Len(Set) :
    IsAngleBetween(IF q.arr = "one" \/ (q.arr = "triple" /\ j = 2) THEN Zero ELSE A(q.d), Set[j], MeanRotation(Set), Tol)
=============================================================================
