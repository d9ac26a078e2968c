------------------------------ MODULE LaueRoots ------------------------------
(***************************************************************************)
(* The tangent-half-angle equation c0 + c1 cos phi + c2 sin phi = 0 over a *)
(* grid of coefficients that contains every degenerate situation: tangent  *)
(* (double) roots, roots at the start of the scan, a vanishing quadratic   *)
(* term (root at phi = pi), vanishing linear terms, no roots, signs.       *)
(* Checked: the solution operator really solves it and finds as many       *)
(* solutions as sign changes show.  Each case is emitted.                  *)
(***************************************************************************)
EXTENDS Laue, Json
CONSTANT Emit
Coefs == {-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5}
Angs == {<<1, 100>>, <<1, 2>>, <<157, 100>>, <<3, 1>>, <<314, 100>>}
VARIABLE q
Init == \E a \in Coefs, b \in Coefs, c \in Coefs :
          /\ q = [r0 |-> a, r1 |-> b, r2 |-> c]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
C == [c0 |-> F(q.r2), c1 |-> F(q.r0), c2 |-> F(q.r1)]
Val(phi) == FAdd(C.c0, FAdd(FMul(C.c1, FCos(phi)), FMul(C.c2, FSin(phi))))
Solves == \A an \in Angs : LET ang == FQ(an[1], an[2])  s == TimesOf(C, ang) IN
             \A x \in 1..Len(s) : Near(Val(FMul(s[x].t, ang)), Zero, F("1e-20"))
(* between consecutive samples of a fine grid, a sign change of Val means a solution there *)
N == 24
Sound == \A an \in Angs : LET ang == FQ(an[1], an[2])
                              s == TLCEval(TimesOf(C, ang))
                              v == TLCEval([k \in 0..N |-> FSign(Val(FMul(ang, FQ(k, N))))])
                          IN \A k \in 0..(N - 1) : v[k] * v[k + 1] = -1 =>
                               \E x \in 1..Len(s) : FLeq(FQ(k, N), s[x].t) /\ FLeq(s[x].t, FQ(k + 1, N))
AtMostTwo == \A an \in Angs : Len(TimesOf(C, FQ(an[1], an[2]))) <= 2
==============================================================================
