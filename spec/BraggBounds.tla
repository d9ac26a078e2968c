----------------------------- MODULE BraggBounds -----------------------------
(***************************************************************************)
(* The set of reflections within Bragg bounds, model checked on small      *)
(* lattices of every crystal system: closed under Friedel pairs and under  *)
(* the operations of the group, monotone in the bounds, additive over      *)
(* adjacent intervals, and complete (the enumeration box misses nothing).  *)
(* The states are also the calls whose bounds the implementation is given: *)
(* lower bound, upper bound (or none, when the detector decides), detector *)
(* present or not (or with a corner on the beam axis), sample lit or not.  *)
(***************************************************************************)
EXTENDS Crystal, Json
CONSTANT Emit
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Neg == <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>
TwoZ == <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>>>
TwoX == <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>
TwoY == <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>
Op(r, t) == [r |-> r, fr |-> M3(r), t |-> V3(t)]
Half == "0.5"
Lattices == [
    p1   |-> [cell |-> <<F(3), F("3.3"), F(4), F(80), F(95), F(105)>>, ops |-> <<Op(I3, <<0, 0, 0>>)>>],
    pm1  |-> [cell |-> <<F(3), F("3.3"), F(4), F(100), F(85), F(75)>>, ops |-> <<Op(I3, <<0, 0, 0>>), Op(Neg, <<0, 0, 0>>)>>],
    p222 |-> [cell |-> <<F(3), F("3.7"), F(4), F(90), F(90), F(90)>>,
              ops |-> <<Op(I3, <<0, 0, 0>>), Op(TwoZ, <<Half, 0, Half>>), Op(TwoX, <<Half, Half, 0>>), Op(TwoY, <<0, Half, Half>>)>>],
    i1   |-> [cell |-> <<F(3), F("3.7"), F(4), F(90), F(98), F(90)>>, ops |-> <<Op(I3, <<0, 0, 0>>), Op(I3, <<Half, Half, Half>>)>>]]
Cuts == <<Zero, F("0.1"), F("0.22"), F("0.4")>>
VARIABLE q
Init == \/ \E n \in DOMAIN Lattices : q = [k |-> "lattice", n |-> n]
        \/ \E lo \in {"zero", "some", "near"}, hi \in {"default", "given", "none", "small"}, det \in {"no", "yes", "axis"}, lit \in {"all", "part", "none"}, steps \in 0..1 :
              /\ (hi \in {"none", "default"} => det # "no")
              /\ q = [k |-> "call", lo |-> lo, hi |-> hi, det |-> det, lit |-> lit, steps |-> steps]
              /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Set(lo, hi) == LET r == Reflections(Lattices[q.n].cell, Lattices[q.n].ops, lo, hi) IN r.firm \cup r.maybe
L == Lattices[q.n]
Symmetric == q.k = "lattice" => LET S == TLCEval(Set(Zero, Cuts[4])) IN
    \A h \in S : <<-h[1], -h[2], -h[3]>> \in S /\ \A o \in 1..Len(L.ops) : HR(h, L.ops[o].r) \in S
Additive == q.k = "lattice" =>
    /\ Set(Cuts[1], Cuts[4]) = Set(Cuts[1], Cuts[2]) \cup Set(Cuts[2], Cuts[3]) \cup Set(Cuts[3], Cuts[4])
    /\ Set(Cuts[2], Cuts[3]) \cap Set(Cuts[3], Cuts[4]) \subseteq {}
(* nothing outside the enumeration box: the next shell of it holds no reflection *)
Complete == q.k = "lattice" =>
    LET G == RecMetric(L.cell)
        hi2 == FMul(Cuts[4], Cuts[4])
    IN \A h \in {<<a, b, c>> : a \in -6..6, b \in -6..6, c \in -6..6} \ {<<0, 0, 0>>} :
          (FLeq(Stl2(h, G), hi2) /\ ~Absent(h, L.ops)) => h \in Set(Zero, Cuts[4])
==============================================================================
