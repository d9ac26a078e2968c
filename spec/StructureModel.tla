---------------------------- MODULE StructureModel ----------------------------
(***************************************************************************)
(* The structure factor sum over small exact crystals: every combination   *)
(* of centring, atom kinds, displacement kinds and dispersion.  Checked:   *)
(* the sum has the symmetry crystallography says (Friedel pairs without    *)
(* dispersion, symmetry equivalents, systematic absences), is additive in  *)
(* the atoms, linear in occupancy and proportional to the number of        *)
(* lattice points.  Each combination is emitted as a crystal to build.     *)
(***************************************************************************)
EXTENDS Crystal, Json
CONSTANT Emit
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Neg == <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>
TwoZ == <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>>>
Op(r, t) == [r |-> r, fr |-> M3(r), t |-> V3(t)]
Half == "0.5"
Groups == [P1 |-> <<Op(I3, <<0, 0, 0>>)>>,
           Pm1 |-> <<Op(I3, <<0, 0, 0>>), Op(Neg, <<0, 0, 0>>)>>,
           P21 |-> <<Op(I3, <<0, 0, 0>>), Op(TwoZ, <<0, 0, Half>>)>>,
           I1 |-> <<Op(I3, <<0, 0, 0>>), Op(I3, <<Half, Half, Half>>)>>]
Cell == <<F(3), F("3.7"), F(4), F(90), F(90), F(98)>>
Pos == [gen |-> <<F("0.13"), F("0.27"), F("0.39")>>, org |-> VZero, half |-> <<F("0.5"), Zero, F("0.25")>>]
Uani == <<<<F("0.02"), F("0.004"), F("-0.003")>>, <<F("0.004"), F("0.01"), F("0.002")>>, <<F("-0.003"), F("0.002"), F("0.03")>>>>
Atom(c) == [pos |-> Pos[c.pos], occ |-> IF c.occ = "part" THEN F("0.4") ELSE One, a |-> <<F(5), F(3), F(2), F(1)>>, b |-> <<F(3), F(30), F("0.5"), F(80)>>, c |-> One,
            fp |-> IF c.disp THEN F("-0.6") ELSE Zero, fpp |-> IF c.disp THEN F("0.8") ELSE Zero,
            adp |-> c.adp, u |-> IF c.adp = "ani" THEN Uani ELSE IF c.adp = "iso" THEN F("0.015") ELSE Zero]
Other == [pos |-> <<F("0.6"), F("0.1"), F("0.8")>>, occ |-> One, a |-> <<One, One, One, One>>, b |-> <<One, F(2), F(3), F(4)>>, c |-> F(-1), fp |-> Zero, fpp |-> Zero, adp |-> "iso", u |-> F("0.01")]
Hs == {<<h, k, l>> : h \in -1..1, k \in 0..2, l \in -1..2} \ {<<0, 0, 0>>}
VARIABLE q
Init == \E g \in DOMAIN Groups, p \in DOMAIN Pos, o \in {"full", "part"}, d \in BOOLEAN, u \in {"iso", "ani", "none"}, two \in BOOLEAN :
          /\ q = [g |-> g, pos |-> p, occ |-> o, disp |-> d, adp |-> u, two |-> two]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Ops == Groups[q.g]
Atoms == IF q.two THEN <<Atom(q), Other>> ELSE <<Atom(q)>>
SF(h, at) == StructureFactor(h, Cell, Ops, at)
Tol == F("1e-35")
I(h) == Intensity(SF(h, Atoms))
Friedel == (~q.disp \/ q.g = "Pm1") => \A h \in Hs : Near(I(h), I(<<-h[1], -h[2], -h[3]>>), Tol)
Equivalent == \A h \in Hs : \A o \in 1..Len(Ops) : Near(I(h), I(HR(h, Ops[o].r)), Tol)
AbsentIsZero == \A h \in Hs : Absent(h, Ops) => Near(I(h), Zero, Tol)
Additive == q.two => \A h \in Hs : LET a == SF(h, <<Atom(q)>>) b == SF(h, <<Other>>) c == SF(h, Atoms) IN
               Near(FAdd(a[1], b[1]), c[1], Tol) /\ Near(FAdd(a[2], b[2]), c[2], Tol)
(* dispersion breaks Friedel's law where there is no centre of symmetry *)
Anomalous == (q.disp /\ q.two /\ q.g \in {"P1", "I1"} /\ q.pos = "gen") => \E h \in Hs : ~Near(I(h), I(<<-h[1], -h[2], -h[3]>>), F("1e-3"))
===============================================================================
