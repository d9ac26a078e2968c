------------------------------- MODULE Contract -------------------------------
(* The calls and histories that are executed (C22), and what is checked of    *)
(* the model: histories mix calls that are honoured with ones that are not.   *)
EXTENDS ContractModel, Json
CONSTANTS Depth, Emit
VARIABLES st, hist, single
vars == <<st, hist, single>>
(* all combinations of kinds of arguments of call k *)
RECURSIVE Combos(_, _)
Combos(k, ss) == IF ss = {} THEN {[k |-> k, m |-> "a"]}
                 ELSE LET s == CHOOSE s \in ss : TRUE
                      IN {(s :> x) @@ o : x \in Slots[k][s], o \in Combos(k, ss \ {s})}
All(k) == Combos(k, DOMAIN Slots[k])
(* every argument alone, and pairs for the calls with few combinations *)
Alone == UNION {{o \in All(k) : Wrong(o) <= 1 \/ k \notin {"poly", "diffract", "template", "beam"}} : k \in DOMAIN Slots}
Mutators == {[k |-> "reshape", m |-> m, verts |-> v] : m \in {"a", "b"}, v \in {"corners", "interior", "flat"}}
            \cup {[k |-> "turn", m |-> "a", axis |-> x, ang |-> y] : x \in {"unit", "long"}, y \in {"inside", "above"}}
Users == {[k |-> "diffract", m |-> "a", lo |-> l, hi |-> "given", lit |-> "yes"] : l \in {"zero", "beyond"}}
         \cup {[k |-> "render", m |-> "a", how |-> h, frames |-> 2, what |-> "some"] : h \in {"micro", "unknown"}}
Init == st = Clean /\ hist = <<>> /\ single \in BOOLEAN
Do(o) == /\ st' = After(st, o, Honoured(o))
         /\ hist' = Append(hist, o)
         /\ UNCHANGED single
Next == \/ single /\ hist = <<>> /\ \E o \in Alone : Do(o) /\ (Emit => PrintT("@@CASE " \o ToJson([ok |-> Honoured(o), h |-> <<o>>])))
        \/ ~single /\ Len(hist) < Depth /\ \E o \in Mutators \cup Users :
               Do(o) /\ ((Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson([ok |-> TRUE, h |-> hist'])))
Spec == Init /\ [][Next]_vars
(* what happened is what would have happened without the rejected calls *)
Kept == SelectSeq(hist, LAMBDA o : Honoured(o))
Inert == st = FoldLeft(LAMBDA s, o : After(s, o, TRUE), Clean, Kept)
(* a call in which every position is acceptable is honoured, one wrong position is enough to reject it *)
Exactly == \A j \in 1..Len(hist) : Honoured(hist[j]) => Wrong(hist[j]) = 0
Step1 == [][~Honoured(hist'[Len(hist')]) => st' = st]_vars
===============================================================================
