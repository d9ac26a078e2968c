-------------------------------- MODULE Session --------------------------------
(* The sessions that are executed (C07), and what is checked of the model.    *)
EXTENDS SessionModel, Json
CONSTANTS Depth, Emit
VARIABLES st, hist, seen
vars == <<st, hist, seen>>
(* the operations of the exhaustive part; longer walks use more of them *)
Ops(s) == {[k |-> "move", who |-> "P", m |-> "a"], [k |-> "reshape", m |-> "1"], [k |-> "scribble"],
           [k |-> "diffract", who |-> "P", bounds |-> "1", scan |-> "1", beam |-> "A"], [k |-> "diffract", who |-> "P", bounds |-> "2", scan |-> "1", beam |-> "A"],
           [k |-> "diffract", who |-> "P", bounds |-> "1", scan |-> "1", beam |-> "B"], [k |-> "diffract", who |-> "Q", bounds |-> "1", scan |-> "1", beam |-> "A"]}
          \cup {[k |-> "render", r |-> r, det |-> d, how |-> "macro/1"] : r \in 1..Len(s.results), d \in {"1", "2"}}
Init == st = Clean /\ hist = <<>> /\ seen = <<>>
Do(o) == /\ st' = After(st, o)
         /\ seen' = (IF Shown(st, o) = "" THEN seen ELSE Append(seen, [at |-> Len(hist) + 1, ref |-> Shown(st, o)]))
         /\ hist' = Append(hist, o)
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops(st) : Do(o)
        /\ (Emit /\ Len(hist') = Depth /\ hist'[Depth].k \in {"render", "diffract"}) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
(* meanings are never revised *)
Kept == [][Len(st.results) <= Len(st'.results) /\ SubSeq(st'.results, 1, Len(st.results)) = st.results]_vars
(* the same operation shows the same unless its own sample was moved or the beam reshaped in between *)
Changes(i, j, who) == \E n \in i..j : hist[n].k = "reshape" \/ (hist[n].k = "move" /\ hist[n].who = who)
SameShown == \A a \in 1..Len(seen), b \in 1..Len(seen) :
               (seen[a].at < seen[b].at /\ hist[seen[a].at] = hist[seen[b].at]) =>
                   \/ seen[a].ref = seen[b].ref
                   \/ hist[seen[a].at].k = "diffract" /\ Changes(seen[a].at, seen[b].at, hist[seen[a].at].who)
(* scribbling over the caller's arrays is no transition of the session *)
Inert == [][hist' # hist /\ hist'[Len(hist')].k = "scribble" => st' = st]_vars
================================================================================
