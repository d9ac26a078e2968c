--------------------------------- MODULE Store ---------------------------------
(* The histories of saving and loading that are executed (C14).               *)
EXTENDS StoreModel, Json
CONSTANTS Depth, Emit
VARIABLES obj, store, hist
vars == <<obj, store, hist>>
Init == obj = <<>> /\ store = <<>> /\ hist = <<>>
Move(m) == obj' = Moved(obj, m) /\ store' = store /\ hist' = Append(hist, [op |-> m, file |-> ""])
Save(f) == obj' = obj /\ store' = Stored(store, f, obj) /\ hist' = Append(hist, [op |-> "save", file |-> f])
Load(f) == f \in DOMAIN store /\ obj' = store[f] /\ store' = store /\ hist' = Append(hist, [op |-> "load", file |-> f])
Next == /\ Len(hist) < Depth
        /\ (\E m \in Moves : Move(m)) \/ (\E f \in Files : Save(f) \/ Load(f))
        /\ (Len(hist') = Depth /\ Emit /\ \E j \in 1..Depth : hist'[j].op = "load") => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
(* the moves in effect: those since the last load on top of those in effect when that file was last saved *)
RECURSIVE Effect(_)
Effect(h) ==
    IF h = <<>> THEN <<>>
    ELSE LET x == h[Len(h)]  b == SubSeq(h, 1, Len(h) - 1)
         IN IF x.op = "load" THEN LET S == {j \in 1..Len(b) : b[j].op = "save" /\ b[j].file = x.file}
                                      k == CHOOSE j \in S : \A i \in S : i <= j
                                  IN Effect(SubSeq(b, 1, k))
            ELSE IF x.op \in Moves \ {"use"} THEN Append(Effect(b), x.op) ELSE Effect(b)
RoundTrip == obj = Effect(hist)
OnlySaved == \A f \in DOMAIN store : \E j \in 1..Len(hist) : hist[j].op = "save" /\ hist[j].file = f
(* loading right after saving is no change *)
Idempotent == \A f \in DOMAIN store : hist # <<>> /\ hist[Len(hist)] = [op |-> "save", file |-> f] => store[f] = obj
================================================================================
