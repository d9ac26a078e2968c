-------------------------------- MODULE Batches --------------------------------
(***************************************************************************)
(* Rendering peaks batch by batch (C12).  A renderer takes peaks in some   *)
(* order, as many at a time as memory allows, and adds each to the image   *)
(* of its frame.  Whatever the order and the memory, no peak is lost or    *)
(* shown twice, and the finished image is that of the peaks.  Histories    *)
(* are the schedules that are executed.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS Emit, N, K
VARIABLES order, frame, cap, left, img, grow
vars == <<order, frame, cap, left, img, grow>>
Peaks == 1..N
Orders == {o \in [1..N -> Peaks] : \A i, j \in 1..N : i # j => o[i] # o[j]}
(* as many frames patterns as there are ways to use K frames *)
Init == /\ order \in Orders
        /\ frame \in [Peaks -> 0..(K - 1)]
        /\ cap \in 1..N
        /\ grow \in BOOLEAN  \* memory that frees up while rendering
        /\ left = order
        /\ img = [f \in 0..(K - 1) |-> <<>>]
Take == LET n == IF cap < Len(left) THEN cap ELSE Len(left)
            batch == SubSeq(left, 1, n)
        IN /\ left # <<>>
           /\ img' = [f \in DOMAIN img |-> img[f] \o SelectSeq(batch, LAMBDA p : frame[p] = f)]
           /\ left' = SubSeq(left, n + 1, Len(left))
           /\ cap' = IF grow /\ cap < N THEN cap + 1 ELSE cap
           /\ UNCHANGED <<order, frame, grow>>
           /\ (Emit /\ left' = <<>> => PrintT("@@CASE " \o ToJson([order |-> order, frame |-> [p \in Peaks |-> frame[p]], cap |-> cap, grow |-> grow])))
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Take)
Shown == UNION {{img[f][j] : j \in 1..Len(img[f])} : f \in DOMAIN img}
Count == Len(left) + FoldLeft(LAMBDA a, f : a + Len(img[f]), 0, SetToSeq(DOMAIN img))
Once == Count = N /\ Shown \cup {left[j] : j \in 1..Len(left)} = Peaks
OwnFrame == \A f \in DOMAIN img : \A j \in 1..Len(img[f]) : frame[img[f][j]] = f
Finished == left = <<>> => \A f \in DOMAIN img : {img[f][j] : j \in 1..Len(img[f])} = {p \in Peaks : frame[p] = f}
Ends == <>(left = <<>>)
================================================================================
