------------------------------- MODULE FrameBins -------------------------------
(***************************************************************************)
(* Division of the scan into k frames (C10).  Every time of [0,1] belongs  *)
(* to exactly one frame, later times never to earlier frames, every frame  *)
(* holds its upper but not its lower end, and merging frames coarsens.     *)
(* The states are the (k, time) cases that are executed.                   *)
(***************************************************************************)
EXTENDS Detector, Json
CONSTANTS Emit, MaxK
VARIABLE q
Where == {"zero", "below", "edge", "above", "middle", "one"}
Init == \E k \in 1..MaxK, w \in Where :
          /\ q = [k |-> k, where |-> w]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* exact times: multiples of 1/(4k) and their neighbours *)
T(j) == FQ(j, 4 * q.k)
In(i, t) == \/ i = 0 /\ t = Zero
            \/ FLt(FQ(i, q.k), t) /\ FLeq(t, FQ(i + 1, q.k))
Exact(t) == {i \in 0..(q.k - 1) : In(i, t)}
Partition == q.where = "edge" => \A j \in 0..(4 * q.k) : Cardinality(Exact(T(j))) = 1
(* times clear of an edge belong to one frame, the exact one; at an edge the exact one is among those allowed *)
Sound == q.where = "edge" => \A j \in 0..(4 * q.k) : /\ Exact(T(j)) \subseteq FramesOf(T(j), q.k)
                                                   /\ (j % 4 # 0 \/ j \in {0, 4 * q.k}) => FramesOf(T(j), q.k) = Exact(T(j))
Ordered == q.where = "edge" => \A j \in 1..(4 * q.k) : \A a \in Exact(T(j - 1)), b \in Exact(T(j)) : a <= b /\ b <= a + 1
(* the frames of 2k refine those of k *)
Refines == q.where = "edge" => \A j \in 0..(4 * q.k) : \A a \in Exact(T(j)) :
             \E b \in {2 * a, 2 * a + 1} : \/ b = 0 /\ T(j) = Zero
                                           \/ FLt(FQ(b, 2 * q.k), T(j)) /\ FLeq(T(j), FQ(b + 1, 2 * q.k))
================================================================================
