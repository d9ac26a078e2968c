------------------------------ MODULE TextureGrid ------------------------------
(***************************************************************************)
(* Filling a sample element by element from a density (C20): the bins of a *)
(* small grid cover all orientations once, a draw takes a bin of positive  *)
(* probability at the place of its element, and a density that is not      *)
(* normalised somewhere stops everything.  The initial states are the      *)
(* cases that are executed.                                                *)
(***************************************************************************)
EXTENDS Texture, Json, Integers
CONSTANTS Emit, MaxN, Elements
VARIABLES q, placed
vars == <<q, placed>>
Bins == {"b1", "b2", "b3"}
(* densities: which of three bins are positive on the two sides of the sample *)
Density(d, side) == CASE d = "one" -> {"b1"} [] d = "pair" -> {"b1", "b2"} [] d = "sides" -> (IF side = "left" THEN {"b1"} ELSE {"b2"})
                      [] d = "mixed" -> (IF side = "left" THEN {"b1", "b3"} ELSE {"b2"}) [] d = "uniform" -> Bins
Norms == {"exact", "low", "high", "zero", "lowright"}
Sum1(nm, side) == nm = "exact" \/ (nm = "lowright" /\ side = "left")
Init == /\ \E n \in 1..MaxN, d \in {"one", "pair", "sides", "mixed", "uniform"}, nm \in Norms, st \in {"none", "constant", "field"} :
             q = [n |-> n, density |-> d, norm |-> nm, strain |-> st, done |-> "no"]
        /\ placed = <<>>
        /\ Emit => PrintT("@@CASE " \o ToJson(q))
Place(side, b) == /\ q.done = "no" /\ Len(placed) < Elements
                  /\ IF Sum1(q.norm, side) THEN /\ b \in Density(q.density, side) /\ placed' = Append(placed, <<side, b>>) /\ UNCHANGED q
                     ELSE q' = [q EXCEPT !.done = "rejected"] /\ UNCHANGED placed
Finish == q.done = "no" /\ Len(placed) = Elements /\ q' = [q EXCEPT !.done = "made"] /\ UNCHANGED placed
Next == Finish \/ \E side \in {"left", "right"}, b \in Bins : Place(side, b)
Spec == Init /\ [][Next]_vars

Supported == \A i \in 1..Len(placed) : placed[i][2] \in Density(q.density, placed[i][1])
Normalised == q.done = "made" => \A i \in 1..Len(placed) : Sum1(q.norm, placed[i][1])
(* the bins of a grid: their measures add up to the half sphere, their centres are orientations that belong to them alone *)
N == q.n
Covers == (placed = <<>> /\ q.density = "one" /\ q.norm = "exact" /\ q.strain = "none") =>
    /\ Near(FMul(F(4 * N), Sum([x \in 1..(2 * N * N) |-> Measure(N, (x - 1) \div (2 * N), (x - 1) % (2 * N))])), FMul(FPi, FPi), F("1e-40"))
    /\ \A i \in 0..(N - 1), j \in {0, 2 * N - 1}, k \in {0, 2 * N, 4 * N - 1} :
         LET c == Centre(N, i, j, k)  u == QuatOf(RotOf(FromAngles(c)))  a == Angles(u)
         IN /\ \A m \in 1..3 : Near(a[m], c[m], F("1e-40"))
            /\ IsRot(RotOf(FromAngles(c)), F("1e-40"))
            /\ \A i2 \in 0..(N - 1), k2 \in 0..(4 * N - 1) : InBin(a, Centre(N, i2, j, k2), N, F("-1e-9")) <=> (i2 = i /\ k2 = k)
================================================================================
