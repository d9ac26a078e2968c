------------------------------ MODULE SizeClasses ------------------------------
(***************************************************************************)
(* Automatic choice of the rendering method (C23): every crystal volume    *)
(* has exactly one class for any limits, in any order of the limits, and   *)
(* bigger crystals are never drawn in a class meant for smaller ones.      *)
(* The states are the mixtures of crystals that are executed.              *)
(***************************************************************************)
EXTENDS Render, Json
CONSTANTS Emit, MaxPeaks
VARIABLE q
(* a volume relative to the limits: below, on and above each of them *)
Where == {"tiny", "micro-", "micro=", "micro+", "macro-", "macro=", "macro+", "huge"}
Limits == {"default", "apart", "equal", "crossed", "nomacro", "nonano"}
Rank == [tiny |-> 1, huge |-> 8] @@ ("micro-" :> 2) @@ ("micro=" :> 3) @@ ("micro+" :> 4) @@ ("macro-" :> 5) @@ ("macro=" :> 6) @@ ("macro+" :> 7)
Bags == UNION {{f \in [1..n -> Where] : \A i \in 1..(n - 1) : Rank[f[i]] <= Rank[f[i + 1]]} : n \in 0..MaxPeaks}
Init == \E b \in Bags, l \in Limits :
          /\ q = [peaks |-> b, limits |-> l]
          /\ Emit => PrintT("@@CASE " \o ToJson(q))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

D == [pz |-> FQ(1, 2), py |-> FQ(3, 4)]
Micro == [default |-> "0.001", apart |-> "0.03125", equal |-> "0.0625", crossed |-> "0.25", nomacro |-> "0.03125", nonano |-> "0"][q.limits]
Macro == [default |-> "inf", apart |-> "0.5", equal |-> "0.0625", crossed |-> "0.0625", nomacro |-> "1e20", nonano |-> "0.5"][q.limits]
Lim(w) == IF w \in {"micro-", "micro=", "micro+"} THEN F(Micro) ELSE MacroLimit(D, Macro)
Vol(w) == CASE w = "tiny" -> F("1e-9")
            [] w = "huge" -> F("1e3")
            [] w \in {"micro-", "macro-"} -> FMul(Lim(w), FSub(One, F("1e-10")))
            [] w \in {"micro=", "macro="} -> Lim(w)
            [] OTHER -> FMul(Lim(w), FAdd(One, F("1e-10")))
Class(v) == SizeClass(D, v, Macro, Micro)
Volumes == {Vol(w) : w \in Where}
Order == [nano |-> 1, micro |-> 2, macro |-> 3]
Total == \A v \in Volumes : Class(v) \in {"nano", "micro", "macro"}
Monotone == \A v \in Volumes, w \in Volumes : FLeq(v, w) => Order[Class(v)] <= Order[Class(w)]
OnLimit == /\ Class(Vol("macro=")) = "macro"
           /\ (FLt(F(Micro), MacroLimit(D, Macro))) => Class(Vol("micro=")) = "micro" /\ (q.limits # "nonano" => Class(Vol("micro-")) = "nano") /\ Class(Vol("macro-")) = "micro"
(* a pixel's own volume is the documented default *)
Default == q.limits = "default" => Near(MacroLimit(D, Macro), FQ(1, 8), F("1e-50"))
(* the parts of a mixture are all of it *)
Parts == \A c \in {"nano", "micro", "macro"} : LET S == {i \in DOMAIN q.peaks : Class(Vol(q.peaks[i])) = c} IN \A x \in {"nano", "micro", "macro"} \ {c} : S \cap {i \in DOMAIN q.peaks : Class(Vol(q.peaks[i])) = x} = {}
================================================================================
