----------------------------- MODULE SessionModel -----------------------------
(***************************************************************************)
(* A session at the beam line (C07): two samples that share their phases,  *)
(* one beam that can be reshaped and one of another energy, two detectors  *)
(* and two scans.  What a result means is fixed by the state of sample and *)
(* beam at the time of its computation and by its arguments, and never     *)
(* changes.                                                                *)
(***************************************************************************)
EXTENDS TLC, Sequences, Naturals, FiniteSets, SequencesExt
Samples == {"P", "Q"}
(* p, q: moves of the samples so far, in order; beam: its shape; results: the meanings of all results *)
Clean == [P |-> "", Q |-> "", beam |-> "0", results |-> <<>>]
Meaning(st, o) == o.who \o "." \o st[o.who] \o "." \o (IF o.beam = "B" THEN "B" ELSE st.beam) \o "." \o o.bounds \o "." \o o.scan
After(st, o) ==
    CASE o.k = "move" -> [st EXCEPT ![o.who] = @ \o o.m]
      [] o.k = "reshape" -> [st EXCEPT !.beam = o.m]
      [] o.k = "diffract" -> [st EXCEPT !.results = Append(@, Meaning(st, o))]
      [] OTHER -> st
(* what an operation must show, as the name of a reference *)
Shown(st, o) ==
    CASE o.k = "diffract" -> "peaks " \o Meaning(st, o)
      [] o.k = "render" -> "image " \o st.results[o.r] \o " " \o o.det \o " " \o o.how
      [] o.k = "hits" -> "hits " \o st.results[o.r] \o " " \o o.det \o " " \o o.how
      [] o.k = "result" -> "peaks " \o st.results[o.r]
      [] o.k = "sample" -> "sample " \o o.who \o "." \o st[o.who]
      [] o.k = "beam" -> "beam " \o st.beam
      [] o.k = "detector" -> "detector " \o o.det
      [] o.k = "scan" -> "scan " \o o.scan
      [] OTHER -> ""
================================================================================
