----------------------------- MODULE ContractModel -----------------------------
(***************************************************************************)
(* The contract of inputs (C22): calls with arguments that can or cannot   *)
(* be honoured.  Live objects are a beam, which can be given new vertices, *)
(* and a mesh, which can be rotated; both are named by the changes that    *)
(* were accepted.  A call that is rejected changes nothing.                *)
(***************************************************************************)
EXTENDS TLC, Sequences, Naturals, FiniteSets, SequencesExt
Clean == [beam |-> "0", mesh |-> ""]
(* o: a call; ok: it was honoured *)
After(st, o, ok) ==
    CASE ok /\ o.k = "reshape" -> [st EXCEPT !.beam = o.m]
      [] ok /\ o.k = "turn" -> [st EXCEPT !.mesh = @ \o o.m]
      [] OTHER -> st
Key(st) == st.beam \o "|" \o st.mesh

(* the kinds of argument in every position, and the acceptable ones *)
Slots == [
    motion |-> [axis |-> {"unit", "long", "short", "near", "zero", "nan"}, ang |-> {"inside", "tiny", "close", "zero", "pi", "above", "negative", "nan"}],
    turn |-> [axis |-> {"unit", "long", "near", "zero"}, ang |-> {"inside", "zero", "pi", "above", "negative"}],
    beam |-> [verts |-> {"corners", "interior", "edge", "face", "duplicate", "flat", "three"}, pol |-> {"perp", "scaled", "slight", "tilted", "along", "zero"}],
    reshape |-> [verts |-> {"corners", "interior", "edge", "face", "duplicate", "flat", "three"}],
    poly |-> [U |-> {"one", "each", "fewer", "more", "flat9", "swapped", "vector", "row"}, E |-> {"one", "each", "fewer", "more", "flat9", "swapped", "vector", "row"}, ph |-> {"one", "list", "two", "two unmapped"}],
    template |-> [missing |-> 0..13, axis |-> {"unit", "long"}, ang |-> {"inside", "above", "zero"}],
    render |-> [how |-> {"micro", "nano", "macro", "auto", "unknown"}, frames |-> {1, 2}, what |-> {"some", "none"}],
    load |-> [cls |-> {"motion", "beam", "detector", "polycrystal"}, name |-> {"right", "other", "none", "upper", "inner", "glued"}],
    diffract |-> [lo |-> {"zero", "some", "negative", "beyond", "equal", "nan"}, hi |-> {"default", "given", "none", "small"}, lit |-> {"yes", "no"}],
    detector |-> [n |-> {"none", "one", "pair"}, size |-> {"none", "one", "pair"}],
    level |-> [f |-> {"ball", "outside", "inside", "constant"}]]
Fine(k, slot, x) ==
    CASE slot = "axis" -> x = "unit"
      [] slot = "ang" -> x \in {"inside", "tiny", "close"}
      [] slot = "verts" -> x = "corners"
      [] slot = "pol" -> x \in {"perp", "scaled"}
      [] slot \in {"U", "E"} -> x \in {"one", "each"}
      [] slot = "ph" -> x # "two unmapped"
      [] slot = "missing" -> x \in {0, 13}
      [] slot = "how" -> x # "unknown"
      [] slot = "name" -> x = "right"
      [] slot = "lo" -> x \in {"zero", "some"}
      [] slot = "f" -> x = "ball"
      [] OTHER -> TRUE
(* positions that depend on each other *)
Together(o) == o.k = "detector" => ((o.n = "none") # (o.size = "none"))
Honoured(o) == Together(o) /\ \A s \in DOMAIN Slots[o.k] : Fine(o.k, s, o[s])
(* the number of positions that are not acceptable *)
Wrong(o) == Cardinality({s \in DOMAIN Slots[o.k] : ~Fine(o.k, s, o[s])})
===============================================================================
