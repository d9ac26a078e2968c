------------------------------ MODULE DeviceModel ------------------------------
(***************************************************************************)
(* The device selection (C21): which device is used, and whether there is  *)
(* a GPU.  Requests are told apart by what they ask for.                   *)
(***************************************************************************)
EXTENDS TLC, Sequences, Naturals
Wants == {"cpu", "gpu", "auto", "invalid"}
Fresh == [dev |-> "cpu", gpu |-> FALSE]
Chosen(st, want) == CASE want = "invalid" -> st.dev
                      [] want \in {"gpu", "auto"} /\ st.gpu -> "cuda"
                      [] OTHER -> "cpu"
After(st, o) == CASE o.k = "hardware" -> [st EXCEPT !.gpu = o.gpu]
                  [] o.k = "request" -> [st EXCEPT !.dev = Chosen(st, o.want)]
                  (* the package is imported by a new process on this hardware *)
                  [] o.k = "import" -> [st EXCEPT !.dev = "cpu"]
                  [] OTHER -> st
================================================================================
