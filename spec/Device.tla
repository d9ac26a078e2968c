-------------------------------- MODULE Device --------------------------------
EXTENDS DeviceModel, Json
CONSTANTS Depth, Emit
VARIABLES st, hist
vars == <<st, hist>>
Ops(s) == {[k |-> "request", want |-> w] : w \in Wants} \cup {[k |-> "hardware", gpu |-> ~s.gpu], [k |-> "import"]}
Init == st = Fresh /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops(st) : /\ st' = After(st, o)
                              /\ hist' = Append(hist, o)
        /\ (Emit /\ Len(hist') = Depth) => PrintT("@@CASE " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

Requests == SelectSeq(hist, LAMBDA o : o.k = "request" /\ o.want # "invalid")
(* the GPU is used only after a last valid request that wanted it, made while there was one *)
Honest == st.dev = "cuda" => Requests # <<>> /\ Requests[Len(Requests)].want \in {"gpu", "auto"}
NoMagic == [][st'.dev = "cuda" /\ st.dev # "cuda" => st.gpu]_vars
Stays == [][st'.dev # st.dev => hist'[Len(hist')].k = "import" \/ (hist'[Len(hist')].k = "request" /\ hist'[Len(hist')].want # "invalid")]_vars
CpuObeyed == (hist # <<>> /\ hist[Len(hist)] = [k |-> "request", want |-> "cpu"]) => st.dev = "cpu"
GpuObeyed == (hist # <<>> /\ hist[Len(hist)].k = "request" /\ hist[Len(hist)].want \in {"gpu", "auto"}) => (st.dev = "cuda" <=> st.gpu)
================================================================================
