----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recorded sessions with objects that are saved, loaded, used and changed *)
(* (C14 C07).  Every observation is compared with a reference: the same    *)
(* observation of an object made afresh in the state that the              *)
(* specification says it is in.                                            *)
(***************************************************************************)
EXTENDS MotionTrace, Picture
Store == INSTANCE StoreModel WITH Moves <- {"a", "b", "use"}, Files <- {}

(* observations: a sequence of [n, v] with v an array *)
RECURSIVE Flat(_, _)
Flat(x, n) == IF n = 0 THEN <<x>> ELSE IF n = 1 THEN x ELSE FoldLeft(LAMBDA acc, y : acc \o Flat(y, n - 1), <<>>, x)
SameNumbers(a, b, rel) ==
    LET x == Flat(a.d, Len(a.sh))  y == Flat(b.d, Len(b.sh))
        num(v) == IF FIsNum(v) THEN F(v) ELSE Zero
        m == FMul(F(rel), FAdd(F("1e-6"), MaxOf(<<Zero>> \o [j \in 1..Len(x) |-> FAbs(num(x[j]))])))
    IN /\ Len(x) = Len(y)
       /\ \A j \in 1..Len(x) : x[j] = y[j] \/ (FIsNum(x[j]) /\ FIsNum(y[j]) /\ Near(F(x[j]), F(y[j]), m))
SameArray(a, b, rel) == /\ a.sh = b.sh /\ a.k = b.k
                        /\ (a.d = b.d \/ (a.k \in {"float", "int"} /\ SameNumbers(a, b, rel)))
(* the names of the observations that differ, as clauses *)
Differences(what, a, b, rel) ==
    Then(Chk(what \o " is described by the same things", Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j].n = b[j].n),
         FoldLeft(LAMBDA acc, j : acc \o Chk(what \o ": " \o a[j].n \o " differs", SameArray(a[j].v, b[j].v, rel)), <<>>, [j \in 1..Len(a) |-> j]))

RefOf(st, key) == LET S == SelectSeq(st.refs, LAMBDA x : x.key = key) IN S[1].snap

(* a new session with an object of a class; refs: sequence of [key, snap] *)
StoreBegin(st, e) == [id |-> st.id, refs |-> e.refs, obj |-> <<>>, store |-> <<>>, rel |-> e.rel, exts |-> e.exts, made |-> {}]
JudgeStoreBegin(s, e) == LET st == StoreBegin(s, e) IN Differences("a new object", e.snap, RefOf(st, <<>>), e.rel)
(* the name given was the stem, with or without the extension: the files are the same *)
FilesOf(stem, exts) == {stem \o exts[j] : j \in 1..Len(exts)}
StoreAfter(s, e) ==
    CASE e.act \in {"a", "b", "use"} -> ("obj" :> Store!Moved(s.obj, e.act)) @@ s
      [] e.act = "save" -> ("store" :> Store!Stored(s.store, e.stem, s.obj)) @@ ("made" :> (s.made \cup FilesOf(e.stem, e.exts))) @@ s
      [] e.act = "load" -> ("obj" :> s.store[e.stem]) @@ s
JudgeStoreStep(s, e) ==
    LET t == StoreAfter(s, e)
        what == CASE e.act = "save" -> "an object that was saved" [] e.act = "load" -> "a loaded object" [] OTHER -> "an object used after loading or saving"
    IN (IF e.act = "save" \/ e.act = "load"
        THEN Chk("files are written exactly where named and loading writes none", {e.dir[j] : j \in 1..Len(e.dir)} = t.made)
        ELSE <<>>)
       \o (IF e.act = "save" THEN Chk("what is passed along to a save is left as it was", e.passed = e.passed_after) ELSE <<>>)
       \o Differences(what, e.snap, RefOf(s, t.obj), s.rel)

(* e: strain (sample), U (sample), pmap, coord, enod; fields as read from the file by name *)
JudgeXdmf(s, e) ==
    LET n == e.strain.sh[1]
        get(x) == LET S == SelectSeq(e.fields, LAMBDA f : f.n = x) IN IF S = <<>> THEN [sh |-> <<0>>, fin |-> FALSE, d |-> <<>>] ELSE S[1].v
        has(x) == get(x).fin /\ get(x).sh = <<n>>
        names == <<"Strain Tensor Component xx", "Strain Tensor Component yy", "Strain Tensor Component zz", "Strain Tensor Component xy", "Strain Tensor Component xz", "Strain Tensor Component yz">>
        ix == <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>>>>
        ang == <<"Bunge Euler Angle phi_1 [degrees]", "Bunge Euler Angle Phi [degrees]", "Bunge Euler Angle phi_2 [degrees]">>
        rad(x) == Rad(F(x))
        bunge(j) == Bunge(rad(get(ang[1]).d[j]), rad(get(ang[2]).d[j]), rad(get(ang[3]).d[j]))
        sameM(A, B) == \A a \in 1..3, b \in 1..3 : Near(A[a][b], F(B[a][b]), F("1e-6"))
    IN Then(Chk("the picture of the sample has all its fields", e.ok /\ \A a \in 1..6 : has(names[a]) /\ \A b \in 1..3 : has(ang[b]) /\ has("Material Phase Index")),
        Chk("the picture shows the strain", \A a \in 1..6 : \A j \in 1..n : Near(F(get(names[a]).d[j]), F(e.strain.d[j][ix[a][1]][ix[a][2]]), T9))
        \o Chk("the picture shows the orientations", \A j \in 1..n : sameM(bunge(j), e.U.d[j]))
        \o Chk("the picture shows the phases", \A j \in 1..n : F(get("Material Phase Index").d[j]) = F(e.pmap[j]))
        \o Chk("the picture shows the misorientations",
               LET nm == "Misorientation from mean orientation [degrees]"
                   m(j) == rad(get(nm).d[j])
                   M(j) == [a \in 1..3 |-> V3(e.U.d[j][a])]
                   cosOf(i, j) == CosBetween(M(i), M(j))
                   most(x) == IF FLeq(FPi, x) THEN FNeg(One) ELSE FCos(x)
               IN has(nm) /\ \A i \in 1..n, j \in 1..n :
                    /\ FLeq(FNeg(T6), m(i))
                    /\ FLeq(FSub(most(FAdd(m(i), m(j))), T6), cosOf(i, j))
                    /\ n = 1 => Near(m(1), Zero, T6))
        \o Chk("the picture shows the angles to the mean orientation",
               LET m == get("Misorientation from mean orientation [degrees]")
                   Us == MatsOf(e.U)
                   R == TLCEval(MeanRotation(Us))
               IN (has("Misorientation from mean orientation [degrees]") /\ MeanFirm(Us)) => \A j \in 1..n : IsAngleBetween(rad(m.d[j]), Us[j], R, T6))
        \o Chk("the picture shows the elements", e.coord.sh = e.xcoord.sh /\ SameNumbers(e.xcoord, e.coord, "1e-12") /\ e.xenod.d = e.enod.d))

(* a mesh saved with data of its elements: data, coord and enod as given, fields, xcoord and xenod as read *)
JudgeXdmfMesh(s, e) ==
    Then(Chk("the picture of a mesh has the data given and no other", e.ok /\ {e.fields[j].n : j \in 1..Len(e.fields)} = {e.data[j].n : j \in 1..Len(e.data)} /\ Len(e.fields) = Len(e.data)),
        Chk("the picture of a mesh shows the data of each element", \A i \in 1..Len(e.data), j \in 1..Len(e.fields) :
               e.data[i].n = e.fields[j].n => (e.data[i].v.sh = e.fields[j].v.sh /\ SameNumbers(e.fields[j].v, e.data[i].v, "1e-12")))
        \o Chk("the picture shows the elements", e.coord.sh = e.xcoord.sh /\ SameNumbers(e.xcoord, e.coord, "1e-12") /\ e.xenod.d = e.enod.d))

(* ------------------------------- sessions (C07) ------------------------------- *)
Sess == INSTANCE SessionModel
SessionBegin(s, e) == [id |-> s.id, refs |-> e.refs, sess |-> Sess!Clean, rel |-> e.rel]
What(o) == CASE o.k = "diffract" -> "peaks of a diffraction" [] o.k = "render" -> "a rendered image" [] o.k = "hits" -> "detector hits" [] o.k = "result" -> "an earlier result"
             [] o.k = "sample" -> "a sample that was used" [] o.k = "beam" -> "a beam that was used" [] o.k = "detector" -> "a detector that was used" [] OTHER -> "a motion that was used"
SessionAfter(s, e) == ("sess" :> Sess!After(s.sess, e.o)) @@ s
JudgeSessionStep(s, e) ==
    LET key == Sess!Shown(s.sess, e.o)
    IN IF key = "" THEN <<>> ELSE Differences(What(e.o), e.snap, RefOf(s, key), s.rel)

(* --------------------------- device selection (C21) --------------------------- *)
Dev == INSTANCE DeviceModel
DeviceBegin(st) == [id |-> st.id, device |-> Dev!Fresh]
DeviceAfter(st, e) == ("device" :> Dev!After(st.device, e.o)) @@ st
JudgeDeviceStep(st, e) ==
    LET t == Dev!After(st.device, e.o)
    IN (IF e.o.k # "request" THEN <<>>
        ELSE IF e.o.want = "invalid" THEN Chk("an invalid device is rejected", e.err)
        ELSE Then(Chk("a valid device is accepted", ~e.err), Chk("the call returns the device selected", e.ret = t.dev)))
       \o Chk("the selected device is the one the requests and the hardware give", e.sel = t.dev)
       \o Chk("tensors are created on the selected device", e.def = t.dev)
=============================================================================
