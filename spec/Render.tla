-------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* What the image of a peak is (C12 C13 C23): where its intensity may go,  *)
(* how much of it there is, where its centre lies and how wide it is.      *)
(***************************************************************************)
EXTENDS Detector

(* ---------------------- bodies as lists of tetrahedra ---------------------- *)
TetVol(t) == FDiv(FAbs(Dot(VSub(t[2], t[1]), Cross(VSub(t[3], t[1]), VSub(t[4], t[1])))), F(6))
Prism(a, b) == <<<<a[1], a[2], a[3], b[1]>>, <<a[2], a[3], b[1], b[2]>>, <<a[3], b[1], b[2], b[3]>>>>
(* the part of t with n.x <= d *)
ClipTet(t, f) ==
    LET s == [j \in 1..4 |-> FSub(Dot(f.n, t[j]), f.d)]
        in == SelectSeq(<<1, 2, 3, 4>>, LAMBDA j : FLeq(s[j], Zero))
        out == SelectSeq(<<1, 2, 3, 4>>, LAMBDA j : ~FLeq(s[j], Zero))
        cut(a, b) == VAdd(t[a], VScale(FDiv(s[a], FSub(s[a], s[b])), VSub(t[b], t[a])))
    IN CASE Len(in) = 4 -> <<t>>
         [] Len(in) = 0 -> <<>>
         [] Len(in) = 1 -> <<<<t[in[1]], cut(in[1], out[1]), cut(in[1], out[2]), cut(in[1], out[3])>>>>
         [] Len(in) = 2 -> Prism(<<t[in[1]], cut(in[1], out[1]), cut(in[1], out[2])>>, <<t[in[2]], cut(in[2], out[1]), cut(in[2], out[2])>>)
         [] Len(in) = 3 -> Prism(<<t[in[1]], t[in[2]], t[in[3]]>>, <<cut(in[1], out[1]), cut(in[2], out[1]), cut(in[3], out[1])>>)
ClipBody(b, f) == FoldLeft(LAMBDA acc, t : acc \o SelectSeq(ClipTet(t, f), LAMBDA x : FLt(F("1e-40"), TetVol(x))), <<>>, b)
ClipAll(b, faces) == FoldLeft(LAMBDA acc, f : ClipBody(acc, f), b, faces)
BodyVol(b) == Sum([j \in 1..Len(b) |-> TetVol(b[j])])

(* ------------------------- shadow of a body, in pixels ------------------------- *)
Pixel2(d, ko, x) == LET h == Hit(d, ko, x) IN <<FDiv(h.zd, d.pz), FDiv(h.yd, d.py), h.s>>
ShadowOf(d, ko, b) ==
    LET q == TLCEval([j \in 1..Len(b) |-> [v |-> TetVol(b[j]), p |-> TLCEval([i \in 1..4 |-> Pixel2(d, ko, b[j][i])])]])
        V == Sum([j \in 1..Len(q) |-> q[j].v])
        first(c) == FDiv(Sum([j \in 1..Len(q) |-> FMul(q[j].v, FDiv(Sum([i \in 1..4 |-> q[j].p[i][c]]), F(4)))]), V)
        mz == first(1)  my == first(2)
        second(a, b2, ma, mb) ==
            FDiv(Sum([j \in 1..Len(q) |->
                LET x == [i \in 1..4 |-> FSub(q[j].p[i][a], ma)]
                    y == [i \in 1..4 |-> FSub(q[j].p[i][b2], mb)]
                IN FMul(q[j].v, FDiv(FAdd(Sum([i \in 1..4 |-> FMul(x[i], y[i])]), FMul(Sum(x), Sum(y))), F(20)))]), V)
        pts == FoldLeft(LAMBDA acc, x : acc \o x.p, <<>>, q)
    IN [v |-> V, z |-> mz, y |-> my, zz |-> second(1, 1, mz, mz), yy |-> second(2, 2, my, my), zy |-> second(1, 2, mz, my), pts |-> pts,
        front |-> \A j \in 1..Len(pts) : FLt(Zero, pts[j][3]),
        zlo |-> MinOf([j \in 1..Len(pts) |-> pts[j][1]]), zhi |-> MaxOf([j \in 1..Len(pts) |-> pts[j][1]]),
        ylo |-> MinOf([j \in 1..Len(pts) |-> pts[j][2]]), yhi |-> MaxOf([j \in 1..Len(pts) |-> pts[j][2]])]

(* directions in which a shadow is bounded *)
Dirs == TLCEval([k \in 1..16 |-> LET a == FDiv(FMul(F(k), FPi), F(8)) IN <<FCos(a), FSin(a)>>])
Support(pts) == TLCEval([k \in 1..16 |-> MaxOf([j \in 1..Len(pts) |-> FAdd(FMul(Dirs[k][1], pts[j][1]), FMul(Dirs[k][2], pts[j][2]))])])
InShadow(sup, i, j, margin) ==
    \A k \in 1..16 : FLeq(FAdd(FMul(Dirs[k][1], F(i)), FMul(Dirs[k][2], F(j))),
                          FAdd(sup[k], FMul(margin, FAdd(FAbs(Dirs[k][1]), FAbs(Dirs[k][2])))))

(* --------------------------- size classes (auto) --------------------------- *)
MacroLimit(d, given) == IF FIsNum(given) THEN F(given) ELSE LET p == FMin(d.pz, d.py) IN FMul(p, FMul(p, p))
(* which of macro micro nano a crystal volume is rendered as; exactly one *)
SizeClass(d, vol, macro, micro) ==
    IF FLeq(MacroLimit(d, macro), vol) THEN "macro" ELSE IF FLt(vol, F(micro)) THEN "nano" ELSE "micro"
(* a volume that rounding of the limit may put on either side *)
ClassOpen(d, vol, macro) == ~FIsNum(macro) /\ RNear(vol, MacroLimit(d, macro), F("1e-12"), Zero)

(* --------------------------------- spots --------------------------------- *)
(* point spread actually applied by the convolution, and its half width in pixels *)
PsfVar(d) == FMul(d.sigma, d.sigma)
Wide(d) == FSqrt(FAdd(F("0.49"), PsfVar(d)))

(* spot of a micro crystal *)
MicroSpot(d, r) ==
    LET z == FDiv(F(r[26]), d.pz)  y == FDiv(F(r[27]), d.py)
        w == FAdd(FMul(F(4), Wide(d)), F("2.5"))
    IN [kind |-> "micro", f |-> FFloor(F(r[29])), z |-> z, y |-> y, lo |-> FMul(F(r[30]), F(r[22])), hi |-> FMul(F(r[30]), F(r[22])), loss |-> F("2e-4"),
        rz |-> w, ry |-> w, need |-> w]
(* full width at half maximum of the size broadening, along the two edges in pixels *)
NanoWidth(d, r) == LET h == Hit(d, At3(r, 14), At3(r, 17)) IN FMul(F(r[24]), FAbs(h.len))
NanoSpot(d, r) ==
    LET z == FDiv(F(r[26]), d.pz)  y == FDiv(F(r[27]), d.py)
        w == NanoWidth(d, r)
        p == FMul(F("4.8"), FMax(FDiv(w, d.pz), FDiv(w, d.py)))
        reach == FAdd(FAdd(p, FMul(F(7), d.sigma)), F(d.maxr + 11))
    IN [kind |-> "nano", f |-> FFloor(F(r[29])), z |-> z, y |-> y, lo |-> FMul(F(r[30]), F(r[22])), hi |-> FMul(F(r[30]), F(r[22])), loss |-> FAdd(d.thr, F("1e-6")),
        rz |-> reach, ry |-> reach, need |-> FAdd(FMax(F(IF FLeq(d.sigma, F(2)) THEN 9 ELSE 17), p), F(d.maxr + 2)), wz |-> FDiv(w, d.pz), wy |-> FDiv(w, d.py)]

Inside(d, q) ==
    /\ FLeq(q.need, q.z) /\ FLeq(FAdd(q.z, q.need), F(d.nz - 1))
    /\ FLeq(q.need, q.y) /\ FLeq(FAdd(q.y, q.need), F(d.ny - 1))
ReachedBy(q, i, j) == FLeq(FAbs(FSub(F(i), q.z)), q.rz) /\ FLeq(FAbs(FSub(F(j), q.y)), q.ry)
(* length of the ray through x along the unit vector u within a tetrahedron; its forms are positive inside *)
FormsOf(t) == [j \in 1..4 |->
    LET o == CHOOSE a \in {<<2, 3, 4>>, <<1, 3, 4>>, <<1, 2, 4>>, <<1, 2, 3>>} : j \notin {a[1], a[2], a[3]}
        c == Cross(VSub(t[o[2]], t[o[1]]), VSub(t[o[3]], t[o[1]]))
        n == IF FLt(Dot(c, VSub(t[j], t[o[1]])), Zero) THEN VNeg(c) ELSE c
    IN [n |-> n, o |-> Dot(n, t[o[1]])]]
LowestOf(S) == CHOOSE v \in S : \A w \in S : FLeq(v, w)
HighestOf(S) == CHOOSE v \in S : \A w \in S : FLeq(w, v)
Chord(forms, x, u) ==
    LET a == [j \in 1..4 |-> FSub(Dot(forms[j].n, x), forms[j].o)]
        b == [j \in 1..4 |-> Dot(forms[j].n, u)]
        flat(j) == FLeq(FAbs(b[j]), FMul(F("1e-25"), Norm(forms[j].n)))
        up == {j \in 1..4 : ~flat(j) /\ FLt(Zero, b[j])}
        down == {j \in 1..4 : ~flat(j) /\ FLt(b[j], Zero)}
        at(j) == FNeg(FDiv(a[j], b[j]))
    IN IF (\E j \in 1..4 : flat(j) /\ FLt(a[j], Zero)) \/ up = {} \/ down = {} THEN Zero
       ELSE FMax(Zero, FSub(LowestOf({at(j) : j \in down}), HighestOf({at(j) : j \in up})))
Thickness(body, x, u) == Sum([n \in 1..Len(body) |-> Chord(body[n], x, u)])
===============================================================================
