------------------------------- MODULE DetTrace -------------------------------
(* Judging detectors, detector intersections and images (C09-C13 C15 C23).   *)
EXTENDS Render

ColumnsIn == <<"grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times", "G0_x", "G0_y", "G0_z",
                 "Gx", "Gy", "Gz", "K_out_x", "K_out_y", "K_out_z", "Source_x", "Source_y", "Source_z", "lorentz_factors",
                 "polarization_factors", "volumes", "2theta", "scherrer_fwhm", "peak_index">>
ColumnsOut == ColumnsIn \o <<"zd", "yd", "incident_angle", "frame", "intensity_factors">>
IsWhole(x) == FIsNum(x) /\ F(x) = F(FFloor(F(x)))

(* e: c0.., zhat yhat normal zmax ymax pz py, grid (shape), some pixels: at (list of <<i,j>>), pts (n,3) *)
JudgeDetNew(s, e) ==
    LET d == TLCEval(DetOf(e))
        m == FMul(F("1e-9"), DetReach(d))
    IN Then(Chk("the detector reports vectors and numbers", /\ e.zhat.sh = <<3>> /\ e.yhat.sh = <<3>> /\ e.normal.sh = <<3>> /\ e.zhat.fin /\ e.yhat.fin /\ e.normal.fin
                                                       /\ FIsNum(e.zmax) /\ FIsNum(e.ymax) /\ FIsNum(e.pzo) /\ FIsNum(e.pyo)),
        Chk("edge directions are the unit vectors along the edges", VNear(V3(e.zhat.d), d.z, T9) /\ VNear(V3(e.yhat.d), d.y, T9))
        \o Chk("the normal is unit and perpendicular to the edges", /\ Near(Norm(V3(e.normal.d)), One, T9)
               /\ Near(Dot(V3(e.normal.d), d.z), Zero, T9) /\ Near(Dot(V3(e.normal.d), d.y), Zero, T9) /\ VNear(V3(e.normal.d), d.n, T9))
        \o Chk("edge lengths are those of the corners", Near(F(e.zmax), d.zl, m) /\ Near(F(e.ymax), d.yl, m))
        \o Chk("pixel sizes are those asked for", RNear(F(e.pzo), d.pz, T9, Zero) /\ RNear(F(e.pyo), d.py, T9, Zero))
        \o Chk("the detector has exactly the pixels that tile it", e.grid = <<d.nz, d.ny, 3>>))
     \o Chk("corners are kept", e.c0o.sh = <<3>> /\ e.c0o.fin /\ VNear(V3(e.c0o.d), d.c0, m) /\ VNear(V3(e.c1o.d), d.c1, m) /\ VNear(V3(e.c2o.d), d.c2, m))
     \o Chk("pixel (i,j) lies i and j pixel sides along the edges from the corner",
            e.pts.fin /\ \A a \in 1..Len(e.at) : VNear(V3(e.pts.d[a]), PixelPoint(d, e.at[a][1], e.at[a][2]), m))

(* Which of "yes" "no" "maybe" the detector keeps peak row r. *)
KeepClass(d, r) ==
    LET ko == At3(r, 14)
        src == At3(r, 17)
        h == Hit(d, ko, src)
        it == IntensityOf(d, r[20], r[21], r[6])
    IN IF ~it.ok THEN "no"
       ELSE IF h.graze THEN "maybe"
       ELSE LET tol == HitTol(d, h, src)
                in == InsideBy(d, h)
            IN IF FLt(h.len, FNeg(tol)) THEN "no"
               ELSE IF FLt(in, FNeg(tol)) THEN "no"
               ELSE IF FLt(tol, h.len) /\ FLt(tol, in) THEN "yes" ELSE "maybe"

(* e: det parameters, k, peaks (n,25), out (m,30), cols, after (peaks after the call), exact *)
JudgeIntersect(s, e) ==
    LET d == TLCEval(DetOf(e))
        rows == e.peaks.d
        n == Len(rows)
        out == e.out.d
        m == Len(out)
        cls == TLCEval([j \in 1..n |-> KeepClass(d, rows[j])])
        \* the peaks given have distinct peak indices
        src(o) == {j \in 1..n : rows[j][25] = out[o][25]}
        pos == TLCEval([o \in 1..m |-> LET c == src(o) IN IF c = {} THEN 0 ELSE LET j == CHOOSE j \in c : TRUE IN
                                            IF \A q \in 1..25 : rows[j][q] = out[o][q] THEN j ELSE 0])
        rowOk(o) ==
            LET r == out[o]
                h == Hit(d, At3(r, 14), At3(r, 17))
                tol == HitTol(d, h, At3(r, 17))
                it == IntensityOf(d, r[20], r[21], r[6])
            IN Chk("detector coordinates are where the ray meets the detector",
                   h.graze \/ (FIsNum(r[26]) /\ FIsNum(r[27]) /\ Near(F(r[26]), h.zd, tol) /\ Near(F(r[27]), h.yd, tol)))
            \o Chk("the incidence angle is that between the ray and the normal",
                   h.graze \/ (FIsNum(r[28]) /\ LET a == F(r[28]) IN
                       /\ FLeq(Zero, a) /\ FLeq(a, F(180))
                       /\ Near(FCos(FDiv(FMul(a, FPi), F(180))), FNeg(h.cosn), F("1e-11"))))
            \o Chk("the frame is that of the time of the peak", IsWhole(r[29]) /\ FFloor(F(r[29])) \in FramesOf(F(r[7]), e.k))
            \o Chk("the intensity factor is the product of the enabled factors", it.ok /\ FIsNum(r[30]) /\ RNear(F(r[30]), it.v, F("1e-12"), Zero))
        bad == {o \in 1..m : rowOk(o) # <<>>}
    IN Chk("the peaks given are not modified", e.peaks = e.after)
       \o Chk("the other entries of the diffraction result are passed on", e.other = <<>>)
       \o Chk("the documented columns are appended", e.cols = ColumnsOut /\ Len(e.out.sh) = 2 /\ e.out.sh[2] = 30)
       \o Then(Chk("kept rows carry all columns of their peak unchanged and keep their order",
                 \A o \in 1..m : pos[o] # 0 /\ (o > 1 => pos[o - 1] < pos[o])),
            Chk("peaks that meet the detector with a valid intensity are kept", \A j \in 1..n : cls[j] = "yes" => \E o \in 1..m : pos[o] = j)
            \o Chk("peaks that miss the detector or have no valid intensity are dropped", \A o \in 1..m : cls[pos[o]] # "no")
            \o (IF bad = {} THEN <<>> ELSE rowOk(CHOOSE o \in bad : TRUE)))

(* ------------------------------- images ------------------------------- *)
(* an image: [sh, dt, fin, px] with px the pixels that are not zero, as <<frame, row, column, value>> *)
Mass(px) == Sum([j \in 1..Len(px) |-> F(px[j][4])])
OfFrame(img, f) == SelectSeq(img.px, LAMBDA x : x[1] = f)
Precision(dt) == IF dt = "float64" THEN F("1e-6") ELSE F("1e-4")

(* e: world of volume rendering: coord enod motion beam *)
IlluminatedBody(e, faces, r) ==
    LET el == e.enod.d[FFloor(F(r[1])) + 1]
        m == MotionOf(e.motion)
        t == TLCEval([j \in 1..4 |-> Move(m, F(r[7]), V3(e.coord.d[el[j] + 1]))])
    IN [tet |-> t, body |-> TLCEval(ClipAll(<<t>>, faces))]
MacroSpot(d, e, faces, reach, r) ==
    LET ko == At3(r, 14)
        ib == IlluminatedBody(e, faces, r)
        V == BodyVol(ib.body)
        ext == MaxOf([j \in 1..4 |-> Dist(ib.tet[j], ib.tet[1])])
        \* the beam's faces may be off by this
        margin == BeamMargin(FMax(reach, Reached(ib.tet)))
        beyond(f, j) == FSub(Dot(faces[f].n, ib.tet[j]), faces[f].d)
        within == \A f \in 1..Len(faces) : \A j \in 1..4 : FLt(beyond(f, j), FNeg(margin))
        slack == IF within THEN FMul(T9, V) ELSE FMul(F(10), FMul(margin, FMul(ext, ext)))
        I == F(r[30])
        \* all corners beyond one face of the beam
        none == FLt(margin, MaxOf([f \in 1..Len(faces) |-> MinOf([j \in 1..4 |-> beyond(f, j)])]))
    IN IF FLeq(V, slack) THEN
            \* a sliver of the shadow of the whole element, or nothing
            LET sh == ShadowOf(d, ko, <<ib.tet>>) IN
            [kind |-> "macro", f |-> FFloor(F(r[29])), lo |-> Zero, hi |-> IF none THEN Zero ELSE FMul(I, FAdd(V, FMul(F(2), slack))), loss |-> One, odd |-> TRUE,
             sh |-> sh, sup |-> Support(sh.pts), none |-> none]
       ELSE LET sh == ShadowOf(d, ko, ib.body) IN
            [kind |-> "macro", f |-> FFloor(F(r[29])), lo |-> FMul(I, FSub(V, slack)), hi |-> FMul(I, FAdd(V, slack)), loss |-> F("1e-4"), odd |-> ~sh.front, sh |-> sh, sup |-> Support(sh.pts), none |-> FALSE,
             body |-> ib.body, u |-> Unit(ko), i |-> I, slack |-> slack]

SpotOf(d, e, faces, reach, r) ==
    LET k == IF e.method = "auto" THEN SizeClass(d, F(r[22]), e.macro, e.micro) ELSE e.method
    IN CASE k = "micro" -> MicroSpot(d, r)
         [] k = "nano" -> NanoSpot(d, r)
         [] k = "macro" -> MacroSpot(d, e, faces, reach, r)
Spread(d) == F(d.maxr + 1)
PixelReached(d, q, i, j) == IF q.kind = "macro" THEN ~q.none /\ InShadow(q.sup, i, j, FAdd(Spread(d), F("0.6"))) ELSE ReachedBy(q, i, j)
WellInside(d, q) ==
    IF q.kind = "macro" THEN ~q.odd /\ FLeq(Spread(d), q.sh.zlo) /\ FLeq(FAdd(q.sh.zhi, Spread(d)), F(d.nz - 1))
                                    /\ FLeq(Spread(d), q.sh.ylo) /\ FLeq(FAdd(q.sh.yhi, Spread(d)), F(d.ny - 1))
    ELSE Inside(d, q)

(* moments of the pixels of a frame *)
Centre(px, c) == FDiv(Sum([j \in 1..Len(px) |-> FMul(F(px[j][c]), F(px[j][4]))]), Mass(px))
Second(px, a, b, ma, mb) == FDiv(Sum([j \in 1..Len(px) |-> FMul(FMul(FSub(F(px[j][a]), ma), FSub(F(px[j][b]), mb)), F(px[j][4]))]), Mass(px))

Lit(px, T) == Len(SelectSeq(px, LAMBDA x : FLeq(FMul(F("1e-6"), T), F(x[4]))))
(* the image of a single large crystal without point spread: each pixel holds the length of the rays through it *)
Places == <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>>>
ProfileClause(d, q, px) ==
    LET large == /\ FLeq(d.sigma, F("0.1")) /\ Lit(px, Mass(px)) >= 40
                 /\ FLeq(F(10), FSub(q.sh.zhi, q.sh.zlo)) /\ FLeq(F(10), FSub(q.sh.yhi, q.sh.ylo))
    IN IF ~large THEN <<>> ELSE
       LET body == TLCEval([n \in 1..Len(q.body) |-> TLCEval(FormsOf(q.body[n]))])
           area == FMul(FMul(d.pz, d.py), FAbs(Dot(d.n, q.u)))
           at(z, y) == VAdd(d.c0, VAdd(VScale(FMul(z, d.pz), d.z), VScale(FMul(y, d.py), d.y)))
           i0 == FFloor(q.sh.zlo)  i1 == FFloor(q.sh.zhi)  j0 == FFloor(q.sh.ylo)  j1 == FFloor(q.sh.yhi)
           pix == [a \in 0..5, b \in 0..5 |-> <<i0 + ((i1 - i0) * a) \div 5, j0 + ((j1 - j0) * b) \div 5>>]
           shown(x) == LET z == SelectSeq(px, LAMBDA w : w[2] = x[1] /\ w[3] = x[2]) IN IF z = <<>> THEN Zero ELSE FDiv(F(z[1][4]), FMul(q.i, area))
           \* the lengths at the corners, edges and the middle of a pixel
           near(x) == TLCEval([n \in 1..9 |-> Thickness(body, at(FAdd(F(x[1]), FQ(Places[n][1], 2)), FAdd(F(x[2]), FQ(Places[n][2], 2))), q.u)])
           all == TLCEval([a \in 0..5 |-> TLCEval([b \in 0..5 |-> LET l == near(pix[a, b]) IN [v |-> shown(pix[a, b]), lo |-> MinOf(l), hi |-> MaxOf(l)]])])
           most == MaxOf([n \in 1..6 |-> MaxOf([b \in 1..6 |-> all[n - 1][b - 1].hi])])
           tol == FMul(F("0.05"), most)
           \* the total is right: rays that fall together with faces change all others
           rel == FAdd(F("0.05"), FDiv(F("1.5"), FMin(FSub(q.sh.zhi, q.sh.zlo), FSub(q.sh.yhi, q.sh.ylo))))
       IN Chk("each pixel of a large shadow holds the length of the scattered rays through the illuminated part",
              \A a \in 0..5 : \A b \in 0..5 : LET w == all[a][b] IN
                  /\ FLeq(FSub(FMul(FSub(One, rel), w.lo), tol), w.v)
                  /\ FLeq(w.v, FAdd(FMul(FAdd(One, rel), w.hi), tol)))
(* the image px of the single spot q, well inside the detector *)
SingleClauses(d, q, px) ==
    LET cz == TLCEval(Centre(px, 2))  cy == TLCEval(Centre(px, 3))  T == TLCEval(Mass(px)) IN
    CASE q.kind = "micro" ->
            LET s2 == FAdd(F("0.49"), PsfVar(d))
                g(j) == FMul(FDiv(T, FMul(FMul(F(2), FPi), s2)),
                             FExp(FNeg(FDiv(FAdd(FMul(FSub(F(px[j][2]), q.z), FSub(F(px[j][2]), q.z)), FMul(FSub(F(px[j][3]), q.y), FSub(F(px[j][3]), q.y))), FMul(F(2), s2)))))
            IN Chk("the spot of a small crystal is centred on its detector position", Near(cz, q.z, F("0.03")) /\ Near(cy, q.y, F("0.03")))
            \o Chk("the spot of a small crystal has the configured width",
                   /\ FLeq(FMul(F("0.9"), s2), Second(px, 2, 2, cz, cz)) /\ FLeq(Second(px, 2, 2, cz, cz), FMul(F("1.04"), s2))
                   /\ FLeq(FMul(F("0.9"), s2), Second(px, 3, 3, cy, cy)) /\ FLeq(Second(px, 3, 3, cy, cy), FMul(F("1.04"), s2))
                   /\ Near(Second(px, 2, 3, cz, cy), Zero, FMul(F("0.03"), s2)))
            \o Chk("the spot of a small crystal has a Gaussian profile",
                   FLeq(Sum([j \in 1..Len(px) |-> FAbs(FSub(F(px[j][4]), g(j)))]), FMul(F("0.06"), T)))
      [] q.kind = "nano" ->
            LET \* share of the spot within half a width of its middle, counting pixels that are partly within
                half(c, m, w) == FDiv(Sum([j \in 1..Len(px) |-> FMul(F(px[j][4]), FMax(Zero, FMin(One, FSub(FAdd(FDiv(w, F(2)), F("0.5")), FAbs(FSub(F(px[j][c]), m))))))]), T)
                \* share of the spot within radius c widths plus m pixels
                within(c, m) == FDiv(Sum([j \in 1..Len(px) |->
                    LET a == FSub(F(px[j][2]), q.z)  b == FMul(FSub(F(px[j][3]), q.y), FDiv(d.py, d.pz))
                        rr == FAdd(FMul(F(c), q.wz), FMul(F(m), FMax(One, FDiv(d.py, d.pz)))) IN
                    IF FLeq(FAdd(FMul(a, a), FMul(b, b)), FMul(rr, rr)) THEN F(px[j][4]) ELSE Zero]), q.hi)
                least == FMin(q.wz, q.wy)
                broad == FLeq(F(6), least) /\ FLeq(d.sigma, One)
                middle == FLeq(F(3), least) /\ FLt(least, F(6)) /\ FLeq(d.sigma, F("0.3"))
                small == FLeq(F(2), least) /\ FLt(least, F(3)) /\ FLeq(d.sigma, F("0.3"))
                share(lo, hi, x) == FLeq(F(lo), x) /\ FLeq(x, F(hi))
            IN Chk("the spot of a nano crystal is centred on its detector position", Near(cz, q.z, F("0.02")) /\ Near(cy, q.y, F("0.02")))
            \o Chk("the spot of a nano crystal is as wide as its size broadening",
                   /\ broad => share("0.39", "0.57", within("0.5", 0)) /\ share("0.76", "0.92", within("1.1861", 0))
                   /\ small => share("0.2", "0.7", within("0.5", 0))
                   /\ middle => share("0.31", "0.66", within("0.5", 0)))
            \o Chk("the spot of a nano crystal is no wider than its size broadening and the point spread",
                   FLeq(F("0.74"), within("1.1861", FAdd(F("1.6"), FMul(F(3), d.sigma)))))
            \o Chk("the spot of a nano crystal is equally wide in all directions", ~broad \/ Near(half(2, q.z, q.wz), half(3, q.y, q.wy), F("0.1")))
      [] q.kind = "macro" ->
            LET ez == FSub(q.sh.zhi, q.sh.zlo)  ey == FSub(q.sh.yhi, q.sh.ylo)
                \* needles are met by few of the rays
                big == FLeq(F(6), ez) /\ FLeq(F(6), ey) /\ Lit(px, T) >= 15
                p2 == PsfVar(d)
                \* rays and faces along them fall together: up to a row of pixels
                m(v) == FAdd(FMul(FMax(F("0.1"), FDiv(F("1.5"), FMin(ez, ey))), FMax(q.sh.zz, q.sh.yy)), FAdd(F("0.4"), p2))
            IN Chk("the shadow of a crystal is centred on that of its illuminated part",
                   LET tol(x) == IF big THEN F("0.75") ELSE FMax(F("1.5"), x) IN Near(cz, q.sh.z, tol(ez)) /\ Near(cy, q.sh.y, tol(ey)))
            \o Chk("the shadow of a crystal is spread like its illuminated part",
                   ~big \/ (/\ Near(Second(px, 2, 2, cz, cz), q.sh.zz, m(0)) /\ Near(Second(px, 3, 3, cy, cy), q.sh.yy, m(0))
                            /\ Near(Second(px, 2, 3, cz, cy), q.sh.zy, m(0))))
            \o ProfileClause(d, q, px)

(* e: an intersection event and method, macro, micro (limits), dtype, img, world *)
JudgeRender(s, e) ==
    LET d == TLCEval(DetOf(e))
        img == e.img
        rows == e.out.d
        k == e.k
        first == JudgeIntersect(s, e)
    IN Then(Chk("an image has the requested frames, the pixels of the detector and the requested number type",
                img.sh = <<k, d.nz, d.ny>> /\ img.dt = e.dtype)
         \o Chk("images are finite and nowhere negative", img.fin /\ \A j \in 1..Len(img.px) : FIsNum(img.px[j][4]) /\ FLeq(Zero, F(img.px[j][4]))),
       Then(first,
        LET faces == IF e.world THEN TLCEval(HullFaces(VecsOf(e.beam.verts))) ELSE <<>>
            reach == IF e.world THEN Reached(VecsOf(e.beam.verts)) ELSE Zero
            q == TLCEval([o \in 1..Len(rows) |-> SpotOf(d, e, faces, reach, rows[o])])
            p == Precision(img.dt)
            open == \E o \in 1..Len(rows) : e.method = "auto" /\ ClassOpen(d, F(rows[o][22]), e.macro)
            frame(f) ==
                LET px == OfFrame(img, f)
                    mine == SelectSeq(q, LAMBDA x : x.f = f)
                    hi == Sum([j \in 1..Len(mine) |-> mine[j].hi])
                    lo == Sum([j \in 1..Len(mine) |-> IF WellInside(d, mine[j]) THEN FMul(mine[j].lo, FSub(One, mine[j].loss)) ELSE Zero])
                    T == Mass(px)
                IN Chk("a frame shows nothing but its peaks", \A x \in 1..Len(px) : \E j \in 1..Len(mine) : PixelReached(d, mine[j], px[x][2], px[x][3]))
                \o Chk("a frame never shows more than the intensity of its peaks", FLeq(T, FMul(hi, FAdd(One, p))))
                \o Chk("peaks well inside the detector are shown with all their intensity", FLeq(FMul(lo, FSub(One, p)), T))
                \o (IF Len(mine) = 1 /\ WellInside(d, mine[1]) /\ px # <<>> THEN SingleClauses(d, mine[1], px) ELSE <<>>)
            bad == {f \in 0..(k - 1) : frame(f) # <<>>}
        IN IF open \/ bad = {} THEN <<>> ELSE frame(CHOOSE f \in bad : TRUE)))

(* e: whole and parts: [img, idx] with idx the rows of the part; images are dense arrays; total, tol, n; what *)
JudgeRenderParts(s, e) ==
    LET used == FoldLeft(LAMBDA acc, x : acc \o x.idx, <<>>, e.parts)
        w == e.whole
        tol == FMul(F(e.tol), F(e.total))
        P == Len(e.parts)
        bad(f, i, j) == ~Near(F(w.d[f][i][j]), Sum([n \in 1..P |-> F(e.parts[n].img.d[f][i][j])]), tol)
    IN Then(Chk("images have one shape and are finite " \o e.what, w.fin /\ Len(w.sh) = 3 /\ \A n \in 1..P : e.parts[n].img.fin /\ e.parts[n].img.sh = w.sh)
         \o Chk("the parts are all peaks " \o e.what, Len(used) = e.n /\ Cardinality({used[j] : j \in 1..Len(used)}) = e.n),
         Chk("the image of several peaks is the sum of the images of each " \o e.what,
             \A f \in 1..w.sh[1] : \A i \in 1..w.sh[2] : \A j \in 1..w.sh[3] : ~bad(f, i, j)))

(* a, b: frames of peaks and of the same peaks moved by dz, dy whole pixels with by times the intensity; *)
(* pad: how near to the border what lies beyond it may matter *)
JudgeRenderMoved(s, e) ==
    LET nz == e.a.sh[1]  ny == e.a.sh[2]
        by == F(e.by)
        most == MaxOf([i \in 1..nz |-> MaxOf([j \in 1..ny |-> F(e.a.d[i][j])])])
        tol == FMul(F(e.tol), FMul(by, most))
        far(x, n) == x > e.pad /\ x <= n - e.pad
    IN Then(Chk("images have one shape and are finite " \o e.what, e.a.fin /\ e.b.fin /\ Len(e.a.sh) = 2 /\ e.b.sh = e.a.sh),
            Chk("a spot depends on its place only by where it lies, and on its intensity only by a factor " \o e.what,
                FLt(Zero, most) /\ \A i \in 1..nz, j \in 1..ny :
                    (far(i, nz) /\ far(i + e.dz, nz) /\ far(j, ny) /\ far(j + e.dy, ny)) =>
                        Near(F(e.b.d[i + e.dz][j + e.dy]), FMul(by, F(e.a.d[i][j])), tol)))

(* a, b: images of the same peaks without and with the point spread of the detector of e.  The kernel *)
(* may be cut where its tail falls below its threshold *)
JudgePsf(st, e) ==
    LET d == DetOf(e)
        A == TLCEval([x \in 0..(d.nz - 1) |-> [y \in 0..(d.ny - 1) |-> F(e.a.d[x + 1][y + 1])]])
        w == TLCEval([u \in 0..d.maxr |-> FExp(FNeg(FDiv(F(u * u), FMul(F(2), PsfVar(d)))))])
        W == Sum([u \in 1..(2 * d.maxr + 1) |-> w[IF u > d.maxr + 1 THEN u - d.maxr - 1 ELSE d.maxr + 1 - u]])
        k == TLCEval([u \in 0..d.maxr |-> FDiv(w[u], W)])
        abs(u) == IF u < 0 THEN -u ELSE u
        near(x, n) == SetToSeq({u \in (-d.maxr)..d.maxr : x + u >= 0 /\ x + u < n})
        rows == TLCEval([x \in 0..(d.nz - 1) |-> LET us == near(x, d.nz) IN [y \in 0..(d.ny - 1) |-> Sum([n \in 1..Len(us) |-> FMul(k[abs(us[n])], A[x + us[n]][y])])]])
        both(x, y) == LET us == near(y, d.ny) IN Sum([n \in 1..Len(us) |-> FMul(k[abs(us[n])], rows[x][y + us[n]])])
        off == Sum([x \in 1..d.nz |-> Sum([y \in 1..d.ny |-> FAbs(FSub(F(e.b.d[x][y]), both(x - 1, y - 1)))])])
        total == Sum([x \in 1..d.nz |-> Sum([y \in 1..d.ny |-> A[x - 1][y - 1]])])
    IN Then(Chk("images have the pixels of the detector and are finite", e.a.fin /\ e.b.fin /\ e.a.sh = <<d.nz, d.ny>> /\ e.b.sh = e.a.sh),
            Chk("images are spread by the point spread of the detector", FLeq(off, FMul(total, FAdd(d.thr, F("0.06"))))))

JudgeFrameShape(s, e) == LET d == DetOf(e) IN Chk("frames have the pixels of the detector", e.sh = <<e.k, d.nz, d.ny>>)

(* the scanning experiment: e: params, nz ny, what the detector, beam and motion report *)
JudgeTemplate(s, e) ==
    LET P(k) == F(e.params[k])
        pz == P("pixel_side_length_z")  py == P("pixel_side_length_y")
        x == P("detector_distance")
        det == [c0 |-> e.c0o, c1 |-> e.c1o, c2 |-> e.c2o, np |-> <<e.nz, e.ny>>, px |-> <<>>, lor |-> TRUE, polz |-> TRUE, sf |-> TRUE, sigma |-> "1", thr |-> "0.02", maxr |-> 2]
        d == TLCEval(DetOf(det))
        ex == <<One, Zero, Zero>>
        h == Hit(d, ex, VZero)
        m == FMul(F("1e-9"), FAdd(DetReach(d), x))
        hy == FDiv(P("beam_side_length_y"), F(2))  hz == FDiv(P("beam_side_length_z"), F(2))
        bm == FMul(F("1e-9"), FAdd(x, FAdd(hy, hz)))
        corner(v, a, b, c) == VNear(v, <<FMul(F(a), x), FMul(F(b), hy), FMul(F(c), hz)>>, bm)
        S == {-1, 1}
        two == FMul(F(2), FPi)
    IN Then(Chk("the template reports finite vectors", e.c0o.fin /\ e.c1o.fin /\ e.c2o.fin /\ e.verts.fin /\ e.wave.fin /\ e.pol.fin /\ e.got_axis.fin /\ e.got_tr.fin /\ e.got_org.fin),
        Chk("the detector has the requested pixels", e.grid = <<e.nz, e.ny, 3>>)
        \o Chk("pixels have the requested sides", /\ RNear(F(e.pzo), pz, T9, Zero) /\ RNear(F(e.pyo), py, T9, Zero)
                                               /\ Near(FDiv(d.zl, F(e.nz)), pz, m) /\ Near(FDiv(d.yl, F(e.ny)), py, m))
        \o Chk("rows run along z and columns along y", VNear(d.z, <<Zero, Zero, One>>, T9) /\ VNear(d.y, <<Zero, One, Zero>>, T9))
        \o Chk("the central ray meets the detector at the requested pixel and distance",
               ~h.graze /\ Near(h.len, x, m) /\ Near(h.zd, FMul(P("detector_center_pixel_z"), pz), m) /\ Near(h.yd, FMul(P("detector_center_pixel_y"), py), m))
        \o Chk("the beam has the requested cross-section around the x axis",
               /\ e.verts.sh = <<8, 3>>
               /\ \A a \in S, b \in S, c \in S : \E j \in 1..8 : corner(V3(e.verts.d[j]), a, b, c))
        \o Chk("the beam has the requested wavelength and runs along x",
               /\ RNear(F(e.lam), P("wavelength"), T12, Zero)
               /\ VNear(VScale(FDiv(P("wavelength"), two), V3(e.wave.d)), ex, T9)
               /\ Near(Dot(V3(e.pol.d), ex), Zero, T9) /\ Near(Norm(V3(e.pol.d)), One, T9))
        \o Chk("the sample rotates as requested and does not move",
               /\ VNear(V3(e.got_axis.d), <<F(e.params["rotation_axis"][1]), F(e.params["rotation_axis"][2]), F(e.params["rotation_axis"][3])>>, T12)
               /\ Near(F(e.got_ang), P("rotation_step"), T12) /\ VNear(V3(e.got_tr.d), VZero, Zero) /\ VNear(V3(e.got_org.d), VZero, Zero)))

(* e: whole (image of all peaks), vols, one: per peak its image by each method *)
JudgeAuto(s, e) ==
    LET d == DetOf(e)
        n == Len(e.vols)
        open == \E j \in 1..n : ClassOpen(d, F(e.vols[j]), e.macro)
        part == [j \in 1..n |-> e.one[j][SizeClass(d, F(e.vols[j]), e.macro, e.micro)]]
        w == e.whole
        shape == <<e.k, d.nz, d.ny>>
        biggest(a) == MaxOf([f \in 1..e.k |-> MaxOf([i \in 1..d.nz |-> MaxOf([j \in 1..d.ny |-> FAbs(F(a.d[f][i][j]))])])])
        tol == TLCEval(FMul(F(e.tol), Sum([j \in 1..n |-> biggest(part[j])])))
    IN Then(Chk("images have the requested shape and are finite", w.fin /\ w.sh = shape /\ \A j \in 1..n : part[j].fin /\ part[j].sh = shape),
            Chk("automatic rendering draws every peak once, by the method of its size",
                open \/ \A f \in 1..e.k : \A i \in 1..d.nz : \A j \in 1..d.ny : Near(F(w.d[f][i][j]), Sum([x \in 1..n |-> F(part[x].d[f][i][j])]), tol)))
=============================================================================
