---------------------------- MODULE MotionAlgebra ----------------------------
(***************************************************************************)
(* The algebra of rigid motions, checked with exact arithmetic, and the    *)
(* exhaustive list of calling conventions under which the implementation   *)
(* has to realise it.  A state is one calling convention together with one *)
(* motion of a small grid.                                                 *)
(***************************************************************************)
EXTENDS Motion, Json

CONSTANT Emit

Kinds == {"call", "rotate", "translate"}
Shapes == {<<3>>, <<1, 3>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<5, 3>>,
           <<1, 1, 3>>, <<1, 4, 3>>, <<2, 1, 3>>, <<2, 4, 3>>, <<3, 3, 3>>, <<3, 4, 3>>, <<4, 4, 3>>, <<4, 2, 3>>, <<6, 5, 3>>}
TimeModes == {"float", "zerod", "one", "rows"}
Inputs == {"np", "torch"}

Legal(k, sh, tm, on) ==
    /\ (tm = "rows" => Len(sh) > 1 /\ k # "translate")
    /\ (k = "rotate" => Len(sh) < 3)
    /\ (k = "translate" => tm # "rows")

Axes == {<<One, Zero, Zero>>, <<Zero, Zero, FNeg(One)>>, <<FQ(3, 5), Zero, FQ(4, 5)>>, <<FQ(2, 3), FQ(-1, 3), FQ(2, 3)>>}
Pts  == {<<Zero, Zero, Zero>>, <<One, F(2), F(-3)>>, <<FQ(1, 7), F(5), FQ(-1, 2)>>}
MotionsOfGrid == [axis : Axes, ang : {FQ(1, 10), F(2), F(3)}, tr : {VZero, <<One, F(-2), FQ(1, 3)>>}, org : {VZero, <<F(4), One, F(-1)>>}]
Times == {Zero, FQ(1, 3), One}

VARIABLE c
Init == \E k \in Kinds, sh \in Shapes, tm \in TimeModes, inp \in Inputs, on \in {"motion", "inverse"} :
            /\ Legal(k, sh, tm, on)
            /\ c = [kind |-> k, shape |-> sh, tmode |-> tm, inp |-> inp, on |-> on]
            /\ Emit => PrintT("@@CASE " \o ToJson(c))
Next == \E m \in MotionsOfGrid : "motion" \notin DOMAIN c /\ c.shape = <<3>> /\ c.inp = "np" /\ c.tmode = "float" /\ c.on = "motion" /\ c' = ("motion" :> m) @@ c
Spec == Init /\ [][Next]_c

Tol == F("1e-40")
HasM == "motion" \in DOMAIN c
(* every motion is a proper isometry at every time *)
Isometry == HasM => \A t \in Times : LET R == MotionRot(c.motion, t) IN
    /\ IsRot(R, Tol)
    /\ \A x, y \in Pts : Near(Norm2(VSub(Move(c.motion, t, x), Move(c.motion, t, y))), Norm2(VSub(x, y)), Tol)
(* at time zero nothing moves, the axis through the origin of the motion stays *)
Identity == HasM => \A x \in Pts : VNear(Move(c.motion, Zero, x), x, Tol)
AxisFixed == HasM => \A t \in Times : VNear(Move(c.motion, t, VAdd(c.motion.org, c.motion.axis)),
                       VAdd(VAdd(c.motion.org, c.motion.axis), VScale(t, c.motion.tr)), Tol)
(* right handed: for an axis a and v perpendicular, a.(v x Rv) has the sign of sin *)
RightHanded == HasM => LET v == <<c.motion.axis[2], FNeg(c.motion.axis[1]), Zero>>
                           u == IF Norm2(v) = Zero THEN <<One, Zero, Zero>> ELSE v
                           w == MV(MotionRot(c.motion, FQ(1, 2)), u)
                       IN FSign(Dot(c.motion.axis, Cross(u, w))) = 1
(* the inverse undoes the rotation, and the whole motion when it is a pure translation *)
Undo == HasM => LET n == InverseOf(c.motion) IN \A t \in Times :
    /\ MNear(MM(MotionRot(n, t), MotionRot(c.motion, t)), Id3, Tol)
    /\ c.motion.tr = VZero => \A x \in Pts : VNear(Move(n, t, Move(c.motion, t, x)), x, Tol)
(* rotations about the same axis add up *)
Adds == HasM => MNear(MM(MotionRot(c.motion, FQ(1, 3)), MotionRot(c.motion, FQ(2, 3))), MotionRot(c.motion, One), F("1e-39"))
==============================================================================
