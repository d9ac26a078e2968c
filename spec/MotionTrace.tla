----------------------------- MODULE MotionTrace -----------------------------
(* Judging recorded calls of a rigid body motion (C01).                     *)
EXTENDS Motion

(* The rows of an array of points of shape (3), (N,3) or (N,M,3). *)
RowIdx(x) ==
    CASE Len(x.sh) = 1 -> <<<<>>>>
      [] Len(x.sh) = 2 -> [i \in 1..x.sh[1] |-> <<i>>]
      [] Len(x.sh) = 3 -> [k \in 1..(x.sh[1] * x.sh[2]) |-> <<((k - 1) \div x.sh[2]) + 1, ((k - 1) % x.sh[2]) + 1>>]
RowAt(x, ix) ==
    CASE Len(ix) = 0 -> x.d
      [] Len(ix) = 1 -> x.d[ix[1]]
      [] Len(ix) = 2 -> x.d[ix[1]][ix[2]]
TimeAt(t, ix) ==
    IF Len(t.sh) = 0 THEN t.d
    ELSE IF t.sh[1] = 1 THEN t.d[1] ELSE t.d[ix[1]]

MotionEffect(m, kind, t, x) ==
    CASE kind = "call" -> Move(m, t, x)
      [] kind = "rotate" -> MV(MotionRot(m, t), x)
      [] kind = "translate" -> VAdd(x, VScale(t, m.tr))

JudgeMotionNew(s, e) ==
    Chk("the motion reports the parameters it was given",
        /\ e.axis.fin /\ e.got_axis.fin /\ e.got_tr.fin /\ e.got_org.fin
        /\ e.got_axis.sh = <<3>> /\ e.got_tr.sh = <<3>> /\ e.got_org.sh = <<3>>
        /\ VNear(V3(e.got_axis.d), V3(e.axis.d), T12)
        /\ VNear(V3(e.got_tr.d), V3(e.tr.d), FMul(T12, MaxAbs(V3(e.tr.d))))
        /\ VNear(V3(e.got_org.d), V3(e.org.d), FMul(T12, MaxAbs(V3(e.org.d))))
        /\ Near(F(e.got_ang), F(e.ang), T12))

JudgeMotionInverse(s, e) ==
    LET w == InverseOf(s.motion) IN
    Chk("the inverse has negated axis and translation and the same angle and origin",
        /\ e.got_axis.sh = <<3>> /\ e.got_tr.sh = <<3>> /\ e.got_org.sh = <<3>>
        /\ e.got_axis.fin /\ e.got_tr.fin /\ e.got_org.fin
        /\ VNear(V3(e.got_axis.d), w.axis, T12)
        /\ VNear(V3(e.got_tr.d), w.tr, FMul(T12, MaxAbs(w.tr)))
        /\ VNear(V3(e.got_org.d), w.org, FMul(T12, MaxAbs(w.org)))
        /\ Near(F(e.got_ang), w.ang, T12))

JudgeMotionCall(s, e) ==
    LET m == IF e.on = "inverse" THEN InverseOf(s.motion) ELSE s.motion IN
    Chk("the input points are not modified", e.x = e.x_after)
    \o Chk("the input times are not modified", e.t = e.t_after)
    \o Then(Chk("the result has the shape of its input", e.out.sh = e.x.sh)
            \o Chk("the result is finite", e.out.fin),
        Chk("every point is moved by the motion at its time (" \o e.kind \o ")",
            LET idx == RowIdx(e.x) IN
            \A k \in 1..Len(idx) :
                LET x == V3(RowAt(e.x, idx[k]))
                    t == F(TimeAt(e.t, idx[k]))
                IN  VNear(V3(RowAt(e.out, idx[k])), MotionEffect(m, e.kind, t, x), FMul(T11, MoveScale(m, x)))))
=============================================================================
