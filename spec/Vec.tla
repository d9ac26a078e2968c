-------------------------------- MODULE Vec --------------------------------
(* Vectors and 3x3 matrices of reals (see Fix), as tuples.                  *)
EXTENDS Fix, Integers, Sequences, FiniteSets, TLC, SequencesExt

Zero == F(0)
One  == F(1)
R2(s) == F(s)

V3(a)      == <<F(a[1]), F(a[2]), F(a[3])>>
M3(a)      == <<V3(a[1]), V3(a[2]), V3(a[3])>>
VAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2]), FAdd(a[3], b[3])>>
VSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3])>>
VScale(c, a) == <<FMul(c, a[1]), FMul(c, a[2]), FMul(c, a[3])>>
VNeg(a)    == <<FNeg(a[1]), FNeg(a[2]), FNeg(a[3])>>
VDiv(a, c) == <<FDiv(a[1], c), FDiv(a[2], c), FDiv(a[3], c)>>
Dot(a, b)  == FAdd(FAdd(FMul(a[1], b[1]), FMul(a[2], b[2])), FMul(a[3], b[3]))
Norm2(a)   == Dot(a, a)
Norm(a)    == FSqrt(Norm2(a))
Unit(a)    == VDiv(a, Norm(a))
Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])),
                 FSub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                 FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Dist(a, b) == Norm(VSub(a, b))
VZero == <<Zero, Zero, Zero>>

MV(m, v)   == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Tr(m)      == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
MM(a, b)   == LET t == Tr(b) IN <<MV(t, a[1]), MV(t, a[2]), MV(t, a[3])>>
MAdd(a, b) == <<VAdd(a[1], b[1]), VAdd(a[2], b[2]), VAdd(a[3], b[3])>>
MSub(a, b) == <<VSub(a[1], b[1]), VSub(a[2], b[2]), VSub(a[3], b[3])>>
MScale(c, a) == <<VScale(c, a[1]), VScale(c, a[2]), VScale(c, a[3])>>
Id3        == <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>
Det(m)     == Dot(m[1], Cross(m[2], m[3]))
Inv3(m)    == LET d == Det(m) IN Tr(<<VDiv(Cross(m[2], m[3]), d), VDiv(Cross(m[3], m[1]), d), VDiv(Cross(m[1], m[2]), d)>>)

(* Sums, means and extrema of sequences of reals or vectors. *)
Sum(q)     == FoldLeft(LAMBDA a, b : FAdd(a, b), Zero, q)
VSum(q)    == FoldLeft(LAMBDA a, b : VAdd(a, b), VZero, q)
VMean(q)   == VDiv(VSum(q), F(Len(q)))
MaxOf(q)   == FoldLeft(LAMBDA a, b : FMax(a, b), q[1], q)
MinOf(q)   == FoldLeft(LAMBDA a, b : FMin(a, b), q[1], q)
MaxAbs(v)  == FMax(FMax(FAbs(v[1]), FAbs(v[2])), FAbs(v[3]))
Map(Op(_), q) == TLCEval([j \in 1..Len(q) |-> Op(q[j])])

(* Closeness. *)
Near(a, b, tol)  == FLeq(FAbs(FSub(a, b)), tol)
VNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol)
MNear(a, b, tol) == VNear(a[1], b[1], tol) /\ VNear(a[2], b[2], tol) /\ VNear(a[3], b[3], tol)
(* |a-b| <= tol * max(|a|,|b|) + atol *)
RNear(a, b, tol, atol) == FLeq(FAbs(FSub(a, b)), FAdd(FMul(tol, FMax(FAbs(a), FAbs(b))), atol))

T6  == F("1e-6")
T7  == F("1e-7")
T8  == F("1e-8")
T9  == F("1e-9")
T10 == F("1e-10")
T11 == F("1e-11")
T12 == F("1e-12")

IsRot(m, tol) == MNear(MM(m, Tr(m)), Id3, tol) /\ Near(Det(m), One, tol)

(* Recorded arrays: [sh |-> shape, fin |-> all finite, d |-> nested numbers]. *)
VecsOf(a) == TLCEval([j \in 1..a.sh[1] |-> V3(a.d[j])])       \* shape (N,3)
MatsOf(a) == TLCEval([j \in 1..a.sh[1] |-> M3(a.d[j])])       \* shape (N,3,3)
NumsOf(a) == TLCEval([j \in 1..a.sh[1] |-> F(a.d[j])])        \* shape (N)
IntSeq(a) == a.d

(* A check is a sequence of the names of the clauses that do not hold. *)
Chk(name, ok) == IF ok THEN <<>> ELSE <<name>>
(* Later clauses are only evaluated where the earlier ones hold. *)
Then(a, b)    == IF a # <<>> THEN a ELSE b
=============================================================================
