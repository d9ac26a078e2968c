-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.  A real is a fixed-point number  *)
(* with 200 fractional bits.  TLC evaluates these operators with the class *)
(* java/Fix.java; the definitions below only give them a name (TLC never   *)
(* evaluates them).  F(s) is the exact value of the IEEE double that the   *)
(* trace writes as string s.  Integers may be used wherever a real may.    *)
(***************************************************************************)
F(s)         == CHOOSE r : TRUE   \* real value of a recorded number (string) or integer
FIsNum(s)    == CHOOSE r : TRUE   \* recorded number is finite
FQ(p, q)     == CHOOSE r : TRUE   \* p/q for integers
FAdd(a, b)   == CHOOSE r : TRUE
FSub(a, b)   == CHOOSE r : TRUE
FMul(a, b)   == CHOOSE r : TRUE
FDiv(a, b)   == CHOOSE r : TRUE
FNeg(a)      == CHOOSE r : TRUE
FAbs(a)      == CHOOSE r : TRUE
FLt(a, b)    == CHOOSE r : TRUE
FLeq(a, b)   == CHOOSE r : TRUE
FSign(a)     == CHOOSE r : TRUE   \* -1, 0, 1
FFloor(a)    == CHOOSE r : TRUE   \* integer
FSqrt(a)     == CHOOSE r : TRUE
FCbrt(a)     == CHOOSE r : TRUE
FExp(a)      == CHOOSE r : TRUE
FSin(a)      == CHOOSE r : TRUE
FCos(a)      == CHOOSE r : TRUE
FAcos(a)     == CHOOSE r : TRUE
FAtan2(y, x) == CHOOSE r : TRUE
FPi          == CHOOSE r : TRUE
FStr(a)      == CHOOSE r : TRUE   \* printable

a (+) b == FAdd(a, b)
a (-) b == FSub(a, b)
a (.) b == FMul(a, b)
a (/) b == FDiv(a, b)
a \prec b   == FLt(a, b)
a \preceq b == FLeq(a, b)
a \succ b   == FLt(b, a)
a \succeq b == FLeq(b, a)
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(a, b) THEN a ELSE b
=============================================================================
