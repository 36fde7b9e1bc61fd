------------------------------- MODULE ValueTypes -----------------------------
(* The public value types: what their operations give, as mathematics on      *)
(* numbers (rounding mode 0), and how far a correct implementation may be     *)
(* from that because of rounding.                                             *)
EXTENDS FP, Sequences

Z0 == <<0, 0>>
N1 == OfInt(1)
MinusOne1 == OfInt(-1)
(* Two values agree if they are equal up to a relative error of 2^-k (and one *)
(* smallest positive number for results near zero).                           *)
Rel(k, a, b) == Same(a, b) \/ (IsFin(a) /\ IsFin(b) /\ Close(a, b, FPDAdd(0, Scale(NAbs(b), 0 - k), Scale(N1, -148))))
RelD(k, a, b) == Same(a, b) \/ (IsFin(a) /\ IsFin(b) /\ Close(a, b, FPDAdd(0, Scale(NAbs(b), 0 - k), Scale(N1, -1073))))
FEq(a, b) == Rel(22, a, b)
DEq(a, b) == RelD(51, a, b)
VFEq(p, q) == FEq(p[1], q[1]) /\ FEq(p[2], q[2])
VSame(p, q) == Same(p[1], q[1]) /\ Same(p[2], q[2])
VNumEq(p, q) == Eq(p[1], q[1]) /\ Eq(p[2], q[2])
VFinite(p) == IsFin(p[1]) /\ IsFin(p[2])

Add2(p, q) == <<FPAdd(0, p[1], q[1]), FPAdd(0, p[2], q[2])>>
Sub2(p, q) == <<FPSub(0, p[1], q[1]), FPSub(0, p[2], q[2])>>
Mul2(k, p) == <<FPMul(0, k, p[1]), FPMul(0, k, p[2])>>
Div2(p, k) == <<FPDiv(0, p[1], k), FPDiv(0, p[2], k)>>
Length2(p) == FPHypot(0, p[1], p[2])
(* A dot product may cancel: its error is relative to the size of its terms.  *)
DotOk(got, p, q) ==
  LET a == FPDMul(0, p[1], q[1])  b == FPDMul(0, p[2], q[2])
      exact == FPDAdd(0, a, b)
      size == FPDAdd(0, NAbs(a), NAbs(b))
  IN IF IsFin(size) /\ Lt(size, Scale(N1, 126))
     THEN Close(got, exact, FPDAdd(0, Scale(size, -21), Scale(N1, -147)))
     ELSE Same(got, FPAdd(0, FPMul(0, p[1], q[1]), FPMul(0, p[2], q[2])))
          \/ Same(got, AsF(exact))
          \* the order of evaluation decides what comes of terms that overflow and cancel
          \/ (~IsFin(got) /\ (~IsFin(AsF(a)) \/ ~IsFin(AsF(b))))
          \/ (IsFin(got) /\ IsFin(exact) /\ Close(got, exact, Scale(size, -21)))

(* The angle between two vectors of any finite size.                          *)
True2(p, q) ==
  LET mp == FPDHypot(0, p[1], p[2])  mq == FPDHypot(0, q[1], q[2]) IN
  IF Eq(mp, Z0) \/ Eq(mq, Z0) THEN Z0
  ELSE LET c == FPDAdd(0, FPDMul(0, FPDDiv(0, p[1], mp), FPDDiv(0, q[1], mq)), FPDMul(0, FPDDiv(0, p[2], mp), FPDDiv(0, q[2], mq)))
       IN FPAcos(1, NMax(MinusOne1, NMin(N1, c)))
AngleTol == Scale(N1, -16)
AngleOk(r, p, q) ==
  IF ~(VFinite(p) /\ VFinite(q)) THEN r.st = "ia"
  ELSE /\ r.st = "ok"
       /\ Le(Z0, r.v) /\ Le(r.v, AsF(KPi))
       /\ IF Eq(Length2(p), Z0) \/ Eq(Length2(q), Z0) THEN Eq(r.v, Z0) ELSE Close(r.v, True2(p, q), AngleTol)

(* Comparisons are those of the numbers.                                      *)
Cmp(c, a, b) == /\ c.eq = Eq(a, b) /\ c.ne = ~Eq(a, b) /\ c.lt = Lt(a, b) /\ c.gt = Lt(b, a)
                /\ c.le = Le(a, b) /\ c.ge = Le(b, a)

InputEq(x, y) == /\ x.e = y.e /\ VNumEq(x.p, y.p) /\ Eq(x.t, y.t) /\ Eq(x.pr, y.pr) /\ Eq(x.ti, y.ti) /\ Eq(x.or, y.or)
ResultEq(x, y) == /\ VNumEq(x.p, y.p) /\ VNumEq(x.v, y.v) /\ VNumEq(x.a, y.a) /\ Eq(x.t, y.t)
                  /\ Eq(x.pr, y.pr) /\ Eq(x.ti, y.ti) /\ Eq(x.or, y.or)
InputValid(x) == x.e \in 0..2 /\ VFinite(x.p) /\ IsFin(x.t)

(* A text shows numbers: six significant digits are enough.                   *)
Shows(nums, x) == \E k \in 1..Len(nums) : Same(nums[k], x) \/ Close(nums[k], x, Scale(NAbs(x), -16))
Labelled(lab, name, xs) ==
  name \in DOMAIN lab =>
    LET ns == lab[name] IN
    Len(ns) >= Len(xs) /\ \A k \in 1..Len(xs) : Same(ns[k], xs[k]) \/ Close(ns[k], xs[k], Scale(NAbs(xs[k]), -16))
===============================================================================
