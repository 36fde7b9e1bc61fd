---------------------------------- MODULE Num ---------------------------------
(* Arithmetic and plane geometry in rounding mode Md.  Single-precision       *)
(* operators are named F*, double-precision ones D*; a vector is <<x, y>>.    *)
EXTENDS FP, Sequences, SequencesExt
CONSTANT Md

FAdd(a, b) == FPAdd(Md, a, b)
FSub(a, b) == FPSub(Md, a, b)
FMul(a, b) == FPMul(Md, a, b)
FDiv(a, b) == FPDiv(Md, a, b)
FRnd(a) == FPRnd(Md, a)
DAdd(a, b) == FPDAdd(Md, a, b)
DSub(a, b) == FPDSub(Md, a, b)
DMul(a, b) == FPDMul(Md, a, b)
DDiv(a, b) == FPDDiv(Md, a, b)

Zero == <<0, 0>>
One == <<1072693248, 0>>
Two == <<1073741824, 0>>
Three == <<1074266112, 0>>
Six == <<1075314688, 0>>
Half == <<1071644672, 0>>
MinusOne == <<-1074790400, 0>>
Infinity == <<2146435072, 0>>
MaxInt == 2147483647

Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
IsNeg(a) == Lt(a, Zero)
IsUnknown(a) == IsNeg(a) \/ IsNaN(a)

------------------------------------------------------------------------------
(* The same number can be written in different ways.  Some of the modes used  *)
(* when a disagreement is looked at more closely evaluate another form of the *)
(* formulas that are commonly rewritten.                                      *)
Other == Md >= 7 /\ Md % 4 = 3

V0 == <<Zero, Zero>>
VAdd(p, q) == <<FAdd(p[1], q[1]), FAdd(p[2], q[2])>>
VSub(p, q) == <<FSub(p[1], q[1]), FSub(p[2], q[2])>>
VMul(k, p) == <<FMul(k, p[1]), FMul(k, p[2])>>
VDiv(p, k) == IF Other /\ IsFin(FDiv(One, k)) THEN VMul(FDiv(One, k), p) ELSE <<FDiv(p[1], k), FDiv(p[2], k)>>
VEq(p, q) == Eq(p[1], q[1]) /\ Eq(p[2], q[2])
VFin(p) == IsFin(p[1]) /\ IsFin(p[2])
Dot(p, q) == FAdd(FMul(p[1], q[1]), FMul(p[2], q[2]))
Cross(p, q) == FSub(FMul(p[1], q[2]), FMul(p[2], q[1]))
Mag(p) == FPHypot(Md, p[1], p[2])
Dist(p, q) == Mag(VSub(q, p))
Orth(p) == <<NNeg(p[2]), p[1]>>

Clamp01(a) == IF Lt(a, Zero) THEN Zero ELSE IF Lt(One, a) THEN One ELSE a
(* Where value lies between start and end, as a ratio in [0, 1]. *)
Normalize01(start, end, value) ==
  IF Eq(start, end) THEN (IF Gt(value, start) THEN One ELSE Zero)
  ELSE Clamp01(FDiv(FSub(value, start), FSub(end, start)))
InverseLerp(a, b, value) ==
  IF Eq(FSub(b, a), Zero) THEN Zero ELSE FDiv(FSub(value, a), FSub(b, a))
Interp(a, b, r) ==
  LET k == Clamp01(r) IN
  IF Other THEN FAdd(FMul(FSub(One, k), a), FMul(k, b)) ELSE FAdd(a, FMul(FSub(b, a), k))
DInterp(a, b, r) == DAdd(a, DMul(DSub(b, a), Clamp01(r)))
VInterp(p, q, r) ==
  LET k == Clamp01(r) IN
  IF Other THEN VAdd(VMul(FSub(One, k), p), VMul(k, q)) ELSE VAdd(p, VMul(k, VSub(q, p)))

(* Angles: normalised to [0, 2 pi), interpolated the short way around.        *)
RECURSIVE NormAngle0(_)
NormAngle0(a) == IF Lt(a, Zero) THEN NormAngle0(FRnd(DAdd(a, TwoPi)))
                 ELSE IF Gt(a, TwoPi) THEN FRnd(DSub(a, TwoPi)) ELSE a
NormAngle(a) == NormAngle0(FRnd(Fmod(a, TwoPi)))
InterpAngle(a, b, r) ==
  LET s == NormAngle(a)
      e == NormAngle(b)
      d == FSub(e, s)
      e2 == IF Lt(d, NNeg(KPi)) THEN FRnd(DAdd(e, TwoPi))
            ELSE IF Gt(d, KPi) THEN FRnd(DSub(e, TwoPi)) ELSE e
  IN NormAngle(Interp(s, e2, r))

(* The angle between two vectors, in [0, pi]; 0 if either is null.  The       *)
(* magnitude need not be a single-precision number.                           *)
AngleBetween(p, q) ==
  LET mp == FPDHypot(Md, p[1], p[2])  mq == FPDHypot(Md, q[1], q[2]) IN
  IF Eq(mp, Zero) \/ Eq(mq, Zero) THEN Zero
  ELSE LET dt == DAdd(DMul(DDiv(p[1], mp), DDiv(q[1], mq)), DMul(DDiv(p[2], mp), DDiv(q[2], mq)))
       IN FPAcos(Md, IF Lt(dt, MinusOne) THEN MinusOne ELSE IF Lt(One, dt) THEN One ELSE dt)

(* Ratio along the segment from p to q of its point nearest to x.             *)
NearestOnSegment(p, q, x) ==
  IF VEq(p, q) THEN Zero
  ELSE LET sv == VSub(q, p)  xv == VSub(x, p)
       IN Clamp01(FDiv(Dot(xv, sv), Dot(sv, sv)))

Idx(n) == [k \in 1..n |-> k]
===============================================================================
