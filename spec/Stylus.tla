--------------------------------- MODULE Stylus -------------------------------
(* Stylus state: pressure, tilt and orientation of a modeled tip, found by    *)
(* projecting the tip on the polyline of the recent inputs.                   *)
EXTENDS Num

StyInit == [q |-> <<>>, up |-> FALSE, ut |-> FALSE, uo |-> FALSE]

(* Linear interpolation of two results; a field unknown on either side is -1. *)
InterpResult(x, y, r) ==
  [p |-> VInterp(x.p, y.p, r), v |-> VInterp(x.v, y.v, r), a |-> VInterp(x.a, y.a, r),
   t |-> DInterp(x.t, y.t, r),
   pr |-> IF IsNeg(x.pr) \/ IsNeg(y.pr) THEN MinusOne ELSE Interp(x.pr, y.pr, r),
   ti |-> IF IsNeg(x.ti) \/ IsNeg(y.ti) THEN MinusOne ELSE Interp(x.ti, y.ti, r),
   or |-> IF IsNeg(x.or) \/ IsNeg(y.or) THEN MinusOne ELSE InterpAngle(x.or, y.or, r)]

(* Which inputs are remembered.                                               *)
StyMayDrop(c, q) ==
  IF c.proj THEN Len(q) > c.min /\ Gt(DSub(q[Len(q)].t, q[2].t), c.dur)
  ELSE Len(q) > c.max
RECURSIVE StyDrop(_, _)
StyDrop(c, q) == IF StyMayDrop(c, q) THEN StyDrop(c, Tail(q)) ELSE q

StyUpdate(c, s, p, i) ==
  LET up == s.up \/ IsUnknown(i.pr)
      ut == s.ut \/ IsUnknown(i.ti)
      uo == s.uo \/ IsUnknown(i.or)
  IN IF ~c.proj /\ up /\ ut /\ uo THEN [q |-> <<>>, up |-> up, ut |-> ut, uo |-> uo]
     ELSE
       LET moved == Len(s.q) > 0 /\ ~Eq(i.t, s.q[Len(s.q)].t)
           lst == s.q[Len(s.q)]
           dt == FRnd(DSub(i.t, lst.t))
           v == IF moved THEN VDiv(VSub(p, lst.p), dt) ELSE V0
           a == IF moved THEN VDiv(VSub(v, lst.v), dt) ELSE V0
           e == [p |-> p, v |-> v, a |-> a, t |-> i.t, pr |-> i.pr, ti |-> i.ti, or |-> i.or]
       IN [q |-> StyDrop(c, Append(s.q, e)), up |-> up, ut |-> ut, uo |-> uo]

NoProj == [i |-> 0, r |-> Zero]

(* The closest point of the polyline; the most recent segment wins ties.      *)
ClosestPoint(q, x) ==
  FoldLeft(LAMBDA b, i :
             LET r == NearestOnSegment(q[i].p, q[i + 1].p, x)
                 d == Dist(x, VInterp(q[i].p, q[i + 1].p, r))
             IN IF Le(d, b.d) THEN [i |-> i, r |-> r, d |-> d] ELSE b,
           [i |-> 0, r |-> Zero, d |-> Infinity], Idx(Len(q) - 1))

(* The direction normal to the stroke at a tip, <<>> if it has none.          *)
CosHalfDegree == AsF(OfRat(99996192, 100000000))
StrokeNormal(tip, prevTime) ==
  LET vm == Mag(tip.v)
      am == Mag(tip.a)
  IN IF Eq(vm, Zero) /\ Eq(am, Zero) THEN <<>>
     ELSE IF Eq(vm, Zero) THEN Orth(tip.a)
     ELSE IF Eq(am, Zero) THEN Orth(tip.v)
     ELSE IF Gt(NAbs(Dot(tip.v, tip.a)), FMul(FMul(CosHalfDegree, vm), am)) THEN Orth(tip.v)
     ELSE LET dt == FRnd(DSub(tip.t, prevTime))
              nv == VAdd(tip.v, VMul(dt, tip.a))
          IN Orth(VAdd(VDiv(tip.v, vm), VDiv(nv, Mag(nv))))

(* Intersection of a segment with the line through x along n.                 *)
OnSegment(p, q, x, n) ==
  LET v == VSub(q, p)
      det == Cross(n, v)
  IN IF Eq(det, Zero) THEN NoProj
     ELSE LET r == FDiv(Cross(VSub(p, x), n), det)
          IN IF Lt(r, Zero) \/ Gt(r, One) THEN NoProj ELSE [i |-> 1, r |-> r]

AlongNormal(q, tip, n) ==
  LET none == [i |-> 0, r |-> Zero, d |-> Infinity]
      best == FoldLeft(
        LAMBDA b, i :
          LET o == OnSegment(q[i].p, q[i + 1].p, tip.p, n) IN
          IF o.i = 0 THEN b
          ELSE LET pt == VInterp(q[i].p, q[i + 1].p, o.r)
                   cand == [i |-> i, r |-> o.r, d |-> Dist(tip.p, pt)]
               IN IF IsNeg(Dot(VSub(pt, tip.p), n))
                  THEN (IF Lt(cand.d, b.right.d) THEN [b EXCEPT !.right = cand] ELSE b)
                  ELSE (IF Lt(cand.d, b.left.d) THEN [b EXCEPT !.left = cand] ELSE b),
        [left |-> none, right |-> none], Idx(Len(q) - 1))
  IN IF best.left.i # 0 /\ best.right.i # 0
     THEN (IF Gt(Dot(n, tip.a), Zero) THEN best.right ELSE best.left)
     ELSE IF best.right.i # 0 THEN best.right ELSE best.left

StyQuery(c, s, tip, prevTime) ==
  IF Len(s.q) = 0
  THEN [p |-> V0, v |-> V0, a |-> V0, t |-> Zero,
        pr |-> MinusOne, ti |-> MinusOne, or |-> MinusOne]
  ELSE
    LET n == IF c.proj THEN StrokeNormal(tip, prevTime) ELSE <<>>
        pj == IF n # <<>> THEN AlongNormal(s.q, tip, n) ELSE ClosestPoint(s.q, tip.p)
        first == s.q[1]
        lst == s.q[Len(s.q)]
        e == IF pj.i # 0 THEN InterpResult(s.q[pj.i], s.q[pj.i + 1], pj.r)
             ELSE IF Lt(Dist(first.p, tip.p), Dist(lst.p, tip.p)) THEN first ELSE lst
    IN [e EXCEPT !.t = tip.t,
                 !.pr = IF s.up THEN MinusOne ELSE @,
                 !.ti = IF s.ut THEN MinusOne ELSE @,
                 !.or = IF s.uo THEN MinusOne ELSE @]
===============================================================================
