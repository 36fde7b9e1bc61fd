--------------------------------- MODULE Spring -------------------------------
(* Position modeling: the tip as a mass pulled by a spring towards a moving   *)
(* anchor, with drag; the upsampling between inputs; the end of the stroke.   *)
EXTENDS Num

Tip(p, v, a, t) == [p |-> p, v |-> v, a |-> a, t |-> t]

(* One step of the model.                                                     *)
SpringStep(c, tip, anchor, t) ==
  LET dt == FRnd(DSub(t, tip.t))
      a == VSub(VDiv(VSub(anchor, tip.p), c.M), VMul(c.K, tip.v))
      v == VAdd(tip.v, VMul(dt, a))
      p == VAdd(tip.p, VMul(dt, v))
  IN Tip(p, v, a, t)

(* The number of steps between two inputs: enough for the minimum output rate *)
(* and for the maximum estimated angle per step.  [ok, n].                    *)
StepsBetween(c, tip, start, end) ==
  LET dt == FRnd(DSub(end.t, start.t))
      n1 == ToInt(NMin(Ceil(DMul(dt, c.rate)), OfInt(MaxInt)))
      dv == VMul(dt, VDiv(VSub(end.p, tip.p), c.M))
      ev == VAdd(tip.v, dv)
  IN IF ~VFin(tip.v) \/ ~VFin(ev) THEN [ok |-> FALSE, n |-> 0]
     ELSE LET n2 == IF Gt(c.angle, Zero)
                    THEN ToInt(NMin(Ceil(DDiv(AngleBetween(tip.v, ev), c.angle)), OfInt(MaxInt)))
                    ELSE 0
              n == IF n2 > n1 THEN n2 ELSE n1
          IN [ok |-> n <= c.maxout, n |-> n]

(* The tips along the straight anchor path from p0 at t0 to p1 at t1.         *)
AlongPath(c, tip, p0, t0, p1, t1, n) ==
  FoldLeft(LAMBDA acc, k :
             LET r == FDiv(OfInt(k), OfInt(n))
                 nt == SpringStep(c, acc.tip, VInterp(p0, p1, r), DInterp(t0, t1, r))
             IN [tip |-> nt, out |-> Append(acc.out, nt)],
           [tip |-> tip, out |-> <<>>], Idx(n))

(* End of the stroke.  Each iteration tries one step of duration dt:          *)
(*   "stop"     the step is shorter than the stopping distance;               *)
(*   "halve"    the step passes the point closest to the anchor: retry with   *)
(*              half the duration;                                            *)
(*   "arrive"   output the step, it ends within the stopping distance;        *)
(*   "go"       output the step.                                              *)
EndCase(c, tip, cand, anchor) ==
  IF Lt(Dist(tip.p, cand.p), c.stop) THEN "stop"
  ELSE IF Lt(NearestOnSegment(tip.p, cand.p, anchor), One) THEN "halve"
  ELSE IF Lt(Dist(cand.p, anchor), c.stop) THEN "arrive" ELSE "go"

EndIter(c, anchor, s) ==
  IF s.done THEN s
  ELSE LET cand == SpringStep(c, s.tip, anchor, DAdd(s.tip.t, s.dt))
           w == EndCase(c, s.tip, cand, anchor)
       IN CASE w = "stop" -> [s EXCEPT !.tip = cand, !.done = TRUE]
            [] w = "halve" -> [s EXCEPT !.dt = DMul(s.dt, Half)]
            [] w = "arrive" -> [s EXCEPT !.tip = cand, !.out = Append(s.out, cand), !.done = TRUE]
            [] w = "go" -> [s EXCEPT !.tip = cand, !.out = Append(s.out, cand)]

EndOfStroke(c, tip, anchor, iters) ==
  FoldLeft(LAMBDA s, k : EndIter(c, anchor, s),
           [tip |-> tip, dt |-> DDiv(One, c.rate), out |-> <<>>, done |-> FALSE],
           Idx(IF iters < 0 THEN 0 ELSE iters))
===============================================================================
