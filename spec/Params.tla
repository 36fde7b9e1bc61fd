--------------------------------- MODULE Params -------------------------------
(* Which configurations are valid.  c is a parameter record as logged by the  *)
(* driver: floating-point values as FP numbers, counts as integers.           *)
EXTENDS FP

PZero == <<0, 0>>
POne == OfInt(1)
Positive(x) == IsFin(x) /\ Lt(PZero, x)
NotNegative(x) == IsFin(x) /\ Le(PZero, x)

ValidWobble(c) ==
  c.wob.on => /\ NotNegative(c.wob.timeout)
              /\ NotNegative(c.wob.floor) /\ IsFin(c.wob.ceil)
              /\ Le(c.wob.floor, c.wob.ceil)

ValidLoop(c) ==
  c.loop.on => /\ NotNegative(c.loop.lo) /\ IsFin(c.loop.hi) /\ Le(c.loop.lo, c.loop.hi)
               \* the strength does not grow with the speed
               /\ IsFin(c.loop.slo) /\ IsFin(c.loop.shi)
               /\ Le(c.loop.slo, POne) /\ Le(PZero, c.loop.shi) /\ Le(c.loop.shi, c.loop.slo)
               /\ Positive(c.loop.win) /\ Le(c.loop.win, OfInt(10000))
               /\ c.loop.n \in 1..10000

ValidPosition(c) == ValidLoop(c) /\ Positive(c.M) /\ Positive(c.K)

ValidSampling(c) ==
  /\ Positive(c.rate) /\ Positive(c.stop)
  /\ c.iters \in 1..1000
  /\ c.maxout > 0
  \* -1: no limit on the angle
  /\ Eq(c.angle, OfInt(-1)) \/ (Positive(c.angle) /\ Lt(c.angle, KPi))

ValidStylus(c) ==
  IF c.sty.proj THEN c.sty.min > 0 /\ Positive(c.sty.dur) ELSE c.sty.max > 0

ValidPrediction(c) ==
  LET k == c.pred IN
  k.kind = "kal" =>
    /\ Positive(k.pn) /\ Positive(k.mn)
    /\ k.stable > 0 /\ k.times > 0
    /\ Positive(k.vel) /\ IsFin(k.aw) /\ IsFin(k.jw) /\ Positive(k.int)
    /\ k.des > 0 /\ Positive(k.dist)
    /\ NotNegative(k.vmin) /\ IsFin(k.vmax) /\ Le(k.vmin, k.vmax)
    /\ Positive(k.dev)
    /\ IsFin(k.base) /\ Le(PZero, k.base) /\ Le(k.base, POne)

(* Loop mitigation needs the projection along the stroke normal.              *)
ValidTogether(c) == c.loop.on => c.sty.proj

Valid(c) == /\ ValidWobble(c) /\ ValidPosition(c) /\ ValidSampling(c) /\ ValidStylus(c)
            /\ ValidPrediction(c) /\ ValidTogether(c)
===============================================================================
