---------------------------------- MODULE Loop --------------------------------
(* Loop contraction mitigation: strength of the blend between raw path and    *)
(* modeled tip, from the moving average of the speed of the results.          *)
EXTENDS Num

LoopStrength(c, q) ==
  IF Len(q) = 0 \/ ~c.on THEN One
  ELSE LET sum == FoldLeft(LAMBDA acc, x : FAdd(acc, x.s), Zero, q)
           avg == FDiv(sum, OfInt(Len(q)))
       IN Interp(c.slo, c.shi, Clamp01(InverseLerp(c.lo, c.hi, avg)))

(* The fewest most recent samples that number at least n and span the window. *)
RECURSIVE LoopDrop(_, _)
LoopDrop(c, q) ==
  IF Len(q) > c.n /\ Ge(DSub(q[Len(q)].t, q[2].t), c.win) THEN LoopDrop(c, Tail(q)) ELSE q

LoopUpdate(c, q, v, t) ==
  IF ~c.on THEN q ELSE LoopDrop(c, Append(q, [s |-> Mag(v), t |-> t]))
===============================================================================
