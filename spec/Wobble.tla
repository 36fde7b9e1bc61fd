--------------------------------- MODULE Wobble -------------------------------
(* Wobble smoothing (README, algorithm 1): a moving average of the position   *)
(* over the inputs of the last `timeout`, blended with the raw position by    *)
(* the average speed over the same inputs.                                    *)
EXTENDS Num

WobInit(p, t) ==
  [q |-> << [p |-> p, w |-> V0, d |-> Zero, u |-> Zero, t |-> t] >>,
   w |-> V0, d |-> Zero, u |-> Zero]

(* Forget the samples that are older than the window; an input exactly as old *)
(* as the timeout stays.                                                      *)
RECURSIVE WobDrop(_, _)
WobDrop(s, from) ==
  LET h == s.q[1] IN
  IF Lt(h.t, from)
  THEN WobDrop([q |-> Tail(s.q), w |-> VSub(s.w, h.w), d |-> FSub(s.d, h.d),
                u |-> FRnd(DSub(s.u, h.u))], from)
  ELSE s

(* Returns the new state and the smoothed position.                           *)
WobUpdate(c, s, p, t) ==
  IF ~c.on THEN [s |-> s, p |-> p]
  ELSE
    LET last == s.q[Len(s.q)]
        u == DSub(t, last.t)
        smp == [p |-> p, w |-> VMul(FRnd(u), p), d |-> Dist(p, last.p), u |-> u, t |-> t]
        s1 == [q |-> Append(s.q, smp), w |-> VAdd(s.w, smp.w), d |-> FAdd(s.d, smp.d),
               u |-> FRnd(DAdd(s.u, u))]
        s2 == WobDrop(s1, DSub(t, c.timeout))
    IN [s |-> s2,
        p |-> IF Eq(s2.u, Zero) THEN p
              ELSE VInterp(VDiv(s2.w, s2.u), p,
                           Normalize01(c.floor, c.ceil, FDiv(s2.d, s2.u)))]
===============================================================================
