-------------------------------- MODULE Modeler -------------------------------
(* The stroke modeler as a sequential object: one operator per public call,   *)
(* each returning [st, m, res]: the status ("ok", "fp" failed precondition,   *)
(* "ia" invalid argument), the new state and the results the call produced.   *)
(*                                                                            *)
(* The state m of a modeler:                                                  *)
(*   on    is a stroke in progress?                                           *)
(*   li    last accepted input, lc its smoothed position                      *)
(*   wob, tip, sty, lp, kal   the states of the stages                        *)
(* and cfg, the parameters in force (<<>> before the first Reset).            *)
EXTENDS Wobble, Spring, Stylus, Loop, Kalman

TipResult(tip, s) ==
  [p |-> tip.p, v |-> tip.v, a |-> tip.a, t |-> tip.t, pr |-> s.pr, ti |-> s.ti, or |-> s.or]

(* Stylus values and loop mitigation for a sequence of tips.                  *)
ModelStylus(c, tips, sty, lp, prevTime) ==
  FoldLeft(LAMBDA acc, tip :
             LET pj == StyQuery(c.sty, sty, tip, acc.pt)
                 r == InterpResult(pj, TipResult(tip, pj), acc.k)
                 q == LoopUpdate(c.loop, acc.lp, r.v, tip.t)
             IN [lp |-> q, k |-> LoopStrength(c.loop, q), pt |-> tip.t, out |-> Append(acc.out, r)],
           [lp |-> lp, k |-> LoopStrength(c.loop, lp), pt |-> prevTime, out |-> <<>>], tips)

Idle == [on |-> FALSE]

Reject(m, st) == [st |-> st, m |-> m, res |-> <<>>]

Down(c, m, i) ==
  [st |-> "ok",
   m |-> [on |-> TRUE, li |-> i, lc |-> i.p,
          wob |-> WobInit(i.p, i.t),
          tip |-> Tip(i.p, V0, V0, i.t),
          sty |-> StyUpdate(c.sty, StyInit, i.p, i),
          lp |-> <<>>,
          kal |-> IF c.pred.kind = "kal" THEN KalUpdate(c.pred, KalInit, i.p, i.t) ELSE KalInit],
   res |-> << [p |-> i.p, v |-> V0, a |-> V0, t |-> i.t, pr |-> i.pr, ti |-> i.ti, or |-> i.or] >>]

(* Deviation of the code that the specification models as it is: for a Move,  *)
(* the stroke normal of the first result is computed as if the previous tip   *)
(* had the time of the Move itself, not of the previous input (see DESIGN.md, *)
(* finding F1).  MovePrevTime is the only place where it shows.               *)
MovePrevTime(m, i) == i.t

Move(c, m, i) ==
  LET s == StepsBetween(c, m.tip, m.li, i) IN
  IF ~s.ok THEN Reject(m, "ia")
  ELSE LET w == WobUpdate(c.wob, m.wob, i.p, i.t)
           sty == StyUpdate(c.sty, m.sty, w.p, i)
           path == AlongPath(c, m.tip, m.lc, m.li.t, w.p, i.t, s.n)
           tips == IF s.n = 0 THEN <<path.tip>> ELSE path.out
           ms == ModelStylus(c, tips, sty, m.lp, MovePrevTime(m, i))
       IN [st |-> "ok",
           m |-> [m EXCEPT !.li = i, !.lc = w.p, !.wob = w.s, !.tip = path.tip, !.sty = sty,
                           !.lp = ms.lp,
                           !.kal = IF c.pred.kind = "kal" THEN KalUpdate(c.pred, @, w.p, i.t) ELSE @],
           res |-> ms.out]

Up(c, m, i) ==
  LET s == StepsBetween(c, m.tip, m.li, i) IN
  IF ~s.ok THEN Reject(m, "ia")
  ELSE LET sty == StyUpdate(c.sty, m.sty, i.p, i)
           path == AlongPath(c, m.tip, m.lc, m.li.t, i.p, i.t, s.n)
           room == c.maxout - s.n
           end == EndOfStroke(c, path.tip, i.p, IF c.iters < room THEN c.iters ELSE room)
           tips0 == path.out \o end.out
           tips == IF Len(tips0) = 0 THEN <<end.tip>> ELSE tips0
           ms == ModelStylus(c, tips, sty, m.lp, m.li.t)
       IN [st |-> "ok", m |-> Idle, res |-> ms.out]

SameInput(x, y) ==
  /\ x.e = y.e /\ VEq(x.p, y.p) /\ Eq(x.t, y.t)
  /\ Eq(x.pr, y.pr) /\ Eq(x.ti, y.ti) /\ Eq(x.or, y.or)

ValidInput(i) == i.e \in {"D", "M", "U"} /\ VFin(i.p) /\ IsFin(i.t)

Update(c, m, i) ==
  IF c = <<>> THEN Reject(m, "fp")
  ELSE IF ~ValidInput(i) THEN Reject(m, "ia")
  ELSE IF m.on /\ SameInput(m.li, i) THEN Reject(m, "ia")
  ELSE IF m.on /\ Lt(i.t, m.li.t) THEN Reject(m, "ia")
  ELSE IF i.e = "D" THEN (IF m.on THEN Reject(m, "fp") ELSE Down(c, m, i))
  ELSE IF ~m.on THEN Reject(m, "fp")
  ELSE IF i.e = "M" THEN Move(c, m, i) ELSE Up(c, m, i)

(* Statuses a refused input may have: where two rules refuse it, either.      *)
RefusalCodes(c, m, i) ==
  IF c = <<>> THEN {"fp"}
  ELSE (IF ~ValidInput(i) \/ (m.on /\ ValidInput(i) /\ (SameInput(m.li, i) \/ Lt(i.t, m.li.t)))
        THEN {"ia"} ELSE {})
       \cup (IF i.e = "D" /\ m.on THEN {"fp", "ia"} ELSE {})
       \cup (IF i.e \in {"M", "U"} /\ ~m.on THEN {"fp", "ia"} ELSE {})
       \cup (IF i.e \in {"M", "U"} /\ m.on THEN {"ia"} ELSE {})

PredictTips(c, m) ==
  IF c.pred.kind = "kal" THEN KalPredict(c.pred, c.rate, c.maxout, m.kal, m.tip)
  ELSE EndOfStroke(c, m.tip, m.lc, IF c.iters < c.maxout THEN c.iters ELSE c.maxout).out

Predict(c, m) ==
  IF c = <<>> \/ ~m.on THEN Reject(m, "fp")
  ELSE IF c.pred.kind = "off" THEN Reject(m, "fp")
  ELSE [st |-> "ok", m |-> m,
        res |-> ModelStylus(c, PredictTips(c, m), m.sty, m.lp, m.li.t).out]
===============================================================================
