---------------------------------- MODULE Grid --------------------------------
(* Exhaustive exploration of Modeler on small grids.  From each Down of a     *)
(* task, all sequences of inputs from its alphabet are followed up to a       *)
(* length.  On every transition the results are checked against the           *)
(* properties C06-C16 stated once more, independently of the operators of     *)
(* Modeler: directly over the inputs of the stroke so far and the results,    *)
(* without running sums, queues or loops.  The behaviours are printed, and    *)
(* tools/grid.py replays them into the code.                                  *)
(*                                                                            *)
(* Md = 0 throughout (the rounding of the code).                              *)
EXTENDS Modeler, TLC, FiniteSetsExt, Json, IOUtils

J == JsonDeserialize(IOEnv.VF_GRID)     \* the task: [c, downs, alpha, len]
C == J.c
Alpha == J.alpha
Downs == J.downs

VARIABLES m,      \* the modeler
          ins,    \* inputs of the stroke
          outs,   \* all results of the stroke
          last,   \* the last transition: [pre: modeler before, i, st, res]
          hist,   \* the letters: Down, then the alphabet
          done
vars == <<m, ins, outs, last, hist, done>>

Init == \E k \in 1..Len(Downs) :
          \E r \in {TLCEval(Update(C, Idle, Downs[k]))} :
            /\ m = r.m /\ ins = <<Downs[k]>> /\ outs = r.res /\ hist = <<k>> /\ done = FALSE
            /\ last = [pre |-> Idle, i |-> Downs[k], st |-> r.st, res |-> r.res]

InputOf(a) ==
  [e |-> a.e, p |-> IF a.rel THEN VAdd(m.li.p, a.p) ELSE a.p, t |-> DAdd(m.li.t, a.dt), pr |-> a.pr, ti |-> a.ti, or |-> a.or]

Step == /\ m.on /\ Len(hist) <= J.len
        /\ \E k \in 1..Len(Alpha) :
             /\ Len(hist) < J.len \/ Alpha[k].e = "U"      \* the last letter is an Up
             /\ \E i \in {InputOf(Alpha[k])} :
                \E r \in {TLCEval(Update(C, m, i))} :
                  /\ m' = r.m /\ hist' = Append(hist, k)
                  /\ ins' = IF r.st = "ok" THEN Append(ins, i) ELSE ins
                  /\ outs' = outs \o r.res
                  /\ last' = [pre |-> m, i |-> i, st |-> r.st, res |-> r.res]
        /\ UNCHANGED done
Emit == /\ ~m.on /\ ~done /\ PrintT("SEQ " \o ToJson(hist))
        /\ done' = TRUE /\ UNCHANGED <<m, ins, outs, last, hist>>
Spec == Init /\ [][Step \/ Emit]_vars

------------------------------------------------------------------------------
Eps == OfRat(1, 100000)
Near(a, b, size) == Close(a, b, DMul(Eps, DAdd(NAbs(size), One)))
VNear(p, q) == Near(p[1], q[1], p[1]) /\ Near(p[2], q[2], p[2])
Ok == last.st = "ok"
IsMove == Ok /\ last.i.e = "M"
IsUp == Ok /\ last.i.e = "U"
Rs == last.res
N == Len(Rs)
T0 == last.pre.li.t
T1 == last.i.t
DT == DSub(T1, T0)
Period == DDiv(One, C.rate)

(* C06 for parameters without angle limit.                                    *)
Needed == ToInt(Ceil(DMul(DT, C.rate)))
C06Move ==
  IsMove /\ ~Gt(C.angle, Zero) =>
    IF Eq(DT, Zero) THEN N = 1
    ELSE /\ N = Needed /\ N >= 1
         /\ Near(Rs[N].t, T1, T1)
         /\ \A k \in 1..N : Near(Rs[k].t, DAdd(T0, DDiv(DMul(OfInt(k), DT), OfInt(N))), T1)
         /\ Le(DDiv(DT, OfInt(N)), DMul(Period, DAdd(One, Eps)))
C06Up ==
  IsUp /\ ~Gt(C.angle, Zero) =>
    /\ N >= 1 /\ N >= Needed
    /\ \A k \in 1..(IF N < Needed THEN N ELSE Needed) :
         Near(Rs[k].t, DAdd(T0, DDiv(DMul(OfInt(k), DT), OfInt(Needed))), T1)
    /\ \A k \in (Needed + 1)..N :
         LET before == IF k = 1 THEN last.pre.tip.t ELSE Rs[k - 1].t IN
         \/ (k = 1 /\ Eq(Rs[1].t, before))      \* nothing was added
         \/ (Lt(before, Rs[k].t) /\ Le(DSub(Rs[k].t, before), DMul(Period, DAdd(One, Eps))))
         \/ (Needed = 0 /\ N = 1)               \* only the tip, moved by a step that was not output
C06Increasing == \A k \in 2..Len(outs) : Le(outs[k - 1].t, outs[k].t)

C07Limit == /\ N <= C.maxout
            /\ ~Gt(C.angle, Zero) /\ last.i.e \in {"M", "U"} /\ last.pre.on => 
                 (Ok <=> Needed <= C.maxout /\ ~SameInput(last.pre.li, last.i))

(* C08: every interpolated result is one step of the model from the one       *)
(* before, the anchor on the straight line between the smoothed inputs.       *)
Plain == ~C.loop.on
TipBefore(k) == IF k = 1 THEN last.pre.tip ELSE [p |-> Rs[k - 1].p, v |-> Rs[k - 1].v, t |-> Rs[k - 1].t]
AnchorTo == IF last.i.e = "M" THEN m.lc ELSE last.i.p
OneStep(b, r, q) ==
  LET h == DSub(r.t, b.t)
      Ax(x) == LET acc == DSub(DDiv(DSub(q[x], b.p[x]), C.M), DMul(C.K, b.v[x]))
                   v == DAdd(b.v[x], DMul(h, acc))
                   big == DAdd(NAbs(DDiv(b.p[x], C.M)), DAdd(NAbs(DDiv(q[x], C.M)), NAbs(DMul(C.K, b.v[x]))))
               IN /\ Near(r.a[x], acc, big) /\ Near(r.v[x], v, DMul(big, h))
                  /\ Near(r.p[x], DAdd(b.p[x], DMul(h, v)), DAdd(NAbs(b.p[x]), DMul(big, DMul(h, h))))
  IN Ax(1) /\ Ax(2)
C08Spring ==
  (IsMove \/ IsUp) /\ Plain /\ ~Gt(C.angle, Zero) /\ Gt(DT, Zero) =>
    \A k \in 1..Needed :
      LET f == DDiv(OfInt(k), OfInt(Needed))
          q(x) == DAdd(last.pre.lc[x], DMul(f, DSub(AnchorTo[x], last.pre.lc[x])))
      IN OneStep(TipBefore(k), Rs[k], <<q(1), q(2)>>)

(* C09: the segments that an Up adds never pass the point nearest to it, so   *)
(* the distance does not grow; each but the last is at least stop long and    *)
(* ends at least stop away.                                                   *)
DDist(p, q) == FPDHypot(0, DSub(q[1], p[1]), DSub(q[2], p[2]))
Added == IF Needed < N THEN (Needed + 1)..N ELSE {}
C09End ==
  IsUp /\ Plain /\ ~Gt(C.angle, Zero) /\ Added # {} /\ ~(Needed = 0 /\ N = 1) =>
    /\ N - Needed <= C.iters
    /\ \A k \in Added :
         LET b == TipBefore(k)  r == Rs[k]
             ahead == DAdd(DMul(DSub(last.i.p[1], r.p[1]), DSub(r.p[1], b.p[1])),
                           DMul(DSub(last.i.p[2], r.p[2]), DSub(r.p[2], b.p[2])))
             len == DDist(b.p, r.p)
         IN /\ Le(NNeg(DMul(Eps, DMul(len, len))), ahead)
            /\ OneStep(b, r, last.i.p)
            /\ Le(DMul(C.stop, DSub(One, Eps)), len)
            /\ k < N => Le(DMul(C.stop, DSub(One, Eps)), DDist(r.p, last.i.p))

(* C10: the smoothed position directly from the inputs.                       *)
InWindow == {k \in 2..Len(ins) : ~Lt(ins[k].t, DSub(T1, C.wob.timeout))}
SumD(S, F(_)) == FoldSet(LAMBDA k, acc : DAdd(acc, F(k)), Zero, S)
W(k) == DSub(ins[k].t, ins[k - 1].t)
C10Smooth ==
  IsMove =>
    IF ~C.wob.on THEN m.lc = last.i.p
    ELSE LET u == SumD(InWindow, W)
             avg(x) == DDiv(SumD(InWindow, LAMBDA k : DMul(W(k), ins[k].p[x])), u)
             speed == DDiv(SumD(InWindow, LAMBDA k : DDist(ins[k - 1].p, ins[k].p)), u)
             f == IF Eq(C.wob.floor, C.wob.ceil) THEN (IF Gt(speed, C.wob.floor) THEN One ELSE Zero)
                  ELSE Clamp01(DDiv(DSub(speed, C.wob.floor), DSub(C.wob.ceil, C.wob.floor)))
         IN IF Eq(u, Zero) THEN m.lc = last.i.p
            ELSE \A x \in {1, 2} : Near(m.lc[x], DAdd(avg(x), DMul(f, DSub(last.i.p[x], avg(x)))), last.i.p[x])

(* C11, C12, C13: stylus values.                                              *)
Unk(F(_)) == \E k \in 1..Len(ins) : LET v == F(ins[k]) IN IsNaN(v) \/ Lt(v, Zero)
UnkPr == Unk(LAMBDA i : i.pr)
UnkTi == Unk(LAMBDA i : i.ti)
UnkOr == Unk(LAMBDA i : i.or)
C12Unknown ==
  Ok /\ Len(ins) > 1 =>
    \A k \in 1..N : /\ UnkPr <=> Eq(Rs[k].pr, MinusOne)
                    /\ UnkTi <=> Eq(Rs[k].ti, MinusOne)
                    /\ UnkOr <=> Eq(Rs[k].or, MinusOne)
                    /\ ~UnkOr => (Le(Zero, Rs[k].or) /\ Le(Rs[k].or, DAdd(TwoPi, Eps)))
C12Hull ==
  Ok /\ Len(ins) > 1 =>
    LET In(x, F(_)) == \E a, b \in 1..Len(ins) : Le(F(ins[a]), DAdd(x, Eps)) /\ Le(x, DAdd(F(ins[b]), Eps))
    IN \A k \in 1..N : /\ ~UnkPr => In(Rs[k].pr, LAMBDA i : i.pr)
                       /\ ~UnkTi => In(Rs[k].ti, LAMBDA i : i.ti)

(* The remembered inputs.                                                     *)
Kept == IF last.i.e = "U" THEN {} ELSE {m.sty.q}
C11Window == \A q \in Kept : ~C.sty.proj /\ ~(UnkPr /\ UnkTi /\ UnkOr) =>
               Len(q) = (IF Len(ins) < C.sty.max THEN Len(ins) ELSE C.sty.max)
C13Window ==
  \A q \in Kept : C.sty.proj =>
    LET enough == {k \in 1..Len(ins) : /\ Len(ins) - k + 1 >= C.sty.min
                                       /\ Gt(DSub(ins[Len(ins)].t, ins[k].t), C.sty.dur)}
        from == IF enough = {} THEN 1 ELSE Max(enough)
    IN Len(q) = Len(ins) - from + 1
(* The raw value belongs to a nearest point of the polyline.                  *)
C11Closest ==
  IsMove /\ ~C.sty.proj /\ Plain /\ ~UnkPr =>
    \A k \in 1..N :
      LET q == m.sty.q
          Sg == 1..(Len(q) - 1)
          Rat(s) == LET dx == DSub(q[s + 1].p[1], q[s].p[1])  dy == DSub(q[s + 1].p[2], q[s].p[2])
                        l2 == DAdd(DMul(dx, dx), DMul(dy, dy))
                        w == DAdd(DMul(DSub(Rs[k].p[1], q[s].p[1]), dx), DMul(DSub(Rs[k].p[2], q[s].p[2]), dy))
                    IN IF Eq(l2, Zero) THEN Zero ELSE Clamp01(DDiv(w, l2))
          Pt(s) == <<DAdd(q[s].p[1], DMul(Rat(s), DSub(q[s + 1].p[1], q[s].p[1]))),
                     DAdd(q[s].p[2], DMul(Rat(s), DSub(q[s + 1].p[2], q[s].p[2])))>>
          Di(s) == DDist(Pt(s), Rs[k].p)
      IN IF Len(q) = 1 THEN Eq(Rs[k].pr, q[1].pr)
         ELSE \E s \in Sg : /\ \A z \in Sg : Le(Di(s), DAdd(Di(z), Eps))
                            /\ Near(Rs[k].pr, DAdd(q[s].pr, DMul(Rat(s), DSub(q[s + 1].pr, q[s].pr))), One)

(* C14: the window of speeds directly from the results; the strength is in    *)
(* the configured range.                                                      *)
C14Window ==
  m.on /\ C.loop.on /\ Len(ins) > 1 =>
    LET rs == SubSeq(outs, 2, Len(outs))       \* the Down's own result does not count
        n == Len(rs)
        enough == {k \in 1..n : n - k + 1 >= C.loop.n /\ Ge(DSub(rs[n].t, rs[k].t), C.loop.win)}
        from == IF enough = {} THEN 1 ELSE Max(enough)
        avg == DDiv(SumD(from..n, LAMBDA k : FPDHypot(0, rs[k].v[1], rs[k].v[2])), OfInt(n - from + 1))
        f == IF Eq(C.loop.lo, C.loop.hi) THEN Zero
             ELSE Clamp01(DDiv(DSub(avg, C.loop.lo), DSub(C.loop.hi, C.loop.lo)))
    IN /\ Len(m.lp) = n - from + 1
       /\ Near(LoopStrength(C.loop, m.lp), DAdd(C.loop.slo, DMul(f, DSub(C.loop.shi, C.loop.slo))), One)
C14Off == (IsMove /\ ~C.loop.on /\ N > 0) => VNear(Rs[N].p, m.tip.p) /\ VNear(Rs[N].v, m.tip.v)

(* C15: a prediction is what an Up at the same place and time would add.      *)
Pred == Predict(C, m)
AsUp == Update(C, m, [m.li EXCEPT !.e = "U"])
C15Prediction ==
  m.on /\ C.pred.kind = "end" /\ ~C.wob.on /\ ~Gt(C.angle, Zero) =>
    LET p == Pred.res  u == AsUp.res IN
    IF Len(p) = 0 THEN Len(u) = 1
    ELSE /\ Len(p) = Len(u)
         /\ \A k \in 1..Len(p) : VNear(p[k].p, u[k].p) /\ VNear(p[k].v, u[k].v) /\ VNear(p[k].a, u[k].a) /\ Eq(p[k].t, u[k].t)
(* C05 for the specification: a prediction never fails in a stroke and        *)
(* follows the last result.                                                   *)
C05Prediction ==
  m.on => /\ Pred.st = (IF C.pred.kind = "off" THEN "fp" ELSE "ok")
          /\ Len(Pred.res) <= C.maxout
          /\ \A k \in 1..Len(Pred.res) :
               Lt(IF k = 1 THEN m.tip.t ELSE Pred.res[k - 1].t, Pred.res[k].t)

(* C16: not before enough inputs; the interval is not exceeded by a sample    *)
(* beyond the connector; the connector starts at the tip.                     *)
C16Bound ==
  m.on /\ C.pred.kind = "kal" =>
    LET n == Len(Pred.res)
        e == KalEstimate(C.pred, m.kal)
    IN /\ Len(ins) < C.pred.stable => n = 0
       /\ n > 0 => LET con == ConnectorLen(C.pred, C.maxout, Period, m.tip, e)
                       conf == Confidence(C.pred, m.kal, e)
                   IN /\ con >= 1 /\ con <= n
                      /\ Le(Zero, conf) /\ Le(conf, One)
                      /\ Lt(OfInt(n - con), DAdd(One, DMul(DMul(C.pred.int, C.rate), DAdd(One, Eps))))
                      /\ Plain => VNear(Pred.res[con].p, e.p)
===============================================================================
