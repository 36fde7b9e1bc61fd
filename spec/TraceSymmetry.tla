----------------------------- MODULE TraceSymmetry ----------------------------
(* Changes of units and coordinates.                                          *)
(*                                                                            *)
(* A change x of units and coordinates acts on points, velocities, times,     *)
(* parameters, inputs and results.  Modeling commutes with it: a modeler with *)
(* changed parameters, given the changed inputs, gives the changed results.   *)
(* The log has pairs of calls recorded from two runs of the real code.        *)
EXTENDS FP, TLC, Sequences, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_LOG)
VARIABLES l, name, x, size, rate, stat
vars == <<l, name, x, size, rate, stat>>
Stat0 == [calls |-> 0, upd |-> 0, res |-> 0, scen |-> 0, pred |-> 0, pres |-> 0]
Zero == <<0, 0>>
Init == l = 1 /\ name = "" /\ x = <<>> /\ size = Zero /\ rate = Zero /\ stat = Stat0
A == Trace[l].a
B == Trace[l].b
Is(o) == l <= Len(Trace) /\ A.o = o /\ l' = l + 1
ReportIf(c, call, fields, what) ==
  IF c THEN PrintT("MISMATCH " \o ToJson([n |-> name, l |-> l, call |-> call, f |-> SetToSeq(fields), w |-> what]))
  ELSE TRUE

------------------------------------------------------------------------------
(* The action of x.  x.sp, x.tm: exponents of the new units; x.turn: quarter  *)
(* turns; x.mirror; x.dx, x.dy, x.dt: shifts.                                 *)
Turn1(p) == <<NNeg(p[2]), p[1]>>
Turn(k, p) == CASE k = 0 -> p [] k = 1 -> Turn1(p) [] k = 2 -> Turn1(Turn1(p)) [] OTHER -> Turn1(Turn1(Turn1(p)))
Mirror(b, p) == IF b THEN <<NNeg(p[1]), p[2]>> ELSE p
Dir(p, k) == Turn(x.turn, Mirror(x.mirror, <<Scale(p[1], k), Scale(p[2], k)>>))     \* a vector, in units scaled by 2^k
Point(p) == LET q == Dir(p, x.sp) IN <<FPDAdd(0, q[1], x.dx), FPDAdd(0, q[2], x.dy)>>
Moment(t) == FPDAdd(0, Scale(t, x.tm), x.dt)
Len1(d) == Scale(d, x.sp)             \* a length, a speed, a duration, a rate ...
Speed1(v) == Scale(v, x.sp - x.tm)
Dur1(d) == Scale(d, x.tm)
Rate1(r) == Scale(r, 0 - x.tm)
InputTo(i) == [i EXCEPT !.p = Point(i.p), !.t = Moment(i.t)]
ParamsTo(c) ==
  [c EXCEPT
    !.wob.timeout = Dur1(@), !.wob.floor = Speed1(@), !.wob.ceil = Speed1(@),
    !.M = Scale(@, 2 * x.tm), !.K = Rate1(@),
    !.loop.lo = Speed1(@), !.loop.hi = Speed1(@), !.loop.win = Dur1(@),
    !.rate = Rate1(@), !.stop = Len1(@), !.sty.dur = Dur1(@),
    !.pred = IF @.kind # "kal" THEN @
             ELSE [@ EXCEPT !.vel = Speed1(@), !.int = Dur1(@), !.dist = Len1(@), !.vmin = Speed1(@), !.vmax = Speed1(@), !.dev = Len1(@)]]

------------------------------------------------------------------------------
(* Agreement of results.  Units, turns and mirrors are exact for these        *)
(* numbers; shifts change the rounding of positions or times, by an amount    *)
(* that is small against the stroke (tp), hence against its speed and         *)
(* acceleration in units of the output rate; but where the end of a stroke    *)
(* stops depends on the last bit, so that is not compared after a shift.      *)
Shifted == ~Same(x.dx, Zero) \/ ~Same(x.dy, Zero)
Delayed == ~Same(x.dt, Zero)
Norm(p) == NMax(NAbs(p[1]), NAbs(p[2]))
Mul(a, b) == FPDMul(0, a, b)
tp == IF Shifted THEN OfRat(1, 1000) ELSE IF Delayed THEN Scale(size', -12) ELSE Scale(size', -17)
VClose(got, want, tol) ==
  LET t == NMax(tol, Scale(Norm(want), -17)) IN Close(got[1], want[1], t) /\ Close(got[2], want[2], t)
SClose(got, want) == Close(got, want, IF Shifted THEN OfRat(1, 100) ELSE NMax(Scale(NAbs(want), -15), Scale(OfInt(1), -15)))
AClose(got, want) == CloseA(got, want, IF Shifted THEN OfRat(1, 20) ELSE Scale(OfInt(1), -13)) \/ SClose(got, want)
(* A pen at rest has no direction: its velocity underflows, and the stroke    *)
(* normal with it.                                                            *)
Still(r) == Le(Norm(r.v), Scale(FPDMul(0, size', rate), -24))
(* x.cmp: no two points of the input polyline are equally near (else rounding *)
(* decides which one the stylus state is taken from).                         *)
Stylus(r) == x.cmp /\ ~Still(r)
Bad(ra, rb) ==
  {f \in {"p", "v", "a", "t", "pr", "ti", "or"} :
     CASE f = "p" -> ~VClose(rb.p, Point(ra.p), Len1(tp))
       [] f = "v" -> ~VClose(rb.v, Dir(ra.v, x.sp - x.tm), Speed1(Mul(tp, rate)))
       [] f = "a" -> ~VClose(rb.a, Dir(ra.a, x.sp - 2 * x.tm), Scale(Mul(Mul(tp, rate), rate), x.sp - 2 * x.tm))
       [] f = "t" -> ~Close(rb.t, Moment(ra.t), NMax(Scale(NAbs(Moment(ra.t)), -40), Scale(FPDDiv(0, Scale(OfInt(1), x.tm), rate), -20)))
       [] f = "pr" -> Stylus(ra) /\ ~SClose(rb.pr, ra.pr)
       [] f = "ti" -> Stylus(ra) /\ ~SClose(rb.ti, ra.ti)
       [] OTHER -> Stylus(ra) /\ ~AClose(rb.or, ra.or)}
Results(call) ==
  /\ ReportIf(A.st # B.st, call, {"status"}, [a |-> A.st, b |-> B.st])
  /\ IF A.st = B.st /\ ~((Shifted \/ Delayed) /\ (call = "Up" \/ call = "Predict"))
     THEN IF A.k # B.k THEN ReportIf(TRUE, call, {"count"}, [a |-> A.k, b |-> B.k])
          ELSE LET bad == {k \in 1..Len(A.r) : Bad(A.r[k], B.r[k]) # {}} IN
               IF bad = {} THEN TRUE
               ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN
                    ReportIf(TRUE, call, Bad(A.r[k], B.r[k]), [k |-> k, a |-> A.r[k], b |-> B.r[k]])
     ELSE TRUE

------------------------------------------------------------------------------
(* The pairs of the log must be pairs of corresponding calls: anything else   *)
(* is an error of the generator, reported as such.                            *)
Corresponds(c) == IF c THEN TRUE ELSE PrintT("GENERATOR " \o ToJson([n |-> name, l |-> l]))
SameP(p, q) == Same(p[1], q[1]) /\ Same(p[2], q[2])
SameInput(i, j) == i.e = j.e /\ SameP(i.p, j.p) /\ Same(i.t, j.t) /\ Same(i.pr, j.pr) /\ Same(i.ti, j.ti) /\ Same(i.or, j.or)
New == Is("N") /\ name' = A.n /\ x' = Trace[l].x /\ size' = Zero /\ rate' = OfInt(1) /\ stat' = [stat EXCEPT !.scen = @ + 1]
ResetP == /\ Is("P") /\ Corresponds(B.c = ParamsTo(A.c)) /\ ReportIf(A.st # B.st, "ResetP", {"status"}, [a |-> A.st, b |-> B.st])
          /\ rate' = A.c.rate /\ stat' = [stat EXCEPT !.calls = @ + 1] /\ UNCHANGED <<name, x, size>>
Update ==
  /\ Is("I") /\ Corresponds(SameInput(B.i, InputTo(A.i)))
  /\ size' = (IF A.st = "ok" THEN NMax(size, Norm(A.i.p)) ELSE size)
  /\ Results(CASE A.i.e = "D" -> "Down" [] A.i.e = "M" -> "Move" [] OTHER -> "Up")
  /\ stat' = [stat EXCEPT !.calls = @ + 1, !.upd = @ + 1, !.res = @ + A.k] /\ UNCHANGED <<name, x, rate>>
Predict == /\ Is("Q") /\ UNCHANGED <<name, x, rate, size>> /\ Results("Predict")
           /\ stat' = [stat EXCEPT !.calls = @ + 1, !.pred = @ + 1, !.pres = @ + A.k]
Other == /\ l <= Len(Trace) /\ A.o \in {"R", "S", "T"} /\ l' = l + 1
         /\ stat' = [stat EXCEPT !.calls = @ + 1] /\ UNCHANGED <<name, x, rate, size>>
End == Is("Z") /\ PrintT("DONE " \o ToJson(stat)) /\ UNCHANGED <<name, x, size, rate, stat>>
Next == New \/ ResetP \/ Update \/ Predict \/ Other \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
