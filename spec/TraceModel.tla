------------------------------- MODULE TraceModel -----------------------------
(* Checks a log of public calls on the real stroke modeler (harness/trace.cc) *)
(* against module Modeler.  The specification is run in several rounding      *)
(* modes side by side (see FP); the first is the reference.  Where the modes  *)
(* disagree on a discrete outcome (a status, a number of results) rounding    *)
(* decides, the call is "ambiguous", and nothing more is claimed about that   *)
(* stroke.  Numbers must agree with the reference up to a multiple of the     *)
(* spread of the modes, plus a few units in the last place of the largest     *)
(* such number in the stroke.                                                 *)
(*                                                                            *)
(* The specification's state never depends on logged results, so one          *)
(* disagreement does not hide the rest of the log: each is printed, with the  *)
(* kind of call and the field, and checking goes on.                          *)
EXTENDS TLC, Sequences, SequencesExt, FiniteSetsExt, Integers, Json, IOUtils, FP

Trace == ndJsonDeserialize(IOEnv.VF_LOG)
(* Usually 4; more when a disagreement is looked at more closely.             *)
NModes == IF "VF_MODES" \in DOMAIN IOEnv THEN atoi(IOEnv.VF_MODES) ELSE 4
Modes == 1..NModes
M(k) == INSTANCE Modeler WITH Md <- k

VARIABLES l,      \* next line of the log
          cfg,    \* parameters in force, <<>> if none
          ms,     \* state of the modeler, one per mode
          amb,    \* the current stroke is ambiguous
          mon,    \* state of the monitors, which see only the log
          sv,     \* the saved state: [ok, ms, amb, mon]
          env,    \* running spreads and magnitudes, for the tolerances
          name,   \* current scenario
          stat    \* counters
vars == <<l, cfg, ms, amb, mon, sv, env, name, stat>>

Z == <<0, 0>>
Each(x) == [k \in Modes |-> x]
Mon0 == [t |-> <<>>, pr |-> <<>>, ti |-> <<>>, uo |-> FALSE, up |-> FALSE, ut |-> FALSE]
NoSave == [ok |-> FALSE, ms |-> <<>>, amb |-> FALSE, mon |-> Mon0]
Idle == M(0)!Idle
Env0 == [p |-> Z, v |-> Z, a |-> Z, s |-> Z, t |-> Z, P |-> Z, V |-> Z, A |-> Z, S |-> Z, T |-> Z]
Stat0 == [calls |-> 0, upd |-> 0, res |-> 0, amb |-> 0, rej |-> 0, pred |-> 0, pres |-> 0,
          up |-> 0, scen |-> 0, sync |-> 0, vague |-> 0]

Init == /\ l = 1 /\ cfg = <<>> /\ ms = Each(Idle) /\ amb = FALSE
        /\ mon = Mon0 /\ sv = NoSave /\ env = Env0 /\ name = "" /\ stat = Stat0

Ln == Trace[l]
Is(o) == l <= Len(Trace) /\ Ln.o = o /\ l' = l + 1

(* Report a disagreement: property-relevant kind, position, what was logged   *)
(* and what the specification requires.                                       *)
Report(call, fields, what) ==
  PrintT("MISMATCH " \o ToJson([n |-> name, l |-> l, call |-> call, f |-> SetToSeq(fields), w |-> what]))
ReportIf(c, call, fields, what) == IF c THEN Report(call, fields, what) ELSE TRUE

------------------------------------------------------------------------------
(* Comparison of results.                                                     *)
Half == <<1071644672, 0>>
Dadd(a, b) == FPDAdd(0, a, b)
Dmul(a, b) == FPDMul(0, a, b)
MaxOf(a, b) == Fmax(a, b)
RelF == OfRat(1, 1000000)
RelT == FPDDiv(0, OfRat(1, 1000000000), OfRat(10000, 1))
Factor == OfInt(24)

Sp(rs, F(_)) == Spread([k \in Modes |-> F(rs[k])])
SpA(rs, F(_)) == SpreadA([k \in Modes |-> F(rs[k])])
V(F(_)) == TRUE
Decay(new, old) == MaxOf(new, Dmul(Half, old))
Big(a, b) == IF IsFin(a) THEN MaxOf(NAbs(a), b) ELSE b
BigV(q, b) == Big(q[1], Big(q[2], b))

NextEnv(e, rs) ==
  LET r == rs[1] IN
  [p |-> Decay(MaxOf(Sp(rs, LAMBDA x : x.p[1]), Sp(rs, LAMBDA x : x.p[2])), e.p),
   v |-> Decay(MaxOf(Sp(rs, LAMBDA x : x.v[1]), Sp(rs, LAMBDA x : x.v[2])), e.v),
   a |-> Decay(MaxOf(Sp(rs, LAMBDA x : x.a[1]), Sp(rs, LAMBDA x : x.a[2])), e.a),
   s |-> Decay(MaxOf(MaxOf(Sp(rs, LAMBDA x : x.pr), Sp(rs, LAMBDA x : x.ti)),
                     SpA(rs, LAMBDA x : x.or)), e.s),
   t |-> Decay(Sp(rs, LAMBDA x : x.t), e.t),
   P |-> BigV(r.p, e.P), V |-> BigV(r.v, e.V), A |-> BigV(r.a, e.A),
   S |-> Big(r.pr, Big(r.ti, Big(r.or, e.S))), T |-> Big(r.t, e.T)]
EnvIn(e, i) == [e EXCEPT !.P = BigV(i.p, @), !.T = Big(i.t, @),
                         !.S = Big(i.pr, Big(i.ti, Big(i.or, @)))]

Tol(spread, rel, size) == Dadd(Dmul(Factor, spread), Dmul(rel, size))

(* Fields in which logged result g differs from the reference r.              *)
Diffs(g, r, e) ==
  LET tp == Tol(e.p, RelF, e.P)  tv == Tol(e.v, RelF, e.V)  ta == Tol(e.a, RelF, e.A)
      tsy == Tol(e.s, RelF, e.S)  tt == Tol(e.t, RelT, e.T)
      Unk(x) == Eq(x, <<-1074790400, 0>>)
      Sty(a, b) == IF Unk(a) # Unk(b) /\ ~IsNaN(b) THEN IsFin(tsy) /\ Lt(tsy, OfRat(1, 10))
                   ELSE ~Close(a, b, tsy)
  IN {f \in {"p", "v", "a", "t", "pr", "ti", "or"} :
        CASE f = "p" -> ~Close(g.p[1], r.p[1], tp) \/ ~Close(g.p[2], r.p[2], tp)
          [] f = "v" -> ~Close(g.v[1], r.v[1], tv) \/ ~Close(g.v[2], r.v[2], tv)
          [] f = "a" -> ~Close(g.a[1], r.a[1], ta) \/ ~Close(g.a[2], r.a[2], ta)
          [] f = "t" -> ~Close(g.t, r.t, tt)
          [] f = "pr" -> Sty(g.pr, r.pr)
          [] f = "ti" -> Sty(g.ti, r.ti)
          [] f = "or" -> IF Unk(g.or) # Unk(r.or) THEN Sty(g.or, r.or)
                         ELSE ~CloseA(g.or, r.or, tsy)}

ShowR(r) == [p |-> <<Show(r.p[1]), Show(r.p[2])>>, v |-> <<Show(r.v[1]), Show(r.v[2])>>,
             a |-> <<Show(r.a[1]), Show(r.a[2])>>, t |-> Show(r.t),
             sty |-> <<Show(r.pr), Show(r.ti), Show(r.or)>>]
ShowT(x) == IF x = <<>> THEN "none" ELSE Show(x)
DSub0(a, b) == FPDSub(0, a, b)
ShowE(e) == <<Show(Tol(e.p, RelF, e.P)), Show(Tol(e.v, RelF, e.V)), Show(Tol(e.a, RelF, e.A)),
              Show(Tol(e.s, RelF, e.S)), Show(Tol(e.t, RelT, e.T))>>

(* For TraceSymmetry: which fields of which calls are ill-conditioned.        *)
LooseFields(e) ==
  LET Far(spread, size) == Lt(Scale(size, -17), Dmul(Factor, spread)) IN
  {f \in {"p", "v", "a", "s", "t"} :
     CASE f = "p" -> Far(e.p, e.P) [] f = "v" -> Far(e.v, e.V) [] f = "a" -> Far(e.a, e.A)
       [] f = "s" -> Far(e.s, MaxOf(e.S, OfInt(1))) [] f = "t" -> Lt(Scale(e.T, -40), Dmul(Factor, e.t))}
Loose(fields) ==
  IF "VF_LOOSE" \in DOMAIN IOEnv /\ fields # {}
  THEN PrintT("LOOSE " \o ToJson([n |-> name, l |-> l, f |-> SetToSeq(fields)])) ELSE TRUE

(* Compares the logged results gs with those of the modes; returns the new    *)
(* running tolerances and prints the first disagreements.                     *)
Compare(call, gs, os, e0) ==
  FoldLeft(LAMBDA acc, j :
             LET rs == [k \in Modes |-> os[k][j]]
                 e == NextEnv(acc.e, rs)
                 d == Diffs(gs[j], rs[1], e)
             IN [e |-> IF Loose(LooseFields(e)) THEN e ELSE e,
                 bad |-> IF d # {} /\ acc.bad < 2
                         THEN IF Report(call, d, [k |-> j, of |-> Len(gs), got |-> ShowR(gs[j]),
                                                  want |-> ShowR(rs[1]), tol |-> ShowE(e)])
                              THEN acc.bad + 1 ELSE acc.bad
                         ELSE acc.bad],
           [e |-> e0, bad |-> 0], M(0)!Idx(Len(gs)))

AllSame(xs) == \A k \in 2..NModes : xs[k] = xs[1]

------------------------------------------------------------------------------
(* Monitors: consequences that can be read off the log alone, whatever the    *)
(* rounding: times do not decrease, unknown fields are -1, known ones stay    *)
(* within the values that were input, orientations within a turn.             *)
Unknown(x) == IsNaN(x) \/ Lt(x, Z)
MinusOne == <<-1074790400, 0>>
Hull(h, x) == IF Unknown(x) \/ ~IsFin(x) THEN h
              ELSE IF h = <<>> THEN <<x, x>> ELSE <<Fmin(h[1], x), Fmax(h[2], x)>>
MonInput(m, i) ==
  [m EXCEPT !.up = @ \/ Unknown(i.pr), !.ut = @ \/ Unknown(i.ti), !.uo = @ \/ Unknown(i.or),
            !.pr = Hull(@, i.pr), !.ti = Hull(@, i.ti)]
Slack(x) == Dadd(Dmul(OfRat(1, 100000), NAbs(x)), OfRat(1, 1000000000))
InHull(h, x) == h = <<>> \/ (Le(h[1], Dadd(x, Slack(h[2]))) /\ Le(x, Dadd(h[2], Slack(h[2]))))
StyFields(m, g) ==
  {f \in {"pr", "ti", "or"} :
     CASE f = "pr" -> IF m.up THEN ~Eq(g.pr, MinusOne) ELSE Unknown(g.pr) \/ (IsFin(g.pr) /\ ~InHull(m.pr, g.pr))
       [] f = "ti" -> IF m.ut THEN ~Eq(g.ti, MinusOne) ELSE Unknown(g.ti) \/ (IsFin(g.ti) /\ ~InHull(m.ti, g.ti))
       [] f = "or" -> IF m.uo THEN ~Eq(g.or, MinusOne)
                      ELSE Unknown(g.or) \/ (IsFin(g.or) /\ Lt(OfRat(6283187, 1000000), g.or))}
(* An unknown or infinite value in one input may spread within the stroke:    *)
(* the monitors of finite values then do not apply.                           *)
TimeSlack(x) == Dmul(OfRat(1, 1000000000), Dmul(OfRat(1, 100000), NAbs(x)))
MonResults(m, call, gs) ==
  FoldLeft(LAMBDA acc, j :
             LET g == gs[j]
                 back == acc.t # <<>> /\ Lt(g.t, DSub0(acc.t, TimeSlack(g.t)))
                 sf == StyFields(m, g)
                 ok == acc.ok /\ ~back /\ sf = {}
             IN IF acc.ok /\ ~ok
                THEN IF Report(call, sf \cup (IF back THEN {"mono"} ELSE {}) \cup {"monitor"},
                               [k |-> j, got |-> ShowR(g), last |-> ShowT(acc.t)])
                     THEN [t |-> g.t, ok |-> FALSE] ELSE [t |-> g.t, ok |-> FALSE]
                ELSE [t |-> g.t, ok |-> acc.ok],
           [t |-> m.t, ok |-> TRUE], M(0)!Idx(Len(gs)))

------------------------------------------------------------------------------
New == /\ Is("N")
       /\ cfg' = <<>> /\ ms' = Each(Idle) /\ amb' = FALSE /\ sv' = NoSave /\ mon' = Mon0
       /\ env' = Env0 /\ name' = Ln.n /\ stat' = [stat EXCEPT !.scen = @ + 1]

(* The validity of parameters is the subject of TraceParams; here scenarios   *)
(* use valid ones.                                                            *)
ResetP == /\ Is("P")
          /\ IF Ln.st = "ok"
             THEN cfg' = Ln.c /\ ms' = Each(Idle) /\ amb' = FALSE /\ sv' = NoSave /\ mon' = Mon0
             ELSE UNCHANGED <<cfg, ms, amb, sv, mon>>
          /\ ReportIf(Ln.st # "ok", "ResetP", {"status"}, [got |-> Ln.st])
          /\ UNCHANGED <<env, name>> /\ stat' = [stat EXCEPT !.calls = @ + 1]

Reset0 == /\ Is("R")
          /\ ReportIf(Ln.st # (IF cfg = <<>> THEN "fp" ELSE "ok"), "Reset", {"status"}, [got |-> Ln.st])
          /\ IF cfg # <<>> THEN ms' = Each(Idle) /\ amb' = FALSE /\ sv' = NoSave /\ mon' = Mon0
             ELSE UNCHANGED <<ms, amb, sv, mon>>
          /\ UNCHANGED <<cfg, env, name>> /\ stat' = [stat EXCEPT !.calls = @ + 1]

(* Where rounding decides how many steps a Move takes, or whether it is       *)
(* refused, the log tells which way it went, and the modes that went the      *)
(* other way are replaced by one that went the same way.  0 if none did.      *)
Follow(sts, ns) ==
  LET ok == {k \in Modes : IF Ln.st = "ok" THEN sts[k] = "ok" /\ ns[k] = Ln.k ELSE sts[k] # "ok"}
  IN IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : k <= j
InRange(sts, ns) ==
  Ln.st # "ok" \/ (\E k \in Modes : sts[k] # "ok")
  \/ ((\E k \in Modes : ns[k] <= Ln.k) /\ (\E k \in Modes : ns[k] >= Ln.k))
Pick(xs, sel) == [k \in Modes |-> xs[sel[k]]]

(* The result of a Down is the Down itself.                                   *)
Echo(rs, i) ==
  LET r == rs[1] IN
  /\ Len(rs) = 1 /\ r.p = i.p /\ r.t = i.t /\ r.pr = i.pr /\ r.ti = i.ti /\ r.or = i.or
  /\ \A x \in {r.v[1], r.v[2], r.a[1], r.a[2]} : Eq(x, Z)

Update ==
  /\ Is("I")
  /\ \E i \in {Ln.i} :
     \E rs0 \in {TLCEval([k \in Modes |-> M(k - 1)!Update(cfg, ms[k], i)])} :
     \E sts0 \in {TLCEval([k \in Modes |-> rs0[k].st])} :
     \E ns0 \in {TLCEval([k \in Modes |-> Len(rs0[k].res)])} :
     LET isDown == i.e = "D" /\ ~ms[1].on
         call == IF isDown THEN "Down" ELSE IF i.e = "U" THEN "Up" ELSE "Move"
         old == amb /\ ms[1].on /\ ~isDown
         split == ~AllSame([k \in Modes |-> sts0[k] = "ok"]) \/ (sts0[1] = "ok" /\ ~AllSame(ns0))
     IN
     \E fol \in {IF split THEN Follow(sts0, ns0) ELSE 1} :
     \E sel \in {IF split /\ fol # 0
                 THEN [k \in Modes |->
                         IF (IF Ln.st = "ok" THEN sts0[k] = "ok" /\ ns0[k] = Ln.k ELSE sts0[k] # "ok")
                         THEN k ELSE fol]
                 ELSE [k \in Modes |-> k]} :
     \E rs \in {TLCEval(Pick(rs0, sel))} :
     LET vague == old \/ (split /\ fol = 0)
         want == rs[1].st
         os == [k \in Modes |-> rs[k].res]
         e0 == EnvIn(IF isDown THEN Env0 ELSE env, i)
         stOk == IF want = "ok" THEN Ln.st = "ok" ELSE Ln.st \in M(0)!RefusalCodes(cfg, ms[1], i)
         mon1 == IF Ln.st = "ok" THEN MonInput(IF isDown THEN Mon0 ELSE mon, i) ELSE mon
     IN
     \E cmp \in {IF ~vague /\ want = "ok" /\ Ln.st = "ok" /\ Ln.k = Len(rs[1].res) /\ Ln.k = Len(Ln.r)
                 THEN Compare(call, Ln.r, os, e0) ELSE [e |-> e0, bad |-> 0]} :
     \E mr \in {IF Ln.st = "ok" /\ ~isDown THEN MonResults(mon1, call, Ln.r)
                ELSE [t |-> IF Ln.k > 0 THEN Ln.r[Len(Ln.r)].t ELSE mon.t, ok |-> TRUE]} :
        /\ Loose(IF vague \/ split THEN {"all"} ELSE {})
        /\ ReportIf(~Ln.pre, call, {"pre"}, [got |-> Ln.st])
        /\ ReportIf(~vague /\ ~stOk, call, {"status"}, [got |-> Ln.st, want |-> want])
        /\ ReportIf(old = FALSE /\ split /\ fol = 0 /\ call = "Move" /\ ~InRange(sts0, ns0), call, {"count"},
                    [got |-> Ln.k, want |-> ns0])
        /\ ReportIf(~vague /\ want = "ok" /\ Ln.st = "ok" /\ Ln.k # Len(rs[1].res),
                    call, {"count"}, [got |-> Ln.k, want |-> Len(rs[1].res)])
        /\ ReportIf(cfg # <<>> /\ Ln.k > (IF cfg = <<>> THEN 0 ELSE cfg.maxout), call, {"limit"}, [got |-> Ln.k])
        /\ ReportIf(Ln.st = "ok" /\ Ln.k = 0, call, {"empty"}, [got |-> 0])
        /\ ReportIf(isDown /\ Ln.st = "ok" /\ Ln.k > 0 /\ ~Echo(Ln.r, i), call, {"down"}, [got |-> ShowR(Ln.r[1])])
        /\ ms' = [k \in Modes |-> rs[k].m]
        /\ amb' = (vague /\ ~isDown)
        /\ mon' = [mon1 EXCEPT !.t = mr.t]
        \* A state saved during an earlier stroke is void once a new one begins.
        /\ sv' = IF isDown /\ want = "ok" /\ sv.ok /\ sv.ms[1].on THEN NoSave ELSE sv
        /\ env' = cmp.e
        /\ stat' = [stat EXCEPT !.calls = @ + 1, !.upd = @ + 1, !.res = @ + (IF vague THEN 0 ELSE Ln.k),
                                !.amb = @ + (IF split THEN 1 ELSE 0), !.sync = @ + (IF split /\ fol # 0 THEN 1 ELSE 0),
                                !.vague = @ + (IF vague THEN 1 ELSE 0),
                                !.rej = @ + (IF want = "ok" THEN 0 ELSE 1),
                                !.up = @ + (IF call = "Up" THEN 1 ELSE 0)]
  /\ UNCHANGED <<cfg, name>>

Predict ==
  /\ Is("Q")
  /\ \E rs \in {TLCEval([k \in Modes |-> M(k - 1)!Predict(cfg, ms[k])])} :
     \E ns \in {TLCEval([k \in Modes |-> Len(rs[k].res)])} :
     LET os == [k \in Modes |-> rs[k].res]
         vague == (amb /\ ms[1].on) \/ ~AllSame(ns)
     IN
     \E cmp \in {IF ~vague /\ Ln.k = ns[1] /\ Ln.k = Len(Ln.r) THEN Compare("Predict", Ln.r, os, env)
                 ELSE [e |-> env, bad |-> 0]} :
     \E mr \in {IF Ln.st = "ok" THEN MonResults(mon, "Predict", Ln.r) ELSE [t |-> Z, ok |-> TRUE]} :
        /\ Loose(IF vague THEN {"all"} ELSE {})
        /\ ReportIf(~Ln.pre, "Predict", {"pre"}, [got |-> Ln.st])
        /\ ReportIf(Ln.st # rs[1].st, "Predict", {"status"}, [got |-> Ln.st, want |-> rs[1].st])
        /\ ReportIf(~vague /\ Ln.k # ns[1], "Predict", {"count"}, [got |-> Ln.k, want |-> ns[1]])
        /\ ReportIf(cfg # <<>> /\ Ln.k > (IF cfg = <<>> THEN 0 ELSE cfg.maxout), "Predict", {"limit"},
                    [got |-> Ln.k])
        /\ stat' = [stat EXCEPT !.calls = @ + 1, !.pred = @ + 1, !.pres = @ + (IF vague THEN 0 ELSE Ln.k),
                                !.amb = @ + (IF vague THEN 1 ELSE 0), !.vague = @ + (IF vague THEN 1 ELSE 0)]
        /\ env' = [env EXCEPT !.P = cmp.e.P]
  /\ UNCHANGED <<cfg, ms, amb, mon, sv, name>>

Save == /\ Is("S") /\ sv' = [ok |-> TRUE, ms |-> ms, amb |-> amb, mon |-> mon]
        /\ UNCHANGED <<cfg, ms, amb, mon, env, name>> /\ stat' = [stat EXCEPT !.calls = @ + 1]

Restore == /\ Is("T")
           /\ IF sv.ok THEN ms' = sv.ms /\ amb' = sv.amb /\ mon' = sv.mon ELSE UNCHANGED <<ms, amb, mon>>
           /\ UNCHANGED <<cfg, sv, env, name>> /\ stat' = [stat EXCEPT !.calls = @ + 1]

(* The last line: everything was consumed.                                    *)
End == /\ Is("Z") /\ PrintT("DONE " \o ToJson(stat))
       /\ UNCHANGED <<cfg, ms, amb, mon, sv, env, name, stat>>

Next == New \/ ResetP \/ Reset0 \/ Update \/ Predict \/ Save \/ Restore \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
