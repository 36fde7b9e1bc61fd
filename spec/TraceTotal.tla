------------------------------- MODULE TraceTotal -----------------------------
(* Totality: what every call must do whatever the numbers are.  Checks a log  *)
(* of harness/trace.cc made with extreme parameters and inputs.  (That the    *)
(* driver reached the end of the log at all, without a report of a sanitizer, *)
(* is checked outside.)                                                       *)
(*                                                                            *)
(* While a stroke and its parameters are ordinary (Ordinary below) every      *)
(* result must be finite.                                                     *)
EXTENDS Params, TLC, Sequences, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_LOG)
VARIABLES l, cfg, on, ord, sord, lt, name, stat, mem
vars == <<l, cfg, on, ord, sord, lt, name, stat, mem>>

Stat0 == [calls |-> 0, upd |-> 0, res |-> 0, scen |-> 0, refused |-> 0, ordinary |-> 0, pred |-> 0]
Init == l = 1 /\ cfg = <<>> /\ on = FALSE /\ ord = FALSE /\ sord = [ok |-> FALSE, on |-> FALSE, ord |-> FALSE, lt |-> <<0, 0>>]
        /\ lt = <<0, 0>> /\ name = "" /\ stat = Stat0 /\ mem = 0
Ln == Trace[l]
Is(o) == l <= Len(Trace) /\ Ln.o = o /\ l' = l + 1
ReportIf(c, call, fields, what) ==
  IF c THEN PrintT("MISMATCH " \o ToJson([n |-> name, l |-> l, call |-> call, f |-> SetToSeq(fields), w |-> what]))
  ELSE TRUE

------------------------------------------------------------------------------
Mul(a, b) == FPDMul(0, a, b)
Div(a, b) == FPDDiv(0, a, b)
Within(x, lo, hi) == IsFin(x) /\ Le(lo, NAbs(x)) /\ Le(NAbs(x), hi)
Million == OfInt(1000000)
Tiny == OfRat(1, 1000000)
(* The spring and drag are stable at the output rate, nothing is enormous.    *)
OrdinaryCfg(c) ==
  /\ Within(c.rate, OfInt(1), OfInt(10000))
  /\ Within(c.M, OfRat(1, 100000000), OfInt(100)) /\ Within(c.K, OfRat(1, 1000), Million)
  /\ Le(Div(OfInt(1), Mul(Mul(c.rate, c.rate), c.M)), OfInt(1))
  /\ Le(Div(c.K, c.rate), OfInt(1))
  /\ c.pred.kind = "kal" => /\ Within(c.pred.pn, Tiny, OfInt(1000)) /\ Within(c.pred.mn, Tiny, OfInt(1000))
                            /\ Within(c.pred.aw, <<0, 0>>, OfInt(10)) /\ Within(c.pred.jw, <<0, 0>>, OfInt(10))
                            /\ Within(c.pred.int, Tiny, OfInt(10))
OrdinaryInput(i) ==
  /\ Within(i.p[1], <<0, 0>>, OfInt(10000)) /\ Within(i.p[2], <<0, 0>>, OfInt(10000))
  /\ Within(i.t, <<0, 0>>, Million)
  /\ (IsNaN(i.pr) \/ IsFin(i.pr)) /\ (IsNaN(i.ti) \/ IsFin(i.ti)) /\ (IsNaN(i.or) \/ IsFin(i.or))
  /\ ~Lt(OfRat(1000000000, 1), i.pr) /\ ~Lt(OfRat(1000000000, 1), i.ti) /\ ~Lt(OfRat(1000000000, 1), i.or)
(* Inputs of a stroke are at the same time or not immeasurably close.         *)
OrdinaryGap(a, b) == Eq(a, b) \/ Le(OfRat(1, 100000), NAbs(FPDSub(0, a, b)))
FiniteV(p) == IsFin(p[1]) /\ IsFin(p[2])
Fin(r) == FiniteV(r.p) /\ FiniteV(r.v) /\ FiniteV(r.a) /\ IsFin(r.t) /\ IsFin(r.pr) /\ IsFin(r.ti) /\ IsFin(r.or)

------------------------------------------------------------------------------
New == Is("N") /\ cfg' = <<>> /\ on' = FALSE /\ ord' = FALSE /\ sord' = [sord EXCEPT !.ok = FALSE]
       /\ name' = Ln.n /\ stat' = [stat EXCEPT !.scen = @ + 1] /\ UNCHANGED lt
ResetP ==
  /\ Is("P")
  /\ IF Ln.st = "ok" THEN cfg' = Ln.c /\ on' = FALSE /\ sord' = [sord EXCEPT !.ok = FALSE] ELSE UNCHANGED <<cfg, on, sord>>
  /\ ReportIf((Ln.st = "ok") # Valid(Ln.c), "ResetP", {"status"}, [got |-> Ln.st])
  /\ stat' = [stat EXCEPT !.calls = @ + 1] /\ UNCHANGED <<ord, lt, name>>
Reset0 ==
  /\ Is("R") /\ on' = (IF Ln.st = "ok" THEN FALSE ELSE on) /\ sord' = [sord EXCEPT !.ok = FALSE]
  /\ stat' = [stat EXCEPT !.calls = @ + 1] /\ UNCHANGED <<cfg, ord, lt, name>>
Update ==
  /\ Is("I")
  /\ LET i == Ln.i
         new == i.e = "D" /\ ~on
         od == IF Ln.st # "ok" THEN ord
               ELSE /\ (IF new THEN OrdinaryCfg(cfg) ELSE ord /\ OrdinaryGap(i.t, lt)) /\ OrdinaryInput(i)
         bad == {k \in 1..Len(Ln.r) : ~Fin(Ln.r[k])}
     IN
     /\ ReportIf(Ln.st \notin {"ok", "ia", "fp"}, "Update", {"status"}, [got |-> Ln.st])
     /\ ReportIf(cfg # <<>> /\ new /\ Ln.st # "ok" /\ FiniteV(i.p) /\ IsFin(i.t), "Down", {"status"}, [got |-> Ln.st])
     /\ ReportIf(Ln.st = "ok" /\ (Ln.k = 0 \/ Ln.k > cfg.maxout), "Update", {"limit"}, [got |-> Ln.k])
     /\ ReportIf(~Ln.pre, "Update", {"pre"}, [got |-> Ln.st])
     /\ ReportIf(od /\ ~new /\ bad # {}, "Update", {"finite"}, [at |-> SetToSeq(bad)])
     /\ on' = (IF Ln.st # "ok" THEN on ELSE i.e # "U")
     /\ ord' = od
     /\ lt' = (IF Ln.st = "ok" THEN i.t ELSE lt)
     /\ sord' = (IF new /\ Ln.st = "ok" /\ sord.on THEN [sord EXCEPT !.ok = FALSE] ELSE sord)
     /\ stat' = [stat EXCEPT !.calls = @ + 1, !.upd = @ + 1, !.res = @ + Ln.k,
                             !.refused = @ + (IF Ln.st = "ok" THEN 0 ELSE 1), !.ordinary = @ + (IF od THEN 1 ELSE 0)]
  /\ UNCHANGED <<cfg, name>>
Predict ==
  /\ Is("Q")
  /\ LET bad == {k \in 1..Len(Ln.r) : ~Fin(Ln.r[k])} IN
     /\ ReportIf(cfg # <<>> /\ on /\ (Ln.st = "ok") # (cfg.pred.kind # "off"), "Predict", {"status"}, [got |-> Ln.st])
     /\ ReportIf(cfg # <<>> /\ on /\ Ln.k > cfg.maxout, "Predict", {"limit"}, [got |-> Ln.k])
     /\ ReportIf(on /\ ord /\ bad # {}, "Predict", {"finite"}, [at |-> SetToSeq(bad)])
  /\ stat' = [stat EXCEPT !.calls = @ + 1, !.res = @ + Ln.k, !.pred = @ + 1] /\ UNCHANGED <<cfg, on, ord, sord, lt, name>>
Save == Is("S") /\ sord' = [ok |-> TRUE, on |-> on, ord |-> ord, lt |-> lt]
        /\ stat' = [stat EXCEPT !.calls = @ + 1] /\ UNCHANGED <<cfg, on, ord, lt, name>>
Restore == /\ Is("T")
           /\ IF sord.ok THEN on' = sord.on /\ ord' = sord.ord /\ lt' = sord.lt ELSE UNCHANGED <<on, ord, lt>>
           /\ stat' = [stat EXCEPT !.calls = @ + 1] /\ UNCHANGED <<cfg, sord, name>>
(* Nothing is left behind by the modelers that were destroyed.               *)
End == Is("Z") /\ ReportIf(Ln.live > 100, "End", {"leak"}, [blocks |-> Ln.live]) /\ PrintT("DONE " \o ToJson(stat)) /\ UNCHANGED <<cfg, on, ord, sord, lt, name, stat>>
(* In the scenarios with L lines the stroke goes on evenly between them: the  *)
(* modeler keeps a bounded part of it.                                        *)
Memory == /\ Is("L")
          /\ ReportIf(mem > 0 /\ Ln.b > mem + 6000, "Memory", {"memory"}, [first |-> mem, now |-> Ln.b])
          /\ mem' = (IF mem = 0 THEN Ln.b ELSE mem) /\ UNCHANGED <<cfg, on, ord, sord, lt, name, stat>>
Calls == Reset0 \/ ResetP \/ Update \/ Predict \/ Save \/ Restore \/ End
Next == (New /\ mem' = 0) \/ Memory \/ (Calls /\ UNCHANGED mem)
Spec == Init /\ [][Next]_vars
===============================================================================
