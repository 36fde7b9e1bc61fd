------------------------------ MODULE TraceParams -----------------------------
(* Checks a log of the driver (harness/trace.cc) against module Params: every *)
(* Reset(params) and every validation function must answer as Params says,    *)
(* and a modeler with accepted parameters must keep its promises about        *)
(* statuses and numbers of results.                                           *)
EXTENDS Params, TLC, Sequences, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_LOG)

VARIABLES l, cfg, on, name, stat
vars == <<l, cfg, on, name, stat>>

Init == l = 1 /\ cfg = <<>> /\ on = FALSE /\ name = ""
        /\ stat = [calls |-> 0, configs |-> 0, valid |-> 0, upd |-> 0, res |-> 0, scen |-> 0, refused |-> 0]
Ln == Trace[l]
Is(o) == l <= Len(Trace) /\ Ln.o = o /\ l' = l + 1

ReportIf(c, call, fields, what) ==
  IF c THEN PrintT("MISMATCH " \o ToJson([n |-> name, l |-> l, call |-> call, f |-> SetToSeq(fields), w |-> what]))
  ELSE TRUE
St(b) == IF b THEN "ok" ELSE "ia"

New == Is("N") /\ cfg' = <<>> /\ on' = FALSE /\ name' = Ln.n /\ stat' = [stat EXCEPT !.scen = @ + 1]

ResetP ==
  /\ Is("P")
  /\ \E c \in {Ln.c} :
       LET want == [wob |-> St(ValidWobble(c)), pos |-> St(ValidPosition(c)),
                    samp |-> St(ValidSampling(c)), sty |-> St(ValidStylus(c)), pred |-> St(ValidPrediction(c)),
                    all |-> St(Valid(c))]
           bad == {k \in DOMAIN want : want[k] # Ln.v[k]}
       IN /\ ReportIf(Ln.st # want.all, "ResetP", {"status"}, [got |-> Ln.st, want |-> want.all])
          /\ ReportIf(bad # {}, "Validate", {"validate"}, [wrong |-> SetToSeq(bad), got |-> Ln.v])
          /\ cfg' = IF Ln.st = "ok" THEN c ELSE cfg
          /\ on' = IF Ln.st = "ok" THEN FALSE ELSE on
          /\ stat' = [stat EXCEPT !.calls = @ + 1, !.configs = @ + 1, !.valid = @ + (IF Valid(c) THEN 1 ELSE 0)]
  /\ UNCHANGED name

(* An accepted configuration can be used: a Down is accepted, an Update gives *)
(* between one and the maximal number of results, a prediction no more.       *)
Update ==
  /\ Is("I")
  /\ LET down == Ln.i.e = "D" IN
     /\ ReportIf(cfg # <<>> /\ down /\ ~on /\ Ln.st # "ok", "Down", {"status"}, [got |-> Ln.st])
     /\ ReportIf(cfg = <<>> /\ Ln.st # "fp", "Update", {"status"}, [got |-> Ln.st])
     /\ ReportIf(Ln.st = "other", "Update", {"status"}, [got |-> Ln.st])
     /\ ReportIf(Ln.st = "ok" /\ (Ln.k = 0 \/ Ln.k > cfg.maxout), "Update", {"limit"}, [got |-> Ln.k])
     /\ ReportIf(Ln.st # "ok" /\ Ln.k # 0, "Update", {"pre"}, [got |-> Ln.k])
     /\ on' = IF Ln.st # "ok" THEN on ELSE Ln.i.e # "U"
     /\ stat' = [stat EXCEPT !.calls = @ + 1, !.upd = @ + 1, !.res = @ + Ln.k,
                             !.refused = @ + (IF Ln.st = "ok" THEN 0 ELSE 1)]
  /\ UNCHANGED <<cfg, name>>
Predict ==
  /\ Is("Q")
  /\ ReportIf(cfg # <<>> /\ on /\ (Ln.st = "ok") # (cfg.pred.kind # "off"), "Predict", {"status"}, [got |-> Ln.st])
  /\ ReportIf(cfg # <<>> /\ on /\ Ln.k > cfg.maxout, "Predict", {"limit"}, [got |-> Ln.k])
  /\ stat' = [stat EXCEPT !.calls = @ + 1, !.res = @ + Ln.k] /\ UNCHANGED <<cfg, on, name>>

End == Is("Z") /\ PrintT("DONE " \o ToJson(stat)) /\ UNCHANGED <<cfg, on, name, stat>>
Next == New \/ ResetP \/ Update \/ Predict \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
