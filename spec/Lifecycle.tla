------------------------------- MODULE Lifecycle ------------------------------
(* The public API of the stroke modeler as an abstract state machine.         *)
(*                                                                            *)
(* What the modeler will return depends only on                               *)
(*   cfg     the parameters in force (0: none), and                           *)
(*   stroke  the inputs accepted since the Down of the current stroke         *)
(*           (<<>>: no stroke in progress), as indices into hist;             *)
(* and for Restore on                                                         *)
(*   sav     the saved stroke.                                                *)
(* Everything else that ever happened (hist) is irrelevant: this is what      *)
(* properties C01-C05 say.  So each operation is recorded in hist with the    *)
(* statuses it may return (st), and with the parameters (c) and the canonical *)
(* history (b) to which the modeler must be equivalent when it is called: a   *)
(* new modeler that is configured with c, is given the inputs b and then the  *)
(* same operation must return the same status and bit-identical results.      *)
(* harness/life.cc replays hist into the code and compares.                   *)
(*                                                                            *)
(* Inputs are integers: the position in 1/64, the time in 2^-20 s (Tick is    *)
(* 1/64 s, the output period of all parameter sets), s selects stylus values. *)
(* Which values a class of inputs stands for depends on the length of the     *)
(* history and, if seed > 0, on pseudo-random numbers.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS NCfg,      \* parameter sets are numbered 1..NCfg
          NBad,      \* invalid parameter sets 1..NBad
          Limit,     \* Limit[k]: max_outputs_per_call of set k
          Off        \* the parameter sets with prediction disabled

NoSave == [ok |-> FALSE, stroke |-> <<>>]
Tick == 16384
StartAt(clk, seed) ==
  [cfg |-> 0, stroke |-> <<>>, sav |-> NoSave, clk |-> clk * Tick, seed |-> seed, hist |-> <<>>]

On(s) == s.stroke # <<>>
LastIn(s) == s.hist[s.stroke[Len(s.stroke)]].i

------------------------------------------------------------------------------
(* Inputs.                                                                    *)
NoInput == [e |-> "-", x |-> 0, y |-> 0, t |-> 0, s |-> 0, bad |-> ""]

Finite(i) == i.bad = ""
Known(i) == i.e \in {"D", "M", "U"}
(* Output periods since the last input, begun ones included.                  *)
Steps(s, i) == (i.t - LastIn(s).t + Tick - 1) \div Tick
TooFar(s, i) == Steps(s, i) > Limit[s.cfg]

Misplaced(s, i) == (i.e = "D" /\ On(s)) \/ (i.e \in {"M", "U"} /\ ~On(s))
BadInput(s, i) ==
  \/ ~Known(i) \/ ~Finite(i)
  \/ On(s) /\ (i = LastIn(s) \/ i.t < LastIn(s).t)
  \/ On(s) /\ i.e \in {"M", "U"} /\ TooFar(s, i)
Accepted(s, i) == s.cfg # 0 /\ ~Misplaced(s, i) /\ ~BadInput(s, i)
InputStatus(s, i) ==
  IF s.cfg = 0 THEN {"fp"}
  ELSE IF Accepted(s, i) THEN {"ok"}
  ELSE IF Misplaced(s, i) THEN {"fp", "ia"} ELSE {"ia"}

(* Stylus values are numbered: 0..NKnown-1 are known and ordinary, the others *)
(* up to NStylus-1 have unknown or extraordinary fields, those in NaNs a NaN. *)
NKnown == 10
NStylus == 24
NaNs == {14, 15, 16}
BadKinds == <<"xn", "xp", "xm", "yn", "yp", "ym", "tn", "tp", "tm">>

H(s, k) == LET n == Len(s.hist) IN (s.seed * 7919 + n * 6151 + k * 3571 + ((n * n * k) % 997) * 31) % 65521

(* The concrete input for a class of inputs.                                  *)
Concrete(s, k) ==
  LET n == Len(s.hist)
      rnd == s.seed > 0
      lst == IF On(s) THEN LastIn(s) ELSE [NoInput EXCEPT !.e = "M", !.t = s.clk]
      lim == IF s.cfg = 0 THEN 5 ELSE Limit[s.cfg]
      Known0 == IF rnd THEN H(s, 3) % NKnown ELSE n % 6
      Odd == NKnown + (IF rnd THEN H(s, 4) % (NStylus - NKnown) ELSE n % 4)
      AnyS == IF rnd THEN H(s, 5) % NStylus ELSE n % 6
      BadK == BadKinds[1 + ((IF rnd THEN H(s, 6) ELSE n) % 9)]
      X == IF rnd THEN H(s, 1) % 800 ELSE 16 * ((7 * n) % 13)
      Y == IF rnd THEN H(s, 2) % 700 ELSE 16 * ((5 * n) % 11)
      Abs(e, t) == [e |-> e, x |-> X, y |-> Y, t |-> t, s |-> Known0, bad |-> ""]
      \* dt output periods later, the last one not necessarily complete
      At(e, dt) == Abs(e, lst.t + dt * Tick - (IF rnd /\ dt > 0 THEN H(s, 7) % Tick ELSE 0))
      \* refused inputs have any stylus values
      Ref(i) == [i EXCEPT !.s = AnyS]
  IN CASE k = "D" -> At("D", 3)
       [] k = "Dback" -> At("D", 0 - 7)
       [] k = "Dpast" -> At("D", IF lst.t < 0 - 64000 * Tick THEN 6400 ELSE 0 - 6400)
       [] k = "Dfut" -> At("D", IF lst.t > 64000 * Tick THEN 0 - 6400 ELSE 6400)
       [] k = "Dunk" -> [At("D", 1) EXCEPT !.s = Odd]
       [] k = "Dbad" -> Ref([At("D", 1) EXCEPT !.bad = BadK])
       [] k = "X" -> Ref(At(IF n % 3 = 0 THEN "X" ELSE IF n % 3 = 1 THEN "Y" ELSE "Z", 1))
       [] k = "M1" -> At("M", 1)
       [] k = "M2" -> At("M", 2)
       [] k = "M4" -> At("M", 4)
       [] k = "Mtiny" -> Abs("M", lst.t + 1)
       [] k = "Mstill" -> [At("M", 1) EXCEPT !.x = lst.x, !.y = lst.y]
       [] k = "Msame" -> [Abs("M", lst.t) EXCEPT !.x = lst.x + 1 + (X % 64)]
       [] k = "Msty" -> [lst EXCEPT !.e = "M", !.s = ((lst.s + 1 + (IF rnd THEN H(s, 8) % (NKnown - 1) ELSE 0)) % NKnown)]
       [] k = "Munk" -> [At("M", 1) EXCEPT !.s = Odd]
       [] k = "Medge" -> At("M", lim)
       [] k = "Mover" -> Ref(At("M", lim + 1))
       [] k = "Mfar" -> [At("M", 30000) EXCEPT !.s = Odd]
       [] k = "Mback" -> Ref(At("M", 0 - 1))
       [] k = "Mback1" -> Ref(Abs("M", lst.t - 1))
       [] k = "Mpast" -> Ref(At("M", 0 - 6400))
       [] k = "Mbad" -> Ref([At("M", 1) EXCEPT !.bad = BadK])
       [] k = "dup" -> IF lst.s \in NaNs THEN At("M", 1) ELSE lst
       [] k = "U1" -> At("U", 1)
       [] k = "U3" -> At("U", 3)
       [] k = "Usame" -> [lst EXCEPT !.e = "U"]
       [] k = "Ujump" -> Abs("U", lst.t)
       [] k = "Utiny" -> Abs("U", lst.t + 1)
       [] k = "Uunk" -> [At("U", 1) EXCEPT !.s = Odd]
       [] k = "Uedge" -> At("U", lim)
       [] k = "Uover" -> Ref(At("U", lim + 1))
       [] k = "Ufar" -> [At("U", 30000) EXCEPT !.s = Odd]
       [] k = "Uback" -> Ref(At("U", 0 - 2))
       [] k = "Uback1" -> Ref(Abs("U", lst.t - 1))
       [] k = "Ubad" -> Ref([At("U", 1) EXCEPT !.bad = BadK])

------------------------------------------------------------------------------
(* Operations.  An op is <<"I", class>>, <<"P", k>>, <<"B", k>> (invalid      *)
(* parameters), <<"R">>, <<"Q">>, <<"S">> or <<"T">>.                         *)
Entry(s, o, a, i, st) == [o |-> o, a |-> a, i |-> i, st |-> SetToSeq(st), c |-> s.cfg, b |-> s.stroke]
Log(s, e) == [s EXCEPT !.hist = Append(@, e)]

DoInput(s, k) ==
  LET i == Concrete(s, k)
      r == Log(s, Entry(s, "I", 0, i, InputStatus(s, i)))
      n == Len(r.hist)
  IN IF ~Accepted(s, i) THEN r
     ELSE CASE i.e = "D" -> [r EXCEPT !.stroke = <<n>>, !.clk = i.t,
                                      \* a state saved during an earlier stroke is void
                                      !.sav = IF @.ok /\ @.stroke # <<>> THEN NoSave ELSE @]
            [] i.e = "M" -> [r EXCEPT !.stroke = Append(@, n), !.clk = i.t]
            [] i.e = "U" -> [r EXCEPT !.stroke = <<>>, !.clk = i.t]
DoResetP(s, k) == [Log(s, Entry(s, "P", k, NoInput, {"ok"})) EXCEPT !.cfg = k, !.stroke = <<>>, !.sav = NoSave]
DoResetBad(s, k) == Log(s, Entry(s, "B", k, NoInput, {"ia"}))
DoReset(s) ==
  IF s.cfg = 0 THEN Log(s, Entry(s, "R", 0, NoInput, {"fp"}))
  ELSE [Log(s, Entry(s, "R", 0, NoInput, {"ok"})) EXCEPT !.stroke = <<>>, !.sav = NoSave]
DoPredict(s) ==
  Log(s, Entry(s, "Q", 0, NoInput, IF s.cfg = 0 \/ ~On(s) \/ s.cfg \in Off THEN {"fp"} ELSE {"ok"}))
DoSave(s) == [Log(s, Entry(s, "S", 0, NoInput, {"ok"})) EXCEPT !.sav = [ok |-> TRUE, stroke |-> s.stroke]]
DoRestore(s) ==
  LET r == Log(s, Entry(s, "T", 0, NoInput, {"ok"})) IN
  IF s.sav.ok THEN [r EXCEPT !.stroke = s.sav.stroke] ELSE r

Do(s, op) ==
  CASE op[1] = "I" -> DoInput(s, op[2])
    [] op[1] = "P" -> DoResetP(s, op[2])
    [] op[1] = "B" -> DoResetBad(s, op[2])
    [] op[1] = "R" -> DoReset(s)
    [] op[1] = "Q" -> DoPredict(s)
    [] op[1] = "S" -> DoSave(s)
    [] op[1] = "T" -> DoRestore(s)

Run(s, ops) == FoldLeft(Do, s, ops)
===============================================================================
