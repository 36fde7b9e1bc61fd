-------------------------------- MODULE LifeGen -------------------------------
(* Generates behaviours of Lifecycle for replay into the code: all of them up *)
(* to a length after a given prefix (breadth-first), or long random ones      *)
(* (simulation).  Checks on the way that the specification has the properties *)
(* it is meant to express.                                                    *)
EXTENDS Lifecycle, IOUtils

(* The parameter sets of harness/life.cc, in the same order.                  *)
MCLimit == <<6, 250, 9, 40, 6, 30, 250, 12>>
MCOff == {3}

J == JsonDeserialize(IOEnv.VF_GEN)     \* the task: [prefix, ops, len, suffix, clk, seed]
PrefixOps == J.prefix
Ops == ToSet(J.ops)
Weighted == J.ops
MaxLen == J.len

VARIABLES st, done
vars == <<st, done>>

Init == st = Run(StartAt(J.clk, J.seed), PrefixOps) /\ done = FALSE
Clocks == <<1, 0, -64, 64000, -64000, 777>>
InitRandom == /\ \E k \in 1..200 : st = Run(StartAt(Clocks[1 + (k % 6)], J.seed + k), PrefixOps)
              /\ done = FALSE

Emit == /\ Len(st.hist) >= MaxLen + Len(PrefixOps) /\ ~done
        /\ PrintT("SEQ " \o ToJson(Run(st, J.suffix).hist))
        /\ done' = TRUE /\ UNCHANGED st

Step == /\ Len(st.hist) < MaxLen + Len(PrefixOps)
        /\ \E op \in Ops : st' = Do(st, op)
        /\ UNCHANGED done
RandomStep ==
  /\ Len(st.hist) < MaxLen + Len(PrefixOps)
  /\ st' = Do(st, Weighted[RandomElement(1..Len(Weighted))])
  /\ UNCHANGED done

Spec == Init /\ [][Step \/ Emit]_vars
SpecRandom == InitRandom /\ [][RandomStep \/ Emit]_vars

------------------------------------------------------------------------------
(* What the specification itself must satisfy.                                *)
E == st.hist[Len(st.hist)]                       \* the last operation
NewE == Len(st'.hist) > Len(st.hist)
Refused(e) == "ok" \notin ToSet(e.st)

TypeOK == /\ st.cfg \in 0..NCfg
          /\ \A k \in 1..Len(st.stroke) : st.stroke[k] \in 1..Len(st.hist)
(* The current stroke is a Down followed by Moves, in order, none repeated,   *)
(* times not decreasing, no step too long.                                    *)
StrokeWellFormed ==
  LET i(k) == st.hist[st.stroke[k]].i IN
  On(st) => /\ st.cfg # 0
            /\ i(1).e = "D"
            /\ \A k \in 2..Len(st.stroke) : /\ i(k).e = "M" /\ st.stroke[k - 1] < st.stroke[k]
                                            /\ i(k).t >= i(k - 1).t /\ i(k) # i(k - 1)
                                            /\ i(k).t - i(k - 1).t <= Limit[st.cfg] * Tick
(* A saved stroke is one that could be resumed: same beginning as the current *)
(* one, unless there is none now.                                             *)
SavedApplies == st.sav.ok /\ st.sav.stroke # <<>> /\ On(st) => st.stroke[1] = st.sav.stroke[1]

(* Refused calls and predictions change nothing; only Up, Reset and Restore   *)
(* end a stroke.                                                              *)
RefusedChangesNothing ==
  [][NewE /\ (Refused(E') \/ E'.o \in {"Q", "S"}) => st'.cfg = st.cfg /\ st'.stroke = st.stroke
     /\ (E'.o = "S" \/ st'.sav = st.sav)]_vars
OnlyUpOrResetEnds ==
  [][NewE /\ On(st) /\ ~On(st') => E'.o \in {"P", "R", "T"} \/ (E'.o = "I" /\ E'.i.e = "U")]_vars
RestoreRestores == [][NewE /\ E'.o = "T" /\ st.sav.ok => st'.stroke = st.sav.stroke /\ st'.sav = st.sav]_vars
===============================================================================
