-------------------------------- MODULE TraceTree -----------------------------
(* Checks a log of public calls on real stroke modelers (harness/trace.cc)    *)
(* against the claim that a modeler is a deterministic function of very       *)
(* little: the parameters in force and the inputs accepted since the Down of  *)
(* the current stroke.                                                        *)
(*                                                                            *)
(* The possible histories form a tree.  A node is a pair (parameters, inputs  *)
(* accepted in the current stroke); its edges are inputs, each with the       *)
(* status and results that belong to it.  The log describes many walks, by    *)
(* several modelers (in several processes), in this one tree:                 *)
(*   - a refused call stays where it is, and so does a prediction;            *)
(*   - an accepted Up leads back to the node of the parameters alone, and so  *)
(*     does Reset();                                                          *)
(*   - Save marks the node, Restore returns to the marked one, unless the     *)
(*     mark is void: a Reset removes it, and a Down removes it if it was made *)
(*     inside a stroke.                                                       *)
(* Whatever is returned at an edge the first time must be returned, bit for   *)
(* bit, every time.  No knowledge of what the results are is needed, so       *)
(* nothing here depends on rounding.                                          *)
EXTENDS TLC, Sequences, SequencesExt, FiniteSets, Integers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_LOG)

VARIABLES l,      \* next line of the log
          tree,   \* nodes: [kids: lines and targets of edges, pred: line of the first prediction]
          roots,  \* [ln, to]: parameter sets seen and their nodes (0: refused)
          cur,    \* where the modeler is; 1 is the node without parameters
          root,   \* the node of the parameters in force, 1 if none
          sv,     \* the marked node, 0 if none
          name, stat
vars == <<l, tree, roots, cur, root, sv, name, stat>>

Leaf == [kids |-> <<>>, pred |-> 0]
Stat0 == [calls |-> 0, edges |-> 0, again |-> 0, preds |-> 0, predagain |-> 0, refused |-> 0, scen |-> 0, walks |-> 0]
Init == /\ l = 1 /\ tree = <<Leaf>> /\ roots = <<>> /\ cur = 1 /\ root = 1 /\ sv = 0
        /\ name = "" /\ stat = Stat0

Ln == Trace[l]
Is(o) == l <= Len(Trace) /\ Ln.o = o /\ l' = l + 1
Count(f) == stat' = [stat EXCEPT ![f] = @ + 1, !.calls = @ + 1]
ReportIf(c, call, f, w) ==
  IF c THEN PrintT("MISMATCH " \o ToJson([n |-> name, l |-> l, call |-> call, f |-> <<f>>, w |-> w])) ELSE TRUE

Idle == cur = root
FirstDiff(a, b) == [status |-> <<a.st, b.st>>, count |-> <<a.k, b.k>>,
                    first |-> SelectInSeq([j \in 1..(IF Len(a.r) < Len(b.r) THEN Len(a.r) ELSE Len(b.r)) |-> a.r[j] # b.r[j]],
                                          LAMBDA x : x)]
Same(a, b) == a.st = b.st /\ a.k = b.k /\ a.r = b.r

(* A new group of walks: a new tree.                                          *)
New == /\ Is("N") /\ tree' = <<Leaf>> /\ roots' = <<>> /\ cur' = 1 /\ root' = 1 /\ sv' = 0
       /\ name' = Ln.n /\ stat' = [stat EXCEPT !.scen = @ + 1, !.walks = @ + 1]
(* A new modeler in the same tree.                                            *)
Walk == /\ Is("W") /\ cur' = 1 /\ root' = 1 /\ sv' = 0
        /\ name' = Ln.n /\ stat' = [stat EXCEPT !.walks = @ + 1] /\ UNCHANGED <<tree, roots>>

ResetP ==
  /\ Is("P")
  /\ \E k \in {SelectInSeq(roots, LAMBDA x : Trace[x.ln].c = Ln.c)} :
     LET ok == Ln.st = "ok"
         new == k = 0
         to == IF ~new THEN roots[k].to ELSE IF ok THEN Len(tree) + 1 ELSE 0
     IN /\ ReportIf(~new /\ Trace[roots[k].ln].st # Ln.st, "ResetP", "status", [got |-> Ln.st])
        /\ roots' = IF new THEN Append(roots, [ln |-> l, to |-> to]) ELSE roots
        /\ tree' = IF new /\ ok THEN Append(tree, Leaf) ELSE tree
        /\ IF to # 0 THEN cur' = to /\ root' = to /\ sv' = 0 ELSE UNCHANGED <<cur, root, sv>>
        /\ Count(IF ok THEN "edges" ELSE "refused")
  /\ UNCHANGED name

Reset0 ==
  /\ Is("R")
  /\ ReportIf(Ln.st # (IF root = 1 THEN "fp" ELSE "ok"), "Reset", "status", [got |-> Ln.st])
  /\ cur' = root /\ sv' = (IF root = 1 THEN sv ELSE 0)
  /\ Count("edges") /\ UNCHANGED <<tree, roots, root, name>>

Update ==
  /\ Is("I")
  /\ \E k \in {SelectInSeq(tree[cur].kids, LAMBDA x : Trace[x.ln].i = Ln.i)} :
     LET ok == Ln.st = "ok"
         new == k = 0
         old == tree[cur].kids[k]
         to == IF ~new THEN old.to
               ELSE IF ~ok THEN cur
               ELSE IF Ln.i.e = "U" THEN root ELSE Len(tree) + 1
         grow == IF to = Len(tree) + 1 THEN <<Leaf>> ELSE <<>>
     IN /\ ReportIf(~Ln.pre, "Update", "pre", [got |-> Ln.st])
        /\ ReportIf(root = 1 /\ Ln.st # "fp", "Update", "status", [got |-> Ln.st])
        /\ ReportIf(~new /\ ~Same(Trace[old.ln], Ln), "Update", "differs",
                    [e |-> Ln.i.e, line |-> old.ln, how |-> FirstDiff(Trace[old.ln], Ln)])
        /\ tree' = (IF new THEN [tree EXCEPT ![cur].kids = Append(@, [ln |-> l, to |-> to])] ELSE tree) \o grow
        /\ cur' = to
        /\ sv' = IF ok /\ Ln.i.e = "D" /\ sv # 0 /\ sv # root THEN 0 ELSE sv
        /\ Count(IF ~new THEN "again" ELSE IF ok THEN "edges" ELSE "refused")
  /\ UNCHANGED <<roots, root, name>>

Predict ==
  /\ Is("Q")
  /\ LET p == tree[cur].pred IN
     /\ ReportIf(~Ln.pre, "Predict", "pre", [got |-> Ln.st])
     /\ ReportIf(Idle /\ Ln.st # "fp", "Predict", "status", [got |-> Ln.st])
     /\ ReportIf(p # 0 /\ ~Same(Trace[p], Ln), "Predict", "differs", [line |-> p, how |-> FirstDiff(Trace[p], Ln)])
     /\ tree' = IF p = 0 THEN [tree EXCEPT ![cur].pred = l] ELSE tree
     /\ Count(IF p = 0 THEN "preds" ELSE "predagain")
  /\ UNCHANGED <<roots, cur, root, sv, name>>

Save == Is("S") /\ sv' = cur /\ Count("edges") /\ UNCHANGED <<tree, roots, cur, root, name>>
Restore == /\ Is("T") /\ cur' = (IF sv = 0 THEN cur ELSE sv)
           /\ Count("edges") /\ UNCHANGED <<tree, roots, root, sv, name>>

End == Is("Z") /\ PrintT("DONE " \o ToJson(stat)) /\ UNCHANGED <<tree, roots, cur, root, sv, name, stat>>

Next == New \/ Walk \/ ResetP \/ Reset0 \/ Update \/ Predict \/ Save \/ Restore \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
