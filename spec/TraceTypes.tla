------------------------------- MODULE TraceTypes -----------------------------
(* Checks a log of harness/types.cc against module ValueTypes.                *)
EXTENDS ValueTypes, TLC, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_LOG)
VARIABLES l, name, stat
vars == <<l, name, stat>>
Init == l = 1 /\ name = "" /\ stat = [calls |-> 0, vec |-> 0, time |-> 0, pairs |-> 0]
Ln == Trace[l]
Is(o) == l <= Len(Trace) /\ Ln.o = o /\ l' = l + 1
(* bad: the names of the statements that do not hold.                         *)
Report(call, checks) ==
  LET bad == {k \in DOMAIN checks : ~checks[k]} IN
  IF bad # {} THEN PrintT("MISMATCH " \o ToJson([n |-> name, l |-> l, call |-> call, f |-> SetToSeq(bad), w |-> Ln])) ELSE TRUE

New == Is("N") /\ name' = Ln.n /\ UNCHANGED stat
Vectors ==
  /\ Is("V")
  /\ LET a == Ln.a  b == Ln.b  s == Ln.s IN
     Report("Vec2",
       [add |-> VFEq(Ln.add, Add2(a, b)), sub |-> VFEq(Ln.sub, Sub2(a, b)),
        mul |-> VFEq(Ln.mul, Mul2(s, a)), mulr |-> VSame(Ln.mulr, Ln.mul), div |-> VFEq(Ln.div, Div2(a, s)),
        cadd |-> VSame(Ln.cadd, Ln.add), csub |-> VSame(Ln.csub, Ln.sub),
        cmul |-> VSame(Ln.cmul, Ln.mul), cdiv |-> VSame(Ln.cdiv, Ln.div),
        cself |-> VFEq(Ln.cself, Add2(a, a)), cselfsub |-> VFEq(Ln.cselfsub, Sub2(a, a)),
        cselfmul |-> VFEq(Ln.cselfmul, Mul2(a[1], a)), cselfdiv |-> VFEq(Ln.cselfdiv, Div2(a, a[1])),
        ref |-> Ln.ref,
        eq |-> Ln.eq = VNumEq(a, b), ne |-> Ln.ne = ~VNumEq(a, b), eqs |-> Ln.eqs = VNumEq(a, a),
        dot |-> DotOk(Ln.dot, a, b), mag |-> Rel(20, Ln.mag, Length2(a)), fin |-> Ln.fin = VFinite(a),
        angle |-> AngleOk(Ln.ang, a, b), angle2 |-> AngleOk(Ln.gna, b, a),
        symmetric |-> Ln.ang.st = Ln.gna.st /\ Close(Ln.ang.v, Ln.gna.v, AngleTol),
        stream |-> Ln.stream /\ Ln.absl, shows |-> Shows(Ln.nums, a[1]) /\ Shows(Ln.nums, a[2])
                                         /\ Len(Ln.nums) >= 2])
  /\ stat' = [stat EXCEPT !.calls = @ + 26, !.vec = @ + 1] /\ UNCHANGED name
Times ==
  /\ Is("D")
  /\ LET a == Ln.a  b == Ln.b  s == Ln.s
         plus == FPDAdd(0, a, b)  minus == FPDSub(0, a, b)  times == FPDMul(0, a, s)  over == FPDDiv(0, a, s)
     IN Report("Time",
       [val |-> Same(Ln.val, a) /\ Same(Ln.tval, a),
        add |-> DEq(Ln.add, plus), sub |-> DEq(Ln.sub, minus), mul |-> DEq(Ln.mul, times), div |-> DEq(Ln.div, over),
        mulr |-> Same(Ln.mulr, Ln.mul),
        cadd |-> Same(Ln.cadd, Ln.add), csub |-> Same(Ln.csub, Ln.sub), cmul |-> Same(Ln.cmul, Ln.mul),
        cdiv |-> Same(Ln.cdiv, Ln.div), cself |-> DEq(Ln.cself, FPDAdd(0, a, a)),
        tadd |-> DEq(Ln.tadd, plus), taddr |-> Same(Ln.taddr, Ln.tadd), tsub |-> DEq(Ln.tsub, minus), tdiff |-> DEq(Ln.tdiff, minus),
        ctadd |-> Same(Ln.ctadd, Ln.tadd), ctsub |-> Same(Ln.ctsub, Ln.tsub), ref |-> Ln.ref,
        dcmp |-> Cmp(Ln.dc, a, b), tcmp |-> Cmp(Ln.tc, a, b),
        dfmt |-> Ln.df.stream /\ Ln.df.absl /\ Shows(Ln.df.nums, a), tfmt |-> Ln.tf.stream /\ Ln.tf.absl /\ Shows(Ln.tf.nums, a)])
  /\ stat' = [stat EXCEPT !.calls = @ + 31, !.time = @ + 1] /\ UNCHANGED name
Inputs ==
  /\ Is("E")
  /\ LET x == Ln.x  y == Ln.y  lab == Ln.lab
         Num(v) == Shows(Ln.nums, v)
     IN Report("Input",
       [eq |-> Ln.eq = InputEq(x, y), ne |-> Ln.ne = ~InputEq(x, y),
        valid |-> Ln.val = (IF InputValid(x) THEN "ok" ELSE "ia"),
        stream |-> Ln.stream /\ Ln.absl /\ Ln.es, event |-> Ln.ein /\ (Ln.esame = (x.e = y.e)),
        known |-> (x.e \in 0..2 => Ln.ef = <<"Down", "Move", "Up">>[x.e + 1]),
        shows |-> /\ Num(x.p[1]) /\ Num(x.p[2]) /\ Num(x.t) /\ Num(x.pr) /\ Num(x.ti) /\ Num(x.or),
        labels |-> /\ Labelled(lab, "pos", x.p) /\ Labelled(lab, "time", <<x.t>>)
                   /\ Labelled(lab, "pressure", <<x.pr>>) /\ Labelled(lab, "tilt", <<x.ti>>) /\ Labelled(lab, "orientation", <<x.or>>)])
  /\ stat' = [stat EXCEPT !.calls = @ + 8, !.pairs = @ + 1] /\ UNCHANGED name
Results ==
  /\ Is("R")
  /\ LET x == Ln.x  y == Ln.y  lab == Ln.lab
         Num(v) == Shows(Ln.nums, v)
     IN Report("Result",
       [eq |-> Ln.eq = ResultEq(x, y), ne |-> Ln.ne = ~ResultEq(x, y), stream |-> Ln.stream /\ Ln.absl,
        shows |-> /\ Num(x.p[1]) /\ Num(x.p[2]) /\ Num(x.v[1]) /\ Num(x.v[2]) /\ Num(x.a[1]) /\ Num(x.a[2])
                  /\ Num(x.t) /\ Num(x.pr) /\ Num(x.ti) /\ Num(x.or),
        labels |-> /\ Labelled(lab, "pos", x.p) /\ Labelled(lab, "vel", x.v) /\ Labelled(lab, "acc", x.a)
                   /\ Labelled(lab, "time", <<x.t>>) /\ Labelled(lab, "pressure", <<x.pr>>)
                   /\ Labelled(lab, "tilt", <<x.ti>>) /\ Labelled(lab, "orientation", <<x.or>>)])
  /\ stat' = [stat EXCEPT !.calls = @ + 5, !.pairs = @ + 1] /\ UNCHANGED name
(* Unless told otherwise the stylus is unknown and everything else is zero.   *)
Defaults ==
  /\ Is("K")
  /\ LET zero == <<Z0, Z0>>
         Unk(r) == Same(r.pr, MinusOne1) /\ Same(r.ti, MinusOne1) /\ Same(r.or, MinusOne1)
     IN Report("Defaults",
          [input |-> VSame(Ln.x.p, zero) /\ Same(Ln.x.t, Z0) /\ Unk(Ln.x),
           result |-> VSame(Ln.y.p, zero) /\ VSame(Ln.y.v, zero) /\ VSame(Ln.y.a, zero) /\ Same(Ln.y.t, Z0) /\ Unk(Ln.y),
           values |-> VSame(Ln.vec, zero) /\ Same(Ln.dur, Z0) /\ Same(Ln.time, Z0)])
  /\ stat' = [stat EXCEPT !.calls = @ + 5] /\ UNCHANGED name
End == Is("Z") /\ PrintT("DONE " \o ToJson(stat)) /\ UNCHANGED <<name, stat>>
Next == New \/ Vectors \/ Times \/ Inputs \/ Results \/ Defaults \/ End
Spec == Init /\ [][Next]_vars
===============================================================================
