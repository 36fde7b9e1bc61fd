--------------------------------- MODULE Kalman -------------------------------
(* Kalman prediction: one constant-jerk filter per axis with unit time step,  *)
(* a cubic connector from the tip to the estimate, a cubic extrapolation.     *)
EXTENDS Num

Sixth == DDiv(One, Six)
Id4 == << <<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Zero>>,
          <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, One>> >>
Trans == << <<One, One, Half, Sixth>>, <<Zero, One, One, Half>>,
            <<Zero, Zero, One, One>>, <<Zero, Zero, Zero, One>> >>
NoiseVec == <<Sixth, Half, One, One>>

DMulAdd(s, a, b) == DAdd(s, DMul(a, b))
RowCol(r, m, j) == DMulAdd(DMulAdd(DMulAdd(DMulAdd(Zero, r[1], m[1][j]), r[2], m[2][j]),
                                   r[3], m[3][j]), r[4], m[4][j])
RowMat(r, m) == <<RowCol(r, m, 1), RowCol(r, m, 2), RowCol(r, m, 3), RowCol(r, m, 4)>>
MatMul(a, b) == <<RowMat(a[1], b), RowMat(a[2], b), RowMat(a[3], b), RowMat(a[4], b)>>
Col(m, j) == <<m[1][j], m[2][j], m[3][j], m[4][j]>>
Transp(m) == <<Col(m, 1), Col(m, 2), Col(m, 3), Col(m, 4)>>
V4Op(Op(_, _), a, b) == <<Op(a[1], b[1]), Op(a[2], b[2]), Op(a[3], b[3]), Op(a[4], b[4])>>
V4Add(a, b) == V4Op(DAdd, a, b)
V4Sub(a, b) == V4Op(DSub, a, b)
V4Mul(a, k) == <<DMul(a[1], k), DMul(a[2], k), DMul(a[3], k), DMul(a[4], k)>>
V4Div(a, k) == <<DDiv(a[1], k), DDiv(a[2], k), DDiv(a[3], k), DDiv(a[4], k)>>
MAdd(a, b) == V4Op(V4Add, a, b)
MSub(a, b) == V4Op(V4Sub, a, b)
MScale(m, k) == <<V4Mul(m[1], k), V4Mul(m[2], k), V4Mul(m[3], k), V4Mul(m[4], k)>>
Outer(a, b) == <<V4Mul(b, a[1]), V4Mul(b, a[2]), V4Mul(b, a[3]), V4Mul(b, a[4])>>
MatVec(m, x) ==
  LET d(r) == DMulAdd(DMulAdd(DMulAdd(DMulAdd(Zero, x[1], r[1]), x[2], r[2]), x[3], r[3]), x[4], r[4])
  IN <<d(m[1]), d(m[2]), d(m[3]), d(m[4])>>

(* n: inputs received; x, y: state estimates; P: their common covariance      *)
(* (it does not depend on the observations); ts: remembered timestamps.       *)
KalInit == [n |-> 0, x |-> <<Zero, Zero, Zero, Zero>>, y |-> <<Zero, Zero, Zero, Zero>>,
            P |-> Id4, ts |-> <<>>, last |-> V0]

KalUpdate(c, s, p, t) ==
  LET ts1 == Append(s.ts, t)
      ts == IF Len(ts1) > c.times THEN Tail(ts1) ELSE ts1
  IN IF s.n = 0
     THEN [n |-> 1, x |-> <<p[1], Zero, Zero, Zero>>, y |-> <<p[2], Zero, Zero, Zero>>,
           P |-> Id4, ts |-> ts, last |-> p]
     ELSE
       LET x1 == MatVec(Trans, s.x)
           y1 == MatVec(Trans, s.y)
           P1 == MAdd(MatMul(MatMul(Trans, s.P), Transp(Trans)), MScale(Outer(NoiseVec, NoiseVec), c.pn))
           gain == V4Div(P1[1], DAdd(P1[1][1], c.mn))
           dx == DSub(p[1], x1[1])
           dy == DSub(p[2], y1[1])
           IKH == MSub(Id4, Outer(gain, <<One, Zero, Zero, Zero>>))
           P2 == MAdd(MatMul(MatMul(IKH, P1), Transp(IKH)), MScale(Outer(gain, gain), c.mn))
       IN [n |-> s.n + 1, x |-> V4Add(x1, V4Mul(gain, dx)), y |-> V4Add(y1, V4Mul(gain, dy)),
           P |-> P2, ts |-> ts, last |-> p]

KalVec(s, i) == <<FRnd(s.x[i]), FRnd(s.y[i])>>

(* The estimate [p, v, a, j], or <<>> if there is none.                       *)
KalEstimate(c, s) ==
  IF s.n < c.stable THEN <<>>
  ELSE LET dt == FDiv(FRnd(DSub(s.ts[Len(s.ts)], s.ts[1])), OfInt(Len(s.ts)))
           dt2 == FMul(dt, dt)
           dt3 == FMul(dt2, dt)
           v == VDiv(KalVec(s, 2), dt)
           a == VDiv(KalVec(s, 3), dt2)
           j == VDiv(KalVec(s, 4), dt3)
       IN IF ~VFin(v) \/ ~VFin(a) \/ ~VFin(j) THEN <<>>
          ELSE [p |-> KalVec(s, 1), v |-> v, a |-> VMul(c.aw, a), j |-> VMul(c.jw, j)]

Cubic(e, dtime) ==
  LET dt == FRnd(dtime)
      dt2 == FMul(dt, dt)
      dt3 == FMul(dt2, dt)
  IN [p |-> VAdd(VAdd(VAdd(e.p, VMul(dt, e.v)), VDiv(VMul(dt2, e.a), Two)), VDiv(VMul(dt3, e.j), Six)),
      v |-> VAdd(VAdd(e.v, VMul(dt, e.a)), VDiv(VMul(dt2, e.j), Two)),
      a |-> VAdd(e.a, VMul(dt, e.j)),
      j |-> e.j]

(* The connector takes as long as the distance would at the larger of the two *)
(* end speeds (at least the minimum catch-up velocity), in whole samples.     *)
FloatMax == <<1206910975, -536870912>>
ConnectorLen(c, maxout, sdt, tip, e) ==
  LET dist == NMin(Dist(tip.p, e.p), FloatMax)
      vel == NMax(NMax(Mag(tip.v), Mag(e.v)), c.vel)
      dur == FDiv(dist, vel)
  IN ToInt(Fmin(Fmax(Ceil(FRnd(DDiv(dur, sdt))), One), OfInt(maxout)))

Connector(tip, e, sdt, n) ==
  LET durD == DMul(OfInt(n), sdt)
      dur == FRnd(durD)
      a == VAdd(VSub(VMul(Two, tip.p), VMul(Two, e.p)), VMul(dur, VAdd(tip.v, e.v)))
      b == VSub(VAdd(VMul(NNeg(Three), tip.p), VMul(Three, e.p)),
                VMul(dur, VAdd(VMul(Two, tip.v), e.v)))
      k == VMul(dur, tip.v)
      At(i) ==
        LET r == FDiv(OfInt(i), OfInt(n))
            r2 == FMul(r, r)
            r3 == FMul(r2, r)
        IN [p |-> VAdd(VAdd(VAdd(VMul(r3, a), VMul(r2, b)), VMul(r, k)), tip.p),
            v |-> VDiv(VAdd(VAdd(VMul(r2, VMul(Three, a)), VMul(r, VMul(Two, b))), k), dur),
            a |-> VDiv(VAdd(VMul(r, VMul(Six, a)), VMul(Two, b)), FMul(dur, dur)),
            t |-> DAdd(tip.t, DMul(durD, r))]
  IN FoldLeft(LAMBDA out, i : Append(out, At(i)), <<>>, Idx(n))

(* Number of samples of the extrapolation: the prediction interval times the  *)
(* product of the four confidence factors, rounded up.                        *)
Confidence(c, s, e) ==
  LET samples == NMin(One, FDiv(OfInt(s.n), OfInt(c.des)))
      error == FSub(One, Normalize01(Zero, c.dist, Dist(s.last, e.p)))
      end == Cubic(e, c.int)
      fint == FRnd(c.int)
      speed == FDiv(Dist(e.p, end.p), fint)
      moving == Normalize01(c.vmin, c.vmax, speed)
      dev == Dist(end.p, VAdd(e.p, VMul(fint, e.v)))
      linear == Interp(c.base, One, FSub(One, Normalize01(Zero, c.dev, dev)))
  IN FMul(FMul(FMul(samples, error), moving), linear)

ExtendLen(c, rate, maxout, s, e) ==
  ToInt(Fmin(Fmax(Zero, Ceil(FMul(FRnd(DMul(c.int, rate)), Confidence(c, s, e)))), OfInt(maxout)))

KalPredict(c, rate, maxout, s, tip) ==
  LET e == KalEstimate(c, s) IN
  IF e = <<>> THEN <<>>
  ELSE LET sdt == DDiv(One, rate)
           n1 == ConnectorLen(c, maxout, sdt, tip, e)
           con == Connector(tip, e, sdt, n1)
           n2 == ExtendLen(c, rate, maxout, s, e)
           room == maxout - n1
           ext == FoldLeft(LAMBDA acc, i :
                      LET nx == Cubic(acc.e, sdt)
                          t == DAdd(acc.t, sdt)
                      IN [e |-> nx, t |-> t,
                          out |-> Append(acc.out, [p |-> nx.p, v |-> nx.v, a |-> nx.a, t |-> t])],
                    [e |-> e, t |-> con[Len(con)].t, out |-> <<>>],
                    Idx(IF n2 < room THEN n2 ELSE room))
       IN con \o ext.out
===============================================================================
