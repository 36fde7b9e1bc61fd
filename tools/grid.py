"""Exhaustive exploration of Modeler.tla on small grids (Grid.tla), and the scenarios that replay its behaviours.

A task: parameters, Downs and an alphabet of inputs [e, x, y, dt, pressure, tilt, orientation, relative?]."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import struct
import gen
import vf

T = 1 / 64


def fp(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", float(x)))
    return [hi, lo]


def f32(x):
    return struct.unpack("f", struct.pack("f", float(x)))[0]


def inp(a, rel=False):
    e, x, y, t, pr, ti, o = a
    d = {"e": e, "p": [fp(f32(x)), fp(f32(y))], "pr": fp(f32(pr)), "ti": fp(f32(ti)), "or": fp(f32(o))}
    return d, t


def base(**over):
    """Exact arithmetic: the tip lands on the anchor in one step of 1/64 s."""
    p = gen.base(64, **{"wob.on": 0, "M": T * T, "K": 64.0, "stop": 2.0 ** -6, "iters": 6, "maxout": 40})
    p.update(over)
    return p


LAG = {"M": 4 * T * T, "K": 16.0}          # the tip lags behind
S = [(.25, .5, 1.0), (.75, .25, 3.0), (.5, 1.0, 6.0), (0.0, 0.0, .25), (1.0, 1.25, 4.5)]


def moves(pts, dts, sty=S, es="M", rel=False):
    out = []
    k = 0
    for e in es:
        for (x, y) in pts:
            for d in dts:
                out.append([e, float(x), float(y), d * T, *sty[k % len(sty)], rel])
                k += 1
    return out


def task(p, alpha, n, downs=None):
    return {"p": p, "alpha": alpha, "len": n, "downs": downs or [["D", 0.0, 0.0, 1.0, *S[0]]]}


def tasks(prop):
    UP = [["U", 1.0, 0.0, T, .5, .5, .5, False]]
    L4 = [(1, 0), (0, 1), (2, 0), (0, 0)]
    out = []
    if prop == "C06":
        A = moves([(1, 0), (0, 1)], [0, .5, 1, 1 + 2 ** -10, 3]) + moves([(1, 1)], [0, .25, 2], es="U")
        out += [task(base(**LAG), A, 4), task(base(**LAG, angle=.5, maxout=100), A, 3),
                task(base(rate=1.0, M=4.0, K=.25), [[*a[:3], a[3] * 64, *a[4:]] for a in A], 3)]
    elif prop == "C07":
        for mo in (1, 2, 3, 5):
            A = moves([(1, 0), (0, 2)], [0, 1, mo, mo + 2 ** -10, mo + 1]) + moves([(3, 0)], [0, 1, mo, mo + 2 ** -10], es="U")
            out.append(task(base(**LAG, maxout=mo, stop=2.0 ** -12, iters=9), A, 3))
        out.append(task(base(**LAG, maxout=3, angle=.5), moves([(1, 0), (-1, 0), (0, 1)], [0, 1, 3]) + UP, 4))
    elif prop == "C08":
        A = moves(L4, [0, 1, 2.5]) + moves([(1, 1), (-1, 0)], [0, 1, 3], es="U")
        out += [task(base(**LAG), A, 3), task(base(M=T * T * 2, K=8.0), A, 3),
                task(base(**LAG, **{"wob.on": 1, "wob.timeout": 2 * T, "wob.floor": 16.0, "wob.ceil": 128.0}), A, 3)]
    elif prop == "C09":
        for m, k, stop, it in ((1, 16, .5, 6), (2, 8, .25, 8), (.75, 4, .125, 12), (4, 16, .5, 20), (2, 1, 1.0, 9), (8, 32, 2.0, 5)):
            A = moves([(1, 0), (2, 0)], [1, 2]) + moves([(4, 0), (1, 0), (0, 4), (-2, 0), (3, 4), (2, 2)], [0, 1], es="U")
            out.append(task(base(M=m * T * T, K=float(k), stop=stop, iters=it), A, 3))
    elif prop == "C10":
        A = moves([(1, 0), (2, 0), (1, 1), (0, 0)], [0, 1, 2]) + UP
        for w, fl, ce in ((1, 0, 64), (2, 64, 64), (2, 32, 96), (3, 1000, 2000), (0, 0, 1000)):
            out.append(task(base(**{"wob.on": 1, "wob.timeout": w * T, "wob.floor": float(fl), "wob.ceil": float(ce)}), A, 4))
    elif prop == "C11":
        A = moves([(1, 0), (-1, 0), (0, 1), (0, 0)], [1], rel=True) + moves([(1, 0)], [0, 2], rel=True) + moves([(0, 0)], [1], es="U", rel=True)
        for mx in (1, 2, 3, 10):
            out.append(task(base(**{"sty.max": mx}), A, 5 if mx > 2 else 4))
        out.append(task(base(**LAG, **{"sty.max": 3}), A, 4))
    elif prop == "C12":
        K = [(-1.0, .5, 1.0), (.5, -1.0, 1.0), (.5, .5, -1.0), (.5, .25, 2.0), (-1.0, -1.0, -1.0), (-.5, .75, -2.0)]
        A = [["M", 1.0, 0.0, T, *k, True] for k in K] + [["U", 0.0, 1.0, T, *k, True] for k in (K[0], K[3])]
        D = [["D", 0.0, 0.0, 1.0, *k] for k in K]
        out += [task(base(**LAG), A, 4, D), task(base(**LAG, **{"sty.proj": 1, "sty.min": 2, "sty.dur": 1.5 * T}), A, 3, D)]
    elif prop == "C13":
        A = moves([(1, 0), (0, 1), (-1, 0), (1, 1), (0, 0)], [1], rel=True) + moves([(1, 0)], [0, 2], rel=True) + moves([(0, 0), (0, 1)], [1], es="U", rel=True)
        for mn, du in ((1, 1), (2, 2), (3, 1.5), (2, 4)):
            out.append(task(base(**LAG, **{"sty.proj": 1, "sty.min": mn, "sty.dur": du * T}), A, 4))
        out.append(task(base(**{"sty.proj": 1, "sty.min": 3, "sty.dur": 2 * T}), A, 4))
    elif prop == "C14":
        A = moves([(1, 0), (0, 1), (3, 0), (0, 0)], [1], rel=True) + moves([(1, 0)], [0, 2], rel=True) + moves([(0, 1)], [1], es="U", rel=True)
        for n, w, lo, hi in ((1, 1, 0, 128), (2, 2, 32, 96), (3, 1, 64, 64), (2, 3, 0, 32)):
            out.append(task(base(**LAG, **{"sty.proj": 1, "sty.min": 2, "sty.dur": 2 * T, "loop.on": 1, "loop.lo": float(lo),
                                           "loop.hi": float(hi), "loop.slo": 1.0, "loop.shi": .25, "loop.win": w * T, "loop.n": n}), A, 4))
    elif prop == "C15":
        A = moves([(1, 0), (0, 1), (2, 2), (0, 0)], [0, 1, 2]) + moves([(1, 0)], [1], es="U")
        for m, k, stop, it in ((1, 16, .5, 6), (2, 8, .25, 8), (4, 16, .125, 20)):
            out.append(task(base(M=m * T * T, K=float(k), stop=stop, iters=it), A, 4))
    elif prop == "C16":
        A = moves([(1, 0), (0, 1), (2, 0)], [1, 2], rel=True) + moves([(0, 0)], [0, 1], rel=True) + moves([(1, 0)], [1], es="U", rel=True)
        for st, tm, des, iv in ((1, 1, 1, 4), (2, 2, 4, 4), (3, 3, 2, 8), (2, 5, 1, .5)):
            out.append(task(base(**LAG, pred="kal", **{"k.pn": .25, "k.mn": .5, "k.stable": st, "k.times": tm, "k.vel": 16.0, "k.int": iv * T,
                                                       "k.des": des, "k.dist": 4.0, "k.vmin": 0.0, "k.vmax": 64.0, "k.dev": 8.0, "k.base": .5}), A, 4))
    return out


def params_json(exe, work, ps):
    """The parameters as the driver logs them."""
    sp, lp = os.path.join(work, "gp.txt"), os.path.join(work, "gp.ndjson")
    vf.write_file(sp, "".join(vf.Scenario(f"p{i}", [gen.pline(p)]).text() for i, p in enumerate(ps)))
    vf.run_prog(exe, [sp, lp])
    with open(lp) as f:
        rows = [json.loads(x) for x in f]
    rows = [r for r in rows if r["o"] == "P"]
    if len(rows) != len(ps):
        raise vf.MachineryError("the driver did not log the parameters of the grids")
    return [r["c"] for r in rows]


def explore(exe, prop, depth=0, heap="3g"):
    """Runs TLC on all grids of the property. Returns (scenarios' behaviours per task, stats)."""
    ts = tasks(prop)
    work = vf.scratch()
    try:
        cs = params_json(exe, work, [t["p"] for t in ts])

        def one(a):
            k, t = a
            downs = []
            for d in t["downs"]:
                i, tm = inp(d)
                downs.append({**i, "t": fp(tm)})
            alpha = []
            for x in t["alpha"]:
                i, dt = inp(x[:7])
                alpha.append({**i, "dt": fp(dt), "rel": bool(x[7])})
            gp = os.path.join(work, f"grid{k}.json")
            with open(gp, "w") as f:
                json.dump({"c": cs[k], "downs": downs, "alpha": alpha, "len": t["len"] + depth}, f)
            r = vf.run_tlc("Grid", env={"VF_GRID": gp}, heap=heap, timeout=800)
            if not r.ok or r.violated:
                raise vf.MachineryError(f"TLC reports an error in Grid ({prop}, task {k}):\n" + r.out[-3000:])
            return [m for tag, m in r.messages if tag == "SEQ"], r.distinct, r.generated

        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            res = list(ex.map(one, list(enumerate(ts))))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return ts, [r[0] for r in res], {"grid_states": sum(r[1] for r in res), "grid_transitions": sum(r[2] for r in res),
                                     "grid_behaviours": sum(len(r[0]) for r in res), "grids": len(ts)}


def scenarios(exe, prop, seed, limit=None, depth=0, chunk=40):
    """Scenarios that replay the behaviours of the grids (at most `limit` of them), and statistics."""
    ts, seqs, st = explore(exe, prop, depth)
    g = random.Random(f"grid/{prop}/{seed}")
    out, n = [], 0
    for k, (t, hs) in enumerate(zip(ts, seqs)):
        hs = sorted(hs)
        if limit and len(hs) > limit // len(ts):
            hs = g.sample(hs, limit // len(ts))
        for c in range(0, len(hs), chunk):
            L = [gen.pline(t["p"])]
            for h in hs[c:c + chunk]:
                d = t["downs"][h[0] - 1]
                L.append(gen.iline(*d))
                x, y, tm = d[1:4]
                ask = prop in ("C15", "C16", "C14") or g.random() < .15
                if ask:
                    L.append("Q")
                for j in h[1:]:
                    e, ax, ay, dt, pr, ti, o, rel = t["alpha"][j - 1]
                    nx, ny, nt = (x + ax, y + ay, tm + dt) if rel else (ax, ay, tm + dt)
                    L.append(gen.iline(e, nx, ny, nt, pr, ti, o))
                    # A refused input (too far) does not count.
                    if dt / T <= t["p"]["maxout"] or float(t["p"]["rate"]) != 64:
                        x, y, tm = nx, ny, nt
                    if ask and e != "U":
                        L.append("Q")
            out.append(vf.Scenario(f"{prop}grid{k}x{c}", L))
            n += len(hs[c:c + chunk])
    st["grid_replayed"] = n
    return out, st
