"""C19: extreme parameters and inputs."""
import random
from vf import Scenario
import gen
import genparams
from gen import pline, iline, NAN, INF

POS = [0.0, 1.0, -1.0, 1e-45, 1e-38, 1e-20, 1e19, -1e19, 2e19, 1e30, -1e30, 3e38, -3e38, 3.4028234e38, 1e10, 123456.7, .1, 1e-7]
TIME = [0.0, 1.0, 1e-300, 5e-324, 1e-9, 1e9, 1e15, 1e20, 1e100, 1e300, 1.7e308, -1.7e308, -1e300, -1.0, -1e9, .1]
STEP = [0.0, 0.0, 5e-324, 1e-300, 1e-40, 1e-12, 1e-6, .001, .01, .01, .01, .1, 1.0, 1e3, 1e9, 1e40, 1e300]
STY = [-1.0, .5, 0.0, -0.0, NAN, INF, -INF, 1e38, 3e38, -3e38, 1e-45, 6.2831853, 6.283186, 1e9, 1e5, -7.0, 12345678.0, 100.0]


def wild_params(g):
    k = g.random()
    if k < .35:
        p, _, _ = gen.mixed_params(g, g.choice([1.0, 1e-20, 1e20]), wild=True)
    else:
        p = dict(g.choice(genparams.BASES))
        p = {**genparams.KAL, **genparams.LOOP, **p}
        for _ in range(g.choice([1, 2, 3, 6])):
            key = g.choice(["wob.floor", "wob.ceil", "M", "K", "loop.lo", "loop.hi", "stop", "k.vel", "k.aw", "k.jw", "k.dist",
                            "k.vmin", "k.vmax", "k.dev", "wob.timeout", "loop.win", "rate", "angle", "sty.dur", "k.pn", "k.mn",
                            "k.int", "loop.n", "iters", "sty.max", "sty.min", "k.stable", "k.times", "k.des", "maxout"])
            if key in genparams.INTS:
                p[key] = g.choice([1, 1, 2, 3, 1000, 2147483647])
            else:
                p[key] = g.choice([1e-45, 1e-38, 1e-20, 1e-6, 1.0, 1e6, 1e20, 3e38] if key in genparams.FLOATS
                                  else [5e-324, 1e-300, 1e-38, 1e-6, 1.0, 1e6, 1e20, 1e300, 1.7e308])
        if g.random() < .5:
            p["wob.ceil"] = max(float(p.get("wob.ceil", 0)), float(p.get("wob.floor", 0)))
            p["loop.hi"] = max(float(p["loop.hi"]), float(p["loop.lo"]))
            p["k.vmax"] = max(float(p["k.vmin"]), float(p["k.vmax"]))
            if float(p["angle"]) > 3:
                p["angle"] = 3.0
            if p.get("loop.on"):
                p["loop.win"] = min(float(p["loop.win"]), 10000.0)
                p["loop.n"] = min(int(p["loop.n"]), 10000)
            p["iters"] = min(int(p["iters"]), 1000)
    p["maxout"] = min(int(p["maxout"]), g.choice([1, 5, 100, 400]))
    return p


def near(g, v):
    return v if g.random() < .5 else v * g.choice([1.0, 1.0000001, .5, -1.0, 2.0])


def wild_stroke(g):
    n = g.randrange(0, 12)
    mode = g.random()
    px = [g.choice(POS) for _ in range(3)]
    t = near(g, g.choice(TIME)) if g.random() < .6 else 0.0
    sv = [g.choice(STY) for _ in range(4)]
    L = []
    for i in range(n + 2):
        e = "D" if i == 0 else "U" if i == n + 1 else "M"
        if mode < .35:
            x, y = near(g, g.choice(px)), near(g, g.choice(px))
        elif mode < .6:
            x, y = g.choice(POS), g.choice(POS)
        else:
            x, y = .1 * i, .02 * i * i
        s = [g.choice(sv) if g.random() < .7 else .5 for _ in range(3)] if mode < .9 else [.5, .3, 1.0]
        L.append(iline(e, x, y, t, *s))
        if g.random() < .3:
            L.append("Q")
        if g.random() < .05:
            L.append(g.choice(["S", "T", "R"]))
        t += g.choice(STEP) if g.random() < .4 else .01
    if g.random() < .2:
        L.pop()     # destroyed, or reset, in the middle of the stroke
    return L


def crafted(b):
    """Shapes that have led to trouble before, or are likely to."""
    P = gen.base
    far = [iline("D", 0, 0, 0, .5, .5, .5), iline("M", 1, 1, 1e300, .5, .5, .5), iline("M", 1, 1, 1e30, .5, .5, .5), "Q",
           iline("M", 1, 1, .01, .5, .5, .5), "Q", iline("U", 1, 1, .02, .5, .5, .5)]
    for p in genparams.BASES:
        if p["pred"] == "kal":
            p = {**genparams.KAL, **p}
        b.add([pline({**p, "maxout": 100})] + far, "far")
        for o in (1e5, 1e9, 3e38, INF, 1e38):       # orientations far from [0, 2 pi)
            b.add([pline(p)] + [iline("DMMMU"[i], .1 * i, 0, .01 * i, .5, .5, o if i % 2 else 1.0) for i in range(5)], "or")
            b.add([pline(p)] + [iline("DMMMU"[i], .1 * i, 0, .01 * i, .5, .5, o) for i in range(5)], "or")
        for x in (3.4e38, 2e19, 1e25):              # squares and differences overflow
            b.add([pline(p)] + [iline("DMMMU"[i], x * (-1) ** i, x * (i % 3 - 1), .01 * i, .5, .5, .5) for i in range(5)] + ["Q"], "hug")
            b.add([pline(p)] + [v for i in range(6) for v in (iline("DMMMMM"[i], x * (1 - .1 * i), 0, .01 * i, .5, .5, .5), "Q")], "hug")
        # all at one place / one time
        b.add([pline(p)] + [v for i in range(8) for v in (iline("D" if i == 0 else "M", 1, 1, .01 * i, .5, .5, .5), "Q")]
              + [iline("U", 1, 1, .08, .5, .5, .5)], "one")
        b.add([pline(p)] + [v for i in range(8) for v in (iline("D" if i == 0 else "M", i, 1, 5, .5, .5, .5), "Q")]
              + [iline("U", 1, 1, 5, .5, .5, .5)], "one")
        b.add([pline(p), iline("D", 1, 1, 1, .5, .5, .5), "Q", iline("U", 1, 1, 1, .5, .5, .5), "Q", "S", "T", "R"], "dot")
        # unknown fields from the start, or later
        for s in ((-1, -1, -1), (NAN, NAN, NAN), (INF, INF, INF), (-INF, -INF, -INF)):
            b.add([pline(p)] + [v for i in range(6) for v in (iline("D" if i == 0 else "M", .1 * i, 1, .01 * i, *s), "Q")]
                  + [iline("U", 1, 1, .08, *s)], "unk")
            b.add([pline(p)] + [v for i in range(6) for v in (iline("D" if i == 0 else "M", .1 * i, 1, .01 * i,
                                                              *(s if i > 2 else (.5, .5, .5))), "Q")]
                  + [iline("U", 1, 1, .08, *s)], "unk")
    # bounds on the number of results that are never reached, and ones that are all that limits it
    for p in genparams.BASES:
        if p["pred"] == "kal":
            p = {**genparams.KAL, **p, "k.vmin": 0.0, "k.vmax": 1.0, "k.dist": 10.0, "k.dev": 10.0, "k.des": 4}
        line = [v for i in range(12) for v in ([iline("D" if i == 0 else "M", .5 * i, .25 * i, .01 * i, .5, .5, .5)]
                                               + (["Q"] if i % 3 == 2 else []))] + ["Q", iline("U", 6, 3, .12, .5, .5, .5)]
        b.add([pline({**p, "maxout": 2147483647})] + line, "bnd")
        b.add([pline({**p, "maxout": 2147483647, "iters": 1000})] + line, "bnd")
        b.add([pline({**p, "maxout": 7, "iters": 1000})] + line, "bnd")
        if p["pred"] == "kal":
            for v in (1e4, 1e8, 1e10, 1e20, 1e36, 1e300):
                b.add([pline({**p, "maxout": 7, "k.int": v})] + line, "bnd")
                b.add([pline({**p, "maxout": 7, "k.vel": 1 / v})] + line + ["R"] + [x for x in line if x != "Q"][:5] + ["Q"], "bnd")
    # A tip that stays far behind a pen that has come to rest: it would take ages to catch up.
    for x in (1e3, 1e6, 1e9, 1e20):
        for v in (1e-6, 1e-12, 1e-30):
            b.add([pline(gen.base(180, **{**genparams.KAL, "pred": "kal", "M": 1e30, "k.vel": v, "k.pn": 1.0, "k.mn": .01,
                                          "maxout": 7, "k.vmin": 0.0, "k.vmax": 1.0}))]
                  + [y for i in range(90) for y in [iline("D" if i == 0 else "M", 0 if i == 0 else x, 0, .005 * i, .5, .5, .5)]
                     + (["Q"] if i % 20 == 9 else [])], "lag")
    b.add(["Q", "S", "T", "R", iline("D", 0, 0, 0), "Q"], "new")
    b.add(["R", iline("M", 0, 0, 0), iline("U", 0, 0, 0), iline("7", 0, 0, 0), "T", "S", "T", pline(P()), "T",
           iline("D", 0, 0, 0), "T", "Q", iline("7", 0, 0, 1), iline("-1", 0, 0, 1), iline("M", 1, 1, .1), "T", "Q"], "new")
    # memory stays bounded in a long stroke
    for p in genparams.BASES:
        if p["pred"] == "kal":
            p = {**genparams.KAL, **p}
        for sn in (0, 1):
            L = [pline({**p, "sty.dur": .02})]
            for i in range(1201):
                L.append(iline("D" if i == 0 else "M", (i * 7 % 13) * .1, (i * 5 % 11) * .1, .004 * i, .5, .5, .5))
                if i % 50 == 7:
                    L.append("Q")
                    if sn:
                        L += ["S", "T"]
                if i in (400, 800, 1200):
                    L.append("L")
            b.add(L, "mem")
    # a long stroke with growing state
    for p in genparams.BASES:
        if p["pred"] == "kal":
            p = {**genparams.KAL, **p}
        b.add([pline(p)] + [v for i in range(300) for v in
                            ([iline("D" if i == 0 else "M", (i * 7 % 13) * .1, (i * 5 % 11) * .1, .004 * i, .5, .5, .5)]
                             + (["Q"] if i % 25 == 3 else []) + (["S"] if i % 40 == 9 else []) + (["T"] if i % 120 == 110 else []))],
              "long")


def make(seed, rnd, n):
    g = random.Random(f"C19/{seed}/{rnd}")
    b = gen.B(f"C19r{rnd}")
    if rnd == 0:
        crafted(b)
    while len(b.out) < n:
        L = []
        if g.random() < .25:
            p, dt, step = gen.mixed_params(g, 1.0, wild=False)
            p["maxout"] = min(int(p["maxout"]), 1000)
            L.append(pline(p))
            for _ in range(2):
                L += gen.stroke(g, g.randrange(0, 20), dt, 1.0, step=step, pq=.3, ps=.05, pj=.1)
                L.append("R")
        else:
            for _ in range(g.choice([1, 1, 2])):
                L.append(pline(wild_params(g)))
                for _ in range(g.choice([1, 1, 2])):
                    L += wild_stroke(g)
                    if g.random() < .3:
                        L.append("R")
        b.add(L, "w")
    return b.out
