"""C17: configurations at and around the limits of every parameter."""
import itertools
import math
import random
import struct
from vf import Scenario
from gen import pline, iline, NAN, INF, PI, base


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def nxt(x, up=True, single=True):
    """The neighbouring single (or double) precision number."""
    if not single:
        return math.nextafter(x, INF if up else -INF)
    b = struct.unpack("i", struct.pack("f", x))[0]
    if x == 0:
        return 1.4e-45 if up else -1.4e-45
    b += 1 if (x > 0) == up else -1
    return struct.unpack("f", struct.pack("i", b))[0]


WOB = {"wob.on": 1, "wob.timeout": .04, "wob.floor": 1.31, "wob.ceil": 1.44}
LOOP = {"loop.on": 1, "loop.lo": 5.0, "loop.hi": 20.0, "loop.slo": .9, "loop.shi": .2, "loop.win": .04, "loop.n": 5}
NORM = {"sty.proj": 1, "sty.min": 10, "sty.dur": .05}
KAL = {"pred": "kal", "k.pn": .01, "k.mn": .1, "k.stable": 4, "k.times": 20, "k.vel": .01, "k.aw": .5, "k.jw": .1,
       "k.int": .02, "k.des": 20, "k.dist": .2, "k.vmin": 3.0, "k.vmax": 15.0, "k.dev": .2, "k.base": .4}
BASES = [
    base(**{"wob.on": 0}),
    base(**WOB),
    base(**{**WOB, **NORM, **LOOP}),
    base(**{**WOB, **KAL}),
    base(**{**NORM, **KAL, "angle": .1}),
    base(**{**NORM, **LOOP, **KAL, "pred": "off", "maxout": 50}),
]
FL = [0.0, -0.0, 1.4e-45, 1e-38, 1e-9, .5, 1.0, 2.0, -1e-9, -1.0, -1.4e-45, 1e9, 3e38, NAN, INF, -INF]
DB = [0.0, -0.0, 5e-324, 1e-300, 1e-9, .5, 1.0, 2.0, -1e-9, -1.0, -5e-324, 1e9, NAN, INF, -INF]
IN = [0, 1, 2, -1, 3, 100, -100, 2147483647, -2147483648]
FLOATS = ["wob.floor", "wob.ceil", "M", "K", "loop.lo", "loop.hi", "loop.slo", "loop.shi", "stop", "k.vel", "k.aw", "k.jw",
          "k.dist", "k.vmin", "k.vmax", "k.dev", "k.base"]
DOUBLES = ["wob.timeout", "loop.win", "rate", "angle", "sty.dur", "k.pn", "k.mn", "k.int"]
INTS = ["loop.n", "iters", "maxout", "sty.max", "sty.min", "k.stable", "k.times", "k.des"]
EXTRA = {
    "loop.slo": [nxt(1.0), nxt(1.0, False), .2, nxt(.2, False), nxt(.2), .19, .1],
    "loop.shi": [.9, nxt(.9), nxt(.9, False), .91, 1.0, nxt(0.0), nxt(0.0, False)],
    "loop.lo": [20.0, nxt(20.0), nxt(20.0, False), 21.0],
    "loop.hi": [5.0, nxt(5.0), nxt(5.0, False), 4.9],
    "loop.win": [10000.0, nxt(10000.0, True, False), nxt(10000.0, False, False), 10001.0, 9999.0],
    "loop.n": [9999, 10000, 10001],
    "wob.floor": [1.44, nxt(f32(1.44)), nxt(f32(1.44), False), 1.5],
    "wob.ceil": [1.31, nxt(f32(1.31)), nxt(f32(1.31), False), 1.2],
    "iters": [999, 1000, 1001, 20000],
    "angle": [PI, nxt(PI, True, False), nxt(PI, False, False), f32(PI), 3.0, 3.2, 6.3, -1.0, nxt(-1.0, True, False),
              nxt(-1.0, False, False), -.5, -2.0],
    "k.vmin": [15.0, nxt(15.0), nxt(15.0, False), 16.0],
    "k.vmax": [3.0, nxt(3.0), nxt(3.0, False), 2.9],
    "k.base": [nxt(1.0), nxt(1.0, False), 1.01, nxt(0.0), nxt(0.0, False), .99],
    "rate": [1e6, 1e300],
}
PAIRS = [("wob.floor", "wob.ceil"), ("loop.lo", "loop.hi"), ("loop.slo", "loop.shi"), ("k.vmin", "k.vmax")]


def stroke(g, k=0):
    """A short stroke of ordinary size."""
    L = [iline("D", 3, 4, 1, .5, .3, 1)]
    if k % 2:
        L.append("Q")
    for i in range(1, 6):
        L.append(iline("M", 3 + .1 * i, 4 + .05 * i * i, 1 + .01 * i, .5 + .05 * i, .3, 1 + .5 * i))
    L += ["Q", iline("U", 3.6, 5.9, 1.07, .2, .4, 6)]
    return L


def tame(p):
    """Configurations that legitimately ask for astronomically many results are not run."""
    try:
        r, m = float(p["rate"]), int(p["maxout"])
    except (KeyError, ValueError):
        return p
    if m > 100000 and not r < 1e6:
        p["maxout"] = 100000
    return p


def config(p, k):
    return [pline(tame(dict(p)))] + stroke(None, k)


# Every pair of parameters takes every pair of these values.
DOMAIN = {**{k: [0.0, 1.0, -1.0, 1e-9, 3e38, NAN] for k in FLOATS}, **{k: [0.0, 1.0, -1.0, 1e-9, 1e9, INF] for k in DOUBLES},
          **{k: [0, 1, -1, 2, 2147483647] for k in INTS}, "wob.on": [0, 1], "loop.on": [0, 1], "sty.proj": [0, 1],
          "pred": ["kal", "end", "off"]}


def pairs():
    b = base(**{**WOB, **NORM, **LOOP, **KAL})
    for x, y in itertools.combinations(sorted(DOMAIN), 2):
        for v, w in itertools.product(DOMAIN[x], DOMAIN[y]):
            yield {**b, x: v, y: w}


def tuples(g, n):
    b = base(**{**WOB, **NORM, **LOOP, **KAL})
    for _ in range(n):
        yield {**b, **{k: g.choice(DOMAIN[k] + EXTRA.get(k, [])) for k in g.sample(sorted(DOMAIN), g.choice([3, 3, 4]))}}


def make(seed, rnd):
    out, cur = [], []
    n = 0

    def flush():
        nonlocal cur
        if cur:
            out.append(Scenario(f"C17r{rnd}x{len(out)}", cur))
            cur = []

    def add(p):
        nonlocal n
        n += 1
        cur.extend(config(p, n))
        if len(cur) > 220:
            flush()

    g = random.Random(f"C17/{seed}/{rnd}")
    if rnd == 0:
        for b in BASES:
            add(b)
            for k, vals in [(k, FL) for k in FLOATS] + [(k, DB) for k in DOUBLES] + [(k, IN) for k in INTS]:
                for v in vals + EXTRA.get(k, []):
                    add({**b, k: v})
            for k in ("wob.on", "loop.on", "sty.proj"):
                add({**b, k: 0})
                add({**b, k: 1})
            for kind in ("off", "end", "kal"):
                add({**b, "pred": kind})
        b = base(**{**WOB, **NORM, **LOOP, **KAL})
        for x, y in PAIRS:
            for v, w in itertools.product([0.0, .5, 1.0, nxt(.5), nxt(.5, False), 3.0, -1.0, NAN, INF, -INF], repeat=2):
                add({**b, x: v, y: w})
        for a, l, s in itertools.product((0, 1), repeat=3):
            add({**b, "wob.on": a, "loop.on": l, "sty.proj": s})
    # several changes at once
    for _ in range(900):
        p = dict(g.choice(BASES))
        for kk in ("wob.on", "sty.proj"):
            if g.random() < .3:
                p[kk] = g.choice([0, 1])
        if g.random() < .3:
            p["loop.on"] = g.choice([0, 1])
        if g.random() < .3:
            p["pred"] = g.choice(["kal", "end", "off"])
        if p["pred"] == "kal":
            p = {**KAL, **p, "pred": "kal"}
        for _ in range(g.choice([1, 1, 2, 3])):
            kind = g.randrange(3)
            if kind == 0:
                k = g.choice(FLOATS)
                v = g.choice(FL + EXTRA.get(k, []) + [g.uniform(0, 2), 10 ** g.uniform(-30, 30)])
            elif kind == 1:
                k = g.choice(DOUBLES)
                v = g.choice(DB + EXTRA.get(k, []) + [g.uniform(0, 2), 10 ** g.uniform(-30, 8)])
            else:
                k = g.choice(INTS)
                v = g.choice(IN + EXTRA.get(k, []) + [g.randrange(1, 50)])
            p[k] = v
        add(p)
    flush()
    for p in itertools.chain(pairs() if rnd == 0 else (), tuples(g, 2000)):
        cur.append(pline(tame(p)))
        if len(cur) > 500:
            flush()
    flush()
    return out
