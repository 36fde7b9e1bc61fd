"""Scenario generators: sequences of public calls for harness/trace.cc.

Only inputs are made here; what the results must be is decided by the TLA+ specification.
Families are named after the property they exercise; every family is a function of a random.Random.
"""
import math
import random
from vf import Scenario

PI = math.pi
NAN = float("nan")
INF = float("inf")


def num(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        return repr(x)
    return str(x)


def pline(p):
    return "P " + " ".join(f"{k}={num(v)}" for k, v in p.items())


def iline(e, x, y, t, pr=-1.0, ti=-1.0, o=-1.0):
    return "I " + " ".join([e] + [num(float(v)) for v in (x, y, t, pr, ti, o)])


# ---------------------------------------------------------------- parameters
def base(rate=180, **over):
    p = {"wob.on": 1, "wob.timeout": .04, "wob.floor": 1.31, "wob.ceil": 1.44,
         "M": 11. / 32400, "K": 72.0, "loop.on": 0, "rate": rate, "stop": .001, "iters": 20,
         "maxout": 100000, "angle": -1, "sty.proj": 0, "sty.max": 10, "pred": "end"}
    p.update(over)
    return p


def spring(g, p, wild=False):
    """A spring and drag that are stable at the given rate (unless wild)."""
    r = float(p["rate"])
    k = g.random()
    if k < .25:
        p["M"], p["K"] = 11. / 32400 * (180 / r) ** 2, 72.0 * r / 180
    elif k < .9 or not wild:
        p["M"] = g.choice([1.0, 1.5, 3.0, 8.0, 11.0, 30.0, g.uniform(1, 20)]) / r ** 2
        p["K"] = g.choice([.05, .2, .4, .7, 1.0, g.uniform(.02, 1)]) * r
    else:
        p["M"] = g.uniform(.2, 2) / r ** 2
        p["K"] = g.uniform(.5, 2.2) * r
    return p


def wobble(g, p, speed, dt):
    k = g.random()
    p["wob.on"] = 1
    p["wob.timeout"] = g.choice([0.0, dt * .5, dt, 1.5 * dt, 2 * dt, 3.3 * dt, 7 * dt, 20 * dt, .04])
    f = speed * g.choice([0.0, .3, .8, 1.0, 1.2, 2.0])
    p["wob.floor"] = f
    p["wob.ceil"] = f * g.choice([1.0, 1.1, 1.5, 3.0]) + (g.choice([0.0, .1, 1.0]) * speed)
    if k < .2:
        p["wob.floor"], p["wob.ceil"] = speed * 100, speed * 200      # always the average
    return p


def kalman(g, p, scale, dt):
    p["pred"] = "kal"
    r = float(p["rate"])
    p["k.pn"] = g.choice([.01, .001, .1, 1.0, .00026458])
    p["k.mn"] = g.choice([.1, .5, .01, .026458, .05])
    p["k.stable"] = g.choice([1, 2, 3, 4, 4, 7])
    p["k.times"] = g.choice([1, 2, 3, 5, 10, 20, 20])
    p["k.vel"] = g.choice([.01, .1, 1.0, 10.0]) * scale
    p["k.aw"] = g.choice([.5, 0.0, 1.0, .2, -.3])
    p["k.jw"] = g.choice([.1, 0.0, 1.0, .02])
    p["k.int"] = g.choice([.02, .05, .1, 3.5 / r, 8.0 / r, .5 / r])
    p["k.des"] = g.choice([1, 5, 20, 20, 8])
    p["k.dist"] = g.choice([.02, .2, 1.0, 5.0]) * scale
    lo = g.choice([0.0, .5, 2.0, 5.0]) * scale
    p["k.vmin"] = lo
    p["k.vmax"] = lo + g.choice([0.0, 1.0, 5.0, 50.0]) * scale
    p["k.dev"] = g.choice([.05, .5, 2.0, 10.0]) * scale
    p["k.base"] = g.choice([.4, 0.0, 1.0, .1, .9])
    return p


def loop(g, p, speed, dt):
    lo = speed * g.choice([0.0, 0.0, .3, .8, 1.0])
    p.update({"loop.on": 1, "loop.lo": lo, "loop.hi": lo + speed * g.choice([0.0, .2, .5, 1.0, 2.0])})
    s1 = g.choice([1.0, 1.0, .9, .7, .5, .3])
    p["loop.slo"] = s1
    p["loop.shi"] = s1 * g.choice([0.0, 0.0, .2, .5, .9, 1.0])
    p["loop.win"] = g.choice([.3, 1.0, 2.5, 6.0, 15.0]) * dt
    p["loop.n"] = g.choice([1, 1, 2, 3, 5, 10, 20])
    normal(g, p, dt)
    return p


def normal(g, p, dt):
    p["sty.proj"] = 1
    p["sty.min"] = g.choice([1, 2, 3, 5, 10, 10, 20])
    p["sty.dur"] = g.choice([.2, 1.0, 2.5, 5.0, 12.0]) * dt
    return p


# ---------------------------------------------------------------- paths
def path(g, n, scale=1.0, style=None, step=None):
    """n positions, about `step` apart."""
    st = style or g.choice(["line", "circle", "walk", "zigzag", "spiral", "smooth", "smooth", "back", "corner",
                            "still", "loop8", "grid", "jump"])
    step = step if step is not None else scale * g.choice([.01, .05, .1, .3, 1.0])
    x0, y0 = g.choice([0.0, g.uniform(-10, 10) * scale, 3 * scale]), g.choice([0.0, g.uniform(-10, 10) * scale])
    a = g.uniform(0, 2 * PI)
    out = []
    x, y = x0, y0
    w = g.uniform(-.6, .6)
    cnt = 0
    for i in range(n):
        if st == "circle":
            r = step / max(abs(w), .05)
            out.append((x0 + r * math.cos(a + w * i), y0 + r * math.sin(a + w * i)))
            continue
        if st == "loop8":
            r = step * 3
            out.append((x0 + r * math.sin(.4 * i), y0 + r * math.sin(.8 * i)))
            continue
        out.append((x, y))
        if st == "line":
            d = step
        elif st == "walk":
            a, d = g.uniform(0, 2 * PI), step * g.uniform(0, 2)
        elif st == "zigzag":
            a, d = a + (2.2 if i % 2 else -2.2), step
        elif st == "spiral":
            a, d = a + w / (1 + .1 * i), step
        elif st == "smooth":
            w += g.uniform(-.15, .15)
            a, d = a + w * .5, step * g.uniform(.7, 1.3)
        elif st == "back":
            d = step
            if i % 5 == 4:
                a += PI
        elif st == "corner":
            d = step
            if i % 4 == 3:
                a += g.choice([PI / 2, -PI / 2, 2.5, 1.0])
        elif st == "still":
            d = 0.0 if g.random() < .7 else step
        elif st == "box":
            x, y = x0 + g.random() * 6 * step, y0 + g.random() * 6 * step
            continue
        elif st == "grid":
            a, d = g.choice([0, PI / 2, PI, -PI / 2]), step
            x += round(math.cos(a)) * step
            y += round(math.sin(a)) * step
            continue
        else:  # jump
            d = step if g.random() < .8 else step * 20
            a += g.uniform(-1, 1)
        x += d * math.cos(a)
        y += d * math.sin(a)
        cnt += 1
    return out


def times(g, n, dt, style=None, t0=None):
    st = style or g.choice(["even", "even", "jitter", "jitter", "bursts", "same", "gaps", "fine"])
    t = t0 if t0 is not None else g.choice([0.0, 0.0, g.uniform(0, 100), 1.0, -5.0, 1000.25, 1e5])
    out = []
    for i in range(n):
        out.append(t)
        if st == "even":
            d = dt
        elif st == "jitter":
            d = dt * g.uniform(.3, 1.7)
        elif st == "bursts":
            d = dt * (.1 if i % 4 else 3)
        elif st == "same":
            d = 0.0 if g.random() < .25 else dt
        elif st == "gaps":
            d = dt * (8 if g.random() < .12 else 1)
        else:
            d = dt * g.choice([.01, .1, 1, 1])
        t += d
    return out


def stylus(g, n, style=None):
    st = style or g.choice(["none", "all", "all", "all", "wrap", "wrap", "coarse", "partial", "big", "steps"])
    out = []
    ph = g.uniform(0, 6)
    o = g.uniform(0, 2 * PI)
    for i in range(n):
        if st == "none":
            out.append((-1.0, -1.0, -1.0))
        elif st == "all":
            out.append((g.random(), g.random() * PI / 2, g.random() * 2 * PI))
        elif st == "wrap":
            o = (o + g.uniform(-1.2, 1.2)) % (2 * PI)
            out.append((.5 + .4 * math.sin(ph + i * .3), .3 + .2 * math.cos(i * .2), o))
        elif st == "coarse":
            out.append((g.choice([0.0, .25, .5, 1.0]), g.choice([0.0, .5, 1.5]),
                        g.choice([0.0, PI / 2, PI, 3 * PI / 2, 6.25, 0.01])))
        elif st == "partial":
            out.append((g.random(), -1.0, g.random() * 6))
        elif st == "big":
            out.append((g.uniform(0, 50), g.uniform(0, 9), g.uniform(0, 25)))
        else:
            out.append((float(i % 3), float(i % 2), float(i % 7)))
    return out


# ---------------------------------------------------------------- strokes
def stroke(g, n, dt, scale=1.0, style=None, tstyle=None, sstyle=None, t0=None, step=None, pq=.15, ps=.0, pj=.0,
           up=True, upstyle=None, sty=None, pts=None, ts=None):
    """Down, n Moves, Up, with predictions (pq), saves and restores (ps), refused inputs (pj)."""
    pts = pts or path(g, n + 2, scale, style, step)
    ts = ts or times(g, n + 2, dt, tstyle, t0)
    sty = sty or stylus(g, n + 2, sstyle)
    L = []
    last = None
    i = 0
    saved = None
    while i < n + 2:
        if i == n + 1 and not up:
            break
        e = "D" if i == 0 else "U" if i == n + 1 else "M"
        x, y = pts[i]
        t = ts[i]
        if e == "U":
            us = upstyle or g.choice(["next", "next", "same", "sametime"])
            if us == "same" and last:
                x, y, t = last[0], last[1], last[2]
            elif us == "sametime" and last:
                t = last[2]
        L.append(iline(e, x, y, t, *sty[i]))
        last = (x, y, t)
        if g.random() < pj:
            k = g.randrange(5)
            if k == 0 and e != "U":
                L.append(L[-1])
            elif k == 1 and e != "U":
                L.append(iline("M", x + scale, y, t - dt * .5, *sty[i]))
            elif k == 2 and e != "U":
                L.append(iline("D", x, y, t + dt, *sty[i]))
            elif k == 3:
                L.append(iline("M", NAN, y, t + dt, *sty[i]))
            elif k == 4 and e != "U":
                L.append(iline("M", x, y + .3 * scale, t + 1e7, -1, -1, -1))
        if e != "U" and g.random() < pq:
            L.append("Q")
        i += 1
        if ps and g.random() < ps:
            L.append("S")
            saved = (i, last)
        elif ps and saved and g.random() < ps:
            L.append("T")
            if g.random() < .7:
                i, last = saved
    return L


class B:
    """Collects scenarios."""
    def __init__(self, prefix):
        self.prefix = prefix
        self.out = []

    def add(self, lines, tag=""):
        self.out.append(Scenario(f"{self.prefix}{tag}{len(self.out)}", lines))


def pick_rate(g):
    return g.choice([180, 180, 60, 120, 240, 1000, 64, 128, 30, 333.3])


def dt_for(g, rate):
    return g.choice([.4, .9, 1.0, 1.3, 1.8, 2.6, 4.3, g.uniform(.2, 5)]) / rate


def mixed_params(g, scale=1.0, wild=False):
    rate = pick_rate(g)
    dt = dt_for(g, rate)
    speed = scale * g.choice([.02, .1, .3]) / dt
    p = spring(g, base(rate), wild)
    p["stop"] = g.choice([.001, .0001, .01, .1]) * scale
    p["iters"] = g.choice([20, 20, 1, 3, 50])
    k = g.random()
    if k < .3:
        p["wob.on"] = 0
    else:
        wobble(g, p, speed, dt)
    p["sty.max"] = g.choice([1, 2, 3, 5, 10, 10, 20])
    k = g.random()
    if k < .25:
        normal(g, p, dt)
    elif k < .5:
        loop(g, p, speed, dt)
    if g.random() < .3:
        p["angle"] = g.choice([.05, .1, .3, 1.0, 3.0])
    if g.random() < .1:
        p["maxout"] = g.choice([3, 5, 10, 30])
    k = g.random()
    if k < .4:
        kalman(g, p, scale, dt)
    elif k < .5:
        p["pred"] = "off"
    return p, dt, speed * dt


def mixed(g, b, n=1, maxlen=25):
    for _ in range(n):
        scale = g.choice([1.0, 1.0, 1.0, .01, 100.0])
        L = []
        for _ in range(g.choice([1, 1, 2])):
            p, dt, step = mixed_params(g, scale, wild=g.random() < .2)
            L.append(pline(p))
            for _ in range(g.choice([1, 1, 2])):
                L += stroke(g, g.randrange(0, maxlen), dt, scale, step=step * g.choice([.3, 1, 1, 3]),
                            pq=g.choice([0, .2, .5]), ps=g.choice([0, 0, .1]), pj=g.choice([0, .1]),
                            up=g.random() < .85)
                if g.random() < .15:
                    L.append("R")
                elif not L[-1].startswith("I U"):
                    L.append("R")
        b.add(L, "mix")


# ---------------------------------------------------------------- C06
def c06(g, b):
    k = g.randrange(6)
    if k == 0:      # exact multiples of the output period, and just beyond
        e = g.choice([5, 6, 7, 8])
        r = 2 ** e
        p = spring(g, base(r, **{"wob.on": g.choice([0, 1])}))
        t = g.choice([0.0, 1.0, 16.0, -2.0])
        n = g.randrange(2, 12)
        pts = path(g, n + 2, 1.0)
        ts = [t]
        for _ in range(n + 1):
            t += g.choice([1, 1, 2, 3, 4, 5, 8, .5, .25]) / r + g.choice([0, 0, 0, 2.0 ** -20, -2.0 ** -20])
            ts.append(t)
        b.add([pline(p)] + stroke(g, n, 0, pts=pts, ts=ts), "tick")
    elif k == 1:    # angle limit
        r = g.choice([60, 120, 30])
        p = spring(g, base(r, **{"wob.on": 0, "angle": g.choice([.02, .05, .1, .2, .5, 1.0, 1.5, 2.0, 3.0, 3.14])}))
        dt = g.choice([.3, 1, 2]) / r
        b.add([pline(p)] + stroke(g, g.randrange(3, 15), dt, style=g.choice(["circle", "zigzag", "corner", "walk",
                                                                              "back", "jump", "smooth"])), "angle")
    elif k == 2:    # long gaps and large times
        r = pick_rate(g)
        p = spring(g, base(r, **{"wob.on": g.choice([0, 1])}))
        dt = dt_for(g, r)
        b.add([pline(p)] + stroke(g, g.randrange(2, 12), dt, tstyle=g.choice(["gaps", "bursts", "fine", "same"]),
                                  t0=g.choice([0.0, 1e6, -1e4, 12345.678])), "gap")
    elif k == 3:    # slow rates: one result per input
        r = g.choice([1, 2, 5, 10])
        p = spring(g, base(r))
        b.add([pline(p)] + stroke(g, g.randrange(2, 20), dt_for(g, 200)), "slow")
    elif k == 4:    # high rate: many results per input
        r = g.choice([1000, 2000, 5000])
        p = spring(g, base(r))
        b.add([pline(p)] + stroke(g, g.randrange(1, 4), g.uniform(.01, .03)), "fast")
    else:
        mixed(g, b)


# ---------------------------------------------------------------- C07
def c07(g, b):
    mo = g.choice([1, 1, 2, 3, 4, 5, 7, 8, 16])
    e = g.choice([4, 6, 7])
    r = 2 ** e
    p = base(r, maxout=mo, iters=g.choice([1, 2, 3, 20, 50, 1000]), **{"wob.on": g.choice([0, 1])})
    spring(g, p)
    p["stop"] = g.choice([.001, 1e-6, .1])
    if g.random() < .3:
        p["angle"] = g.choice([.01, .05, .2])
    dt = 1 / r
    k = g.random()
    if k < .35:
        kalman(g, p, 1.0, dt)
        p["k.stable"] = g.choice([1, 2, 3])
        p["k.int"] = g.choice([4, 20, 100]) / r
    if g.random() < .3:
        normal(g, p, dt)
    L = [pline(p)]
    for _ in range(g.choice([1, 2, 3])):
        t = g.choice([0.0, 3.0])
        x = y = 0.0
        L.append(iline("D", x, y, t, .5, .5, .5))
        for i in range(g.randrange(1, 8)):
            q = g.choice([1, 1, max(1, mo - 1), mo, mo, mo + 1, mo + 1, mo * 3 + 1, 100000, 2 ** 30])
            extra = g.choice([0, 0, 0, 2.0 ** -18])
            xx, yy = x + g.uniform(-1, 1), y + g.uniform(-1, 1)
            L.append(iline("M", xx, yy, t + q / r + extra, g.random(), g.random(), g.random()))
            if q + (1 if extra else 0) <= mo:
                t, x, y = t + q / r + extra, xx, yy
            if g.random() < .4:
                L.append("Q")
        q = g.choice([0, 1, max(1, mo - 1), mo, mo, mo + 1, mo + 1])
        L.append(iline("U", x + g.uniform(-2, 2), y, t + q / r, .1, .1, .1))
        L.append("R")
    b.add(L, "lim")


# ---------------------------------------------------------------- C08
def c08(g, b):
    k = g.randrange(4)
    if k == 0:
        r = pick_rate(g)
        p = spring(g, base(r, **{"wob.on": 0}), wild=True)
        b.add([pline(p)] + stroke(g, g.randrange(1, 30), dt_for(g, r), scale=g.choice([1, .001, 1000.]), pq=0), "sp")
    elif k == 1:    # exact arithmetic: powers of two throughout
        r = g.choice([1, 4, 64])
        p = base(r, **{"wob.on": 0, "M": g.choice([1.0, 2.0, 4.0]) / r ** 2, "K": g.choice([.25, .5, 1.0]) * r,
                       "stop": 2.0 ** -12})
        n = g.randrange(1, 7)
        pts = [(float(g.randrange(-8, 9)), float(g.randrange(-8, 9))) for _ in range(n + 2)]
        t = 0.0
        ts = []
        for _ in range(n + 2):
            ts.append(t)
            t += g.choice([1, 1, 2, 4, .5]) / r
        b.add([pline(p)] + stroke(g, n, 0, pts=pts, ts=ts, pq=0), "dy")
    elif k == 2:    # wobble smoothing in front; anchors are smoothed positions, except for Up
        r = pick_rate(g)
        dt = dt_for(g, r)
        p = spring(g, base(r))
        wobble(g, p, .3 / dt, dt)
        b.add([pline(p)] + stroke(g, g.randrange(1, 25), dt, step=.3, pq=.1), "ws")
    else:
        mixed(g, b)


# ---------------------------------------------------------------- C09
def from_rest(g, b):
    """Catching up from rest, where each case of the end-of-stroke loop is as likely as the others: steps that pass the
    anchor by a hair, steps and remaining distances of about (or exactly) the stopping distance, in all directions."""
    L = []
    for _ in range(6):
        r = g.choice([1, 4, 64, 180, 60])
        over = g.choice([.5, .1, .01, 1e-3, 5e-4, 1e-4])
        m = g.choice([1 / (1 + over), 1 / (1 + over), 1 / (1 - over), 1.5, 2.0, 2.0, 3.0, 4.0, 6.0])
        x = g.choice([1.0, 2.0, 8.0, .3, 50.0])
        a = g.choice([0.0, PI / 2, PI, 3 * PI / 2, PI / 4, 3 * PI / 4, g.uniform(0, 2 * PI), g.uniform(0, 2 * PI)])
        ux, uy = round(math.cos(a), 12), round(math.sin(a), 12)
        p = base(r, **{"wob.on": 0, "M": m / r ** 2, "K": g.choice([.001, .0625, .125, .5, 1.0]) * r,
                       "iters": g.choice([1, 2, 3, 5, 8, 20, 40])})
        p["stop"] = x * g.choice([.5, .25, 1 / 3, 1.0, .75, .02, .05, .1, .2, .3, 1e-3])
        L.append(pline(p))
        x0, y0, t = g.choice([0.0, 0.0, 3.0]), 0.0, g.choice([0.0, 5.0])
        L.append(iline("D", x0, y0, t, .5, .5, .5))
        if g.random() < .3:
            L.append(iline("M", x0 + x * ux, y0 + x * uy, t + g.choice([0, 1]) / r, .5, .5, .5))
            L.append("Q")
            t += 1 / r
        L.append(iline("U", x0 + x * ux, y0 + x * uy, t + g.choice([0, 0, 0, 1]) / r, .5, .5, .5))
    b.add(L, "rest")


def c09(g, b):
    k = g.randrange(7)
    if k >= 5:
        return from_rest(g, b)
    r = pick_rate(g)
    if k == 0:      # exact one-dimensional catching up, with ties
        r = g.choice([1, 2, 16])
        p = base(r, **{"wob.on": 0, "M": g.choice([1., 2., 4., 8., .5]) / r ** 2, "K": g.choice([.125, .25, .5, 1.]) * r,
                       "stop": g.choice([2., 1., .5, .25, 2. ** -4, 2. ** -7, 3.0]),
                       "iters": g.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])})
        x = float(g.choice([1, 2, 4, 8, 3, 16]))
        L = [pline(p), iline("D", 0, 0, 0, .5, .5, .5)]
        t = 0.0
        for _ in range(g.randrange(0, 3)):
            t += g.choice([1, 2]) / r
            L += [iline("M", float(g.randrange(-4, 5)), 0, t, .5, .5, .5), "Q"]
        L.append(iline("U", x, g.choice([0.0, 0.0, 1.0]), t + g.choice([0, 1, 1, 2]) / r, .5, .5, .5))
        b.add(L, "dy")
    elif k == 1:    # underdamped: overshoot is likely
        p = base(r, **{"wob.on": g.choice([0, 1]), "iters": g.choice([5, 20, 60]), "stop": g.choice([.001, .01, 1e-5])})
        p["M"] = g.uniform(1.5, 6) / r ** 2
        p["K"] = g.uniform(.01, .3) * r
        b.add([pline(p)] + stroke(g, g.randrange(0, 10), dt_for(g, r), step=g.choice([.05, .5, 3.0]), pq=0), "ud")
    elif k == 2:    # overdamped: many iterations
        p = base(r, **{"wob.on": g.choice([0, 1]), "iters": g.choice([3, 20, 100]), "stop": g.choice([.001, .01, 1e-4])})
        p["M"] = g.uniform(10, 60) / r ** 2
        p["K"] = g.uniform(.5, 1.0) * r
        b.add([pline(p)] + stroke(g, g.randrange(0, 10), dt_for(g, r), step=g.choice([.05, .5, 3.0]), pq=0), "od")
    elif k == 3:    # short strokes, no progress, already there
        p = spring(g, base(r, **{"stop": g.choice([.001, .1, 1.0, 10.]), "iters": g.choice([1, 2, 20])}))
        L = [pline(p)]
        for _ in range(4):
            L += stroke(g, g.randrange(0, 3), dt_for(g, r), step=g.choice([0.0, .0005, .05, 1.0]), pq=.2,
                        upstyle=g.choice(["same", "sametime", "next"]))
        b.add(L, "short")
    else:
        mixed(g, b)


# ---------------------------------------------------------------- C10
def c10(g, b):
    k = g.randrange(4)
    if k <= 1:      # the tip lands on the anchor: positions show the smoothed input
        r = g.choice([64, 128, 32])
        dt = 1 / r
        p = base(r, **{"M": dt * dt, "K": 1 / dt})
        p["wob.timeout"] = g.choice([0, .5, 1, 2, 3, 4, 8, 2.5, 1e-3, 16]) * dt
        f = g.choice([0.0, 1.0, 4.0, 16.0, 64.0])
        p["wob.floor"] = f
        p["wob.ceil"] = f + g.choice([0.0, 0.0, 2.0, 8.0, 64.0, 1000.0])
        n = g.randrange(2, 25)
        if k == 0:  # lattice: exact speeds, exactly at floor and ceiling
            d = g.choice([1.0, 4.0, 16.0, 64.0]) / r
            x = y = 0.0
            pts = []
            for _ in range(n + 2):
                pts.append((x, y))
                m = g.choice([0, 1, 1, 1, 2])
                if g.random() < .5:
                    x += m * d * g.choice([1, 1, -1])
                else:
                    y += m * d
        else:
            pts = path(g, n + 2, 1.0, step=g.choice([.01, .05, .2, 1.0]))
        t = g.choice([0.0, 2.0, 100.0])
        ts = []
        for _ in range(n + 2):
            ts.append(t)
            t += dt * g.choice([1, 1, 1, 1, 0] if k == 0 else [1, 1, 1, 0, 2, 5])
        b.add([pline(p)] + stroke(g, n, dt, pts=pts, ts=ts, pq=.1), "db")
    elif k == 2:
        r = pick_rate(g)
        dt = dt_for(g, r)
        p = spring(g, base(r))
        step = g.choice([.01, .1, 1.0])
        wobble(g, p, step / dt, dt)
        L = [pline(p)]
        for _ in range(2):
            L += stroke(g, g.randrange(3, 40), dt, step=step, pq=.05, ps=g.choice([0, .1]))
        b.add(L, "gen")
    else:           # long, slow strokes: the running sums
        r = g.choice([30, 60])
        p = spring(g, base(r, **{"wob.timeout": g.choice([.04, .2, 1.0])}))
        p["wob.floor"], p["wob.ceil"] = g.choice([(1.31, 1.44), (5., 50.), (0., 10.)])
        b.add([pline(p)] + stroke(g, g.randrange(60, 120), .01, step=g.choice([.01, .02, .2]), pq=0,
                                  style=g.choice(["smooth", "walk", "line", "circle"])), "long")


# ---------------------------------------------------------------- C11
def c11(g, b):
    k = g.randrange(5)
    mx = g.choice([1, 2, 2, 3, 4, 5, 8, 10, 20])
    if k == 0:      # lattice out-and-back with landing tips: ties between segments
        r = 64
        dt = 1 / r
        p = base(r, **{"wob.on": 0, "M": dt * dt, "K": 1 / dt, "sty.max": mx})
        n = g.randrange(2, 20)
        x = y = 0.0
        pts = []
        d = 1
        for i in range(n + 2):
            pts.append((x, y))
            if g.random() < .3:
                d = -d
            if g.random() < .8:
                x += d * g.choice([1, 1, 2, 0])
            else:
                y += g.choice([1, -1])
        ts = [i * dt * g.choice([1]) for i in range(n + 2)]
        b.add([pline(p)] + stroke(g, n, dt, pts=pts, ts=ts, sstyle=g.choice(["all", "coarse", "steps", "wrap"]),
                                  pq=.3), "lat")
    elif k == 1:    # lagging tips far from the inputs, path crossing itself
        r = pick_rate(g)
        p = spring(g, base(r, **{"wob.on": g.choice([0, 1]), "sty.max": mx}))
        b.add([pline(p)] + stroke(g, g.randrange(3, 30), dt_for(g, r), style=g.choice(["loop8", "back", "zigzag", "walk",
                                                                                       "circle", "grid"]),
                                  sstyle=g.choice(["all", "wrap", "coarse", "big"]), pq=.3), "lag")
    elif k == 2:    # orientation around the circle
        r = g.choice([180, 240])
        p = spring(g, base(r, **{"wob.on": 0, "sty.max": mx}))
        n = g.randrange(3, 12)
        c = [0.0, 1e-6, 1e-3, .1, PI / 2, PI - .01, PI, PI + .01, 3 * PI / 2, 2 * PI - .1, 2 * PI - 1e-3, 2 * PI - 1e-6,
             6.2831855, 6.28325, 6.2836, 6.284, 6.3, 7.0, 10.0, 12.6, 20.0, 100.0]
        sty = [(g.random(), g.random(), g.choice(c)) for _ in range(n + 2)]
        b.add([pline(p)] + stroke(g, n, dt_for(g, r), style=g.choice(["line", "smooth", "walk"]), sty=sty, pq=.3), "ori")
    elif k == 3:    # several strokes with different numbers of inputs
        r = pick_rate(g)
        L = []
        for _ in range(2):
            p = spring(g, base(r, **{"sty.max": g.choice([1, 2, 5, 10])}))
            L.append(pline(p))
            for _ in range(2):
                L += stroke(g, g.randrange(0, 16), dt_for(g, r), sstyle=g.choice(["all", "wrap"]), pq=.2, ps=.08)
        b.add(L, "multi")
    else:
        mixed(g, b)


# ---------------------------------------------------------------- C12
def c12(g, b):
    r = pick_rate(g)
    L = []
    for _ in range(2):
        dt = dt_for(g, r)
        p = spring(g, base(r, **{"wob.on": g.choice([0, 1]), "sty.max": g.choice([1, 2, 5, 10])}))
        k = g.random()
        if k < .3:
            normal(g, p, dt)
        elif k < .55:
            loop(g, p, .3 / dt, dt)
        if g.random() < .4:
            kalman(g, p, 1.0, dt)
        L.append(pline(p))
        for _ in range(2):
            n = g.randrange(1, 18)
            sty = [list(s) for s in stylus(g, n + 2, g.choice(["all", "wrap"]))]
            for _ in range(g.choice([0, 1, 1, 2, 3])):
                i = g.randrange(0, n + 2)
                f = g.choice([0, 1, 2])
                sty[i][f] = g.choice([-1.0, -1.0, -.5, NAN, -1e-30, -0.0, -INF, -7.0])
            b_ps = g.choice([0, .12])
            L += stroke(g, n, dt, sty=[tuple(s) for s in sty], pq=.3, ps=b_ps, pj=g.choice([0, .1]))
    b.add(L, "unk")


# ---------------------------------------------------------------- C13
def c13(g, b):
    k = g.randrange(4)
    r = pick_rate(g)
    dt = dt_for(g, r)
    if k == 0:      # exact window sizes
        r = 64
        dt = 1 / 64
        p = spring(g, base(r, **{"wob.on": 0}))
        normal(g, p, dt)
        p["sty.dur"] = g.choice([1, 2, 3, 4, 8]) * dt
        n = g.randrange(3, 25)
        t = 0.0
        ts = []
        for _ in range(n + 2):
            ts.append(t)
            t += dt * g.choice([1, 1, 1, 2, 0])
        b.add([pline(p)] + stroke(g, n, dt, ts=ts, style=g.choice(["circle", "back", "walk", "zigzag", "loop8", "grid"]),
                                  sstyle=g.choice(["all", "wrap"]), pq=.2), "win")
    elif k == 1:    # turning and crossing
        p = spring(g, base(r, **{"wob.on": g.choice([0, 1])}))
        normal(g, p, dt)
        b.add([pline(p)] + stroke(g, g.randrange(3, 30), dt, style=g.choice(["circle", "loop8", "zigzag", "back", "smooth"]),
                                  sstyle=g.choice(["all", "wrap"]), pq=.2), "turn")
    elif k == 2:    # straight lines along the axes, standing still: degenerate normals
        p = spring(g, base(r, **{"wob.on": 0}))
        normal(g, p, dt)
        n = g.randrange(1, 14)
        x = y = 0.0
        pts = []
        d = (1.0, 0.0)
        for _ in range(n + 2):
            pts.append((x, y))
            if g.random() < .2:
                d = g.choice([(1., 0.), (0., 1.), (-1., 0.), (0., 0.), (1., 1.)])
            x, y = x + .25 * d[0], y + .25 * d[1]
        b.add([pline(p)] + stroke(g, n, dt, pts=pts, sstyle=g.choice(["all", "wrap"]), pq=.2), "ax")
    else:
        mixed(g, b)


# ---------------------------------------------------------------- C14
def c14(g, b):
    k = g.randrange(4)
    r = pick_rate(g)
    dt = dt_for(g, r)
    if k == 0:      # exact windows
        r = 64
        dt = 1 / 64
        p = spring(g, base(r, **{"wob.on": 0}))
        loop(g, p, .3 / dt, dt)
        p["loop.win"] = g.choice([1, 2, 3, 4, 8]) * dt
        p["loop.n"] = g.choice([1, 2, 3, 5])
        n = g.randrange(3, 20)
        t = 0.0
        ts = []
        for _ in range(n + 2):
            ts.append(t)
            t += dt * g.choice([1, 1, 1, 2, 0, 3])
        b.add([pline(p)] + stroke(g, n, dt, ts=ts, step=.3, style=g.choice(["circle", "loop8", "smooth", "walk", "line"]),
                                  pq=.25), "win")
    else:
        p = spring(g, base(r, **{"wob.on": g.choice([0, 1])}))
        step = g.choice([.05, .3, 1.0])
        loop(g, p, step / dt, dt)
        if g.random() < .3:
            kalman(g, p, step, dt)
        if g.random() < .2:
            p["loop.lo"] = p["loop.hi"] = step / dt * g.choice([.3, .7, 1.0])
        L = [pline(p)]
        for _ in range(g.choice([1, 2])):
            L += stroke(g, g.randrange(2, 25), dt, step=step,
                        style=g.choice(["circle", "loop8", "smooth", "walk", "line", "spiral", "jump", "still"]),
                        sstyle=g.choice(["none", "all", "wrap", "partial"]), pq=.25, ps=g.choice([0, .08]))
        b.add(L, "gen")


# ---------------------------------------------------------------- C15
def c15(g, b):
    k = g.randrange(3)
    r = pick_rate(g)
    dt = dt_for(g, r)
    p = spring(g, base(r, **{"wob.on": g.choice([0, 1]), "iters": g.choice([1, 5, 20, 60]),
                             "stop": g.choice([.001, .01, .1, 1e-5])}))
    if p["wob.on"]:
        wobble(g, p, .2 / dt, dt)
    if k == 0:
        normal(g, p, dt)
    elif k == 1 and g.random() < .5:
        loop(g, p, .2 / dt, dt)
    if g.random() < .2:
        p["maxout"] = g.choice([3, 8, 20])
    L = [pline(p)]
    for _ in range(2):
        n = g.randrange(0, 12)
        pts = path(g, n + 2, 1.0, step=g.choice([.0, .05, .2, 1.0]))
        s = stroke(g, n, dt, pts=pts, pq=.8, ps=g.choice([0, .1]), upstyle=g.choice(["same", "sametime", "next"]))
        L += s
    b.add(L, "pe")


# ---------------------------------------------------------------- C16
def c16(g, b):
    r = pick_rate(g)
    dt = dt_for(g, r)
    scale = g.choice([1.0, 1.0, 10.0, .1, 100.0])
    p = spring(g, base(r, **{"wob.on": g.choice([0, 1])}))
    if p["wob.on"]:
        wobble(g, p, .2 * scale / dt, dt)
    kalman(g, p, scale, dt)
    k = g.random()
    if k < .2:
        normal(g, p, dt)
    elif k < .35:
        loop(g, p, .2 * scale / dt, dt)
    if g.random() < .1:
        p["maxout"] = g.choice([1, 2, 5, 12])
    step = g.choice([.02, .1, .3, 1.0]) * scale
    p["k.vmin"] = g.choice([0.0, .1, .5, 1.0]) * step / dt
    p["k.vmax"] = p["k.vmin"] + g.choice([0.0, .1, 1.0, 3.0]) * step / dt
    p["k.dev"] = g.choice([.1, 1.0, 5.0, 30.]) * step
    p["k.dist"] = g.choice([.1, .5, 2.0, 10.]) * step
    L = [pline(p)]
    for _ in range(g.choice([1, 2])):
        L += stroke(g, g.randrange(2, 28), dt, scale, step=step, pq=.45, ps=g.choice([0, .06]),
                    style=g.choice(["smooth", "smooth", "line", "circle", "spiral", "walk", "corner", "still", "back"]),
                    tstyle=g.choice(["even", "jitter", "even", "same", "gaps"]))
    if g.random() < .08:    # at rest from the start: exactly at the limits of the speeds and deviations
        q = {**p, "k.vmin": 0.0, "k.vmax": g.choice([0.0, 0.0, 1.0]), "k.stable": g.choice([1, 4])}
        n = g.randrange(5, 12)
        L = [pline(q)] + stroke(g, n, dt, pts=[(0.0, 0.0)] * (n + 2), pq=.6, tstyle="even")
    if g.random() < .1:     # all timestamps equal
        L += [iline("D", 0, 0, 1, .5, .5, .5)] + [x for i in range(6) for x in (iline("M", i + 1, i * i, 1, .5, .5, .5), "Q")]
    b.add(L, "ka")


# ---------------------------------------------------------------- long strokes
def long_stroke(g, b, prop):
    """More inputs, and larger windows, than any small bound hidden in the code."""
    r = pick_rate(g)
    dt = g.choice([.5, 1.0, 1.3]) / r
    step = g.choice([.05, .3, 1.0])
    p = spring(g, base(r, **{"wob.on": 0, "sty.max": g.choice([40, 70, 150])}))
    n = g.choice([70, 110, 180])
    style = g.choice(["box", "walk", "loop8", "smooth"])
    sty = None
    pq, iters, ps = .03, 20, 0.0
    if prop in ("C08", "C10", "C15") or g.random() < .2:
        wobble(g, p, step / dt, dt)
        p["wob.timeout"] = g.choice([30, 70, 130]) * dt
        p["wob.ceil"] = max(p["wob.ceil"], step / dt * 3)
    if prop in ("C13", "C14") or (prop == "C12" and g.random() < .5):
        if prop == "C14":
            loop(g, p, step / dt, dt)
            p["loop.win"], p["loop.n"] = g.choice([3, 30, 80, 140]) * dt, g.choice([1, 40, 90, 150])
        else:
            normal(g, p, dt)
        p["sty.min"], p["sty.dur"] = g.choice([1, 35, 70, 140]), g.choice([1, 40, 90]) * dt
        if prop == "C13" and g.random() < .6:
            p["sty.min"], n, style = g.choice([140, 160]), 180, g.choice(["box", "loop8"])
    if prop in ("C09", "C15"):
        iters = g.choice([150, 400, 1000])
        p["M"], p["K"] = g.choice([30.0, 200.0]) / r ** 2, g.choice([.3, .7, 1.0]) * r
        p["stop"] = 1e-4 * step
        n = g.choice([2, 10, 40])
    if prop == "C16":
        kalman(g, p, 1.0, dt)
        p.update({"k.times": g.choice([30, 60, 120]), "k.des": g.choice([25, 50, 100]), "k.stable": g.choice([4, 15, 40]),
                  "k.dist": 5 * step, "k.vmin": 0.0, "k.vmax": g.choice([.01, 1.0]) * step / dt, "k.dev": 10 * step,
                  "k.int": g.choice([20, 60, 150]) / r})
        style = g.choice(["smooth", "loop8", "line"])
        pq = .12
    if prop == "C12":
        sty = stylus(g, n + 2, "all")
        k = g.randrange(3)
        j = g.choice([40, 66])
        sty[j] = tuple(-1.0 if m == k else v for m, v in enumerate(sty[j]))
    if prop in ("C06", "C07"):
        p["angle"] = g.choice([-1, .1])
        p["maxout"] = g.choice([100, 300]) if prop == "C07" else 100000
        dt *= g.choice([1, 30, 90]) if g.random() < .6 else 1
        n = 30
    p["iters"] = iters
    b.add([pline(p)] + stroke(g, n, dt, step=step, style=style, pq=pq, sty=sty, sstyle=g.choice(["all", "wrap"]), t0=0.0), "long")


def burst(g, b, prop, many=None):
    """Calls that return hundreds or thousands of results."""
    r = g.choice([180, 1000, 64])
    dt = 1.0 / r
    step = g.choice([.3, 1.0, 5.0])
    p = spring(g, base(r, **{"wob.on": 0, "sty.max": g.choice([2, 3, 10]), "iters": g.choice([1, 20, 300])}))
    p["M"], p["K"] = g.choice([5.0, 30.0, 2000.0]) / r ** 2, g.choice([.05, .3, .7]) * r
    n = many or g.choice([130, 200, 256, 257, 300, 513, 700, 1025, 2049])
    if prop == "C13":
        normal(g, p, dt)
    if prop in ("C14", "C08"):
        loop(g, p, step / dt, dt)
        p["loop.win"], p["loop.n"] = g.choice([3, 30, 140]) * dt, g.choice([1, 10, 90])
    if prop == "C16":
        kalman(g, p, 1.0, dt)
        p.update({"k.dist": 500 * step, "k.vmin": 0.0, "k.vmax": .01 * step / dt, "k.dev": 1e6 * step, "k.int": n / r,
                  "k.jerk": 0.0, "k.acc": g.choice([0.0, .001])})
    if prop == "C15":
        p["M"], p["K"], p["stop"], p["iters"] = 2000.0 / r ** 2, .02 * r, 1e-5 * step, min(n, 1000)
    # The largest number of results that the call may have: enough, exactly enough, too few by one.
    p["maxout"] = n + g.choice([-1, 0, 0, 1]) if prop == "C07" else max(100000, 2 * n)
    k = g.choice([1, 2, 6])
    pts = [(step * (i + .3 * g.random()), step * g.random()) for i in range(k + 4)]
    gap = n - g.choice([0, .5, .5, .5])
    if prop in ("C15", "C16"):
        gap = 1
    ts = [0.0]
    for i in range(1, k + 4):
        ts.append(ts[-1] + dt * (gap if i == k + 1 else g.choice([.7, 1.0, 1.6])))
    b.add([pline(p)] + stroke(g, k + 2, dt, step=step, pts=pts, ts=ts, pq=1.0 if prop in ("C15", "C16") else 0,
                              sstyle=g.choice(["all", "wrap"]), upstyle="next"), "giant" if many else "burst")


# ---------------------------------------------------------------- C01
def c01(g, b):
    """Every kind of call in and out of order, with parameters and numbers of all kinds."""
    import gentree
    scale = g.choice([1.0, 1.0, .01, 100.0, 1e4])
    p, dt, step = mixed_params(g, scale)
    if g.random() < .5:
        p["maxout"] = g.choice([1, 2, 5, 8, 20, 60])
    p["maxout"] = min(p["maxout"], 500)
    L = [] if g.random() < .8 else [gentree.rejected(g, None, p, scale, dt) for _ in range(2)] + ["R", "Q"]
    L = [x for x in L if not x.startswith("P")] + [pline(p)]
    body = []
    for _ in range(g.choice([1, 2, 2, 3])):
        body += stroke(g, g.randrange(0, 9), dt, scale, step=step, pq=0, up=g.random() < .9,
                       sty=None if g.random() < .6 else [gentree.odd_stylus(g) for _ in range(11)],
                       t0=g.choice([None, 0.0, -3.0, -1000.5, 1e6, 123.456]))
        if not body[-1].startswith("I U") and g.random() < .7:
            body.append("R")
    L += [x for x in gentree.noisy(g, body, p, scale, dt, ["rej"]) if not x.startswith("P")]
    b.add(L, "any")


FAMILIES = {"C01": c01, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13,
            "C14": c14, "C15": c15, "C16": c16}


def rescaled(g, s):
    """The same scenario in other units, turned: the specification says what changes."""
    from gensym import T
    t = T(sp=g.choice([-12, -8, -5, -2, 0, 0, 2, 5, 9, 14]), tm=g.choice([-8, -4, -1, 0, 0, 0, 2, 5]), turn=g.randrange(4),
          mirror=g.random() < .5)
    return Scenario(s.name, [t.line(x) for x in s.lines])


def make(prop, seed, rnd, n):
    g = random.Random(f"{prop}/{seed}/{rnd}")
    b = B(f"{prop}r{rnd}")
    f = FAMILIES[prop]
    if prop != "C01":
        for _ in range(8):
            long_stroke(g, b, prop)
        for _ in range(8):
            burst(g, b, prop)
        if prop in ("C06", "C08"):
            burst(g, b, prop, 32800 if rnd == 0 else g.choice([10000, 40000, 66000]))
    while len(b.out) < n:
        f(g, b)
    return [rescaled(g, s) if g.random() < .4 else s for s in b.out]
