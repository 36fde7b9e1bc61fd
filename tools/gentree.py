"""Groups of walks for TraceTree.tla (C02-C05): the same strokes with and without what must not matter."""
import random
import gen
from gen import iline, pline, NAN, INF


def parse(line):
    t = line.split()
    return t[1], [float(v) for v in t[2:]]


def bad_params(g, p):
    q = dict(p)
    k = g.randrange(9)
    if k == 0:
        q["rate"] = g.choice([0.0, -1.0, NAN, INF])
    elif k == 1:
        q["M"] = g.choice([0.0, -1.0, NAN])
    elif k == 2:
        q["iters"] = g.choice([0, -3, 1001])
    elif k == 3:
        q["maxout"] = g.choice([0, -1])
    elif k == 4:
        q["stop"] = g.choice([-1.0, NAN, 0.0])
    elif k == 5:
        q.update({"wob.on": 1, "wob.timeout": .1, "wob.floor": 3.0, "wob.ceil": 1.0})
    elif k == 6:
        q.update({"sty.proj": 0, "sty.max": 0})
    elif k == 7:
        q.update({"pred": "kal", "k.pn": -1.0})
    else:
        q.update({"K": -5.0, "pred": g.choice(["off", "end"])})
    return q


def odd_stylus(g):
    return tuple(g.choice([-1.0, .3, .8, NAN, -7.0, 0.0, 5.0]) for _ in range(3))


def rejected(g, last, p, scale, dt):
    """A call that ought to be refused after the accepted input `last` (None: idle). If it is not, the walk just goes elsewhere."""
    k = g.random()
    if k < .15:
        return pline(bad_params(g, p))
    if last is None:
        e = g.choice(["M", "U", "M", "U", "X", "D"])
        x = [g.uniform(-5, 5) * scale, g.uniform(-5, 5) * scale, g.choice([0.0, 5.0, 1e9, -1e9])]
        if e == "D":
            x[g.randrange(3)] = g.choice([NAN, INF, -INF])
        return iline("9" if e == "X" else e, *x, *odd_stylus(g))
    e, v = last
    x, y, t = v[:3]
    sty = g.choice([tuple(v[3:]), odd_stylus(g), (.5, .5, .5)])
    k = g.randrange(11)
    xx, yy = g.choice([(x, y), (x + g.uniform(-9, 9) * scale, y + g.uniform(-9, 9) * scale)])
    if k == 0:
        return iline(e, x, y, t, *v[3:])
    if k == 1:
        return iline(g.choice("MMU"), xx, yy, t - g.choice([1e-9, 1e-6, dt * .5, dt, 10 * dt, 100.0]) * (1 + abs(t) * 1e-5), *sty)
    if k == 2:
        return iline("D", xx, yy, t + g.choice([0.0, dt, 1.0, 100.0]), *sty)
    if k in (3, 4):
        w = [xx, yy, t + dt]
        w[g.randrange(3)] = g.choice([NAN, INF, -INF])
        return iline(g.choice("MMUD"), *w, *sty)
    if k in (5, 6, 7):      # too far
        mo, r = p["maxout"], float(p["rate"])
        d = (mo + g.choice([.5, 1.0, 2.0, 30.0])) / r if mo < 1000 and g.random() < .8 else g.choice([1e4, 1e7, 1e9])
        return iline(g.choice("MMU"), xx, yy, t + d, *sty)
    if k == 8:
        return iline(g.choice(["3", "-1", "77"]), xx, yy, t + dt, *sty)
    if k == 9:              # enormous
        return iline(g.choice("MU"), g.choice([3e38, -3e38]), yy, t + dt, *sty)
    return iline("D", x, y, t, *v[3:])


def other_life(g, scale, noise=True):
    """Something that happens before: configurations, strokes, some abandoned."""
    L = []
    for _ in range(g.choice([1, 1, 2, 3])):
        p, dt, step = gen.mixed_params(g, scale * g.choice([1, 1, 10, .1]), wild=g.random() < .2)
        L.append(pline(p))
        for _ in range(g.choice([0, 1, 1, 2])):
            L += gen.stroke(g, g.randrange(0, 14), dt, scale, step=step, pq=.3, ps=.15 if noise else 0,
                            up=g.random() < .6, sty=None, sstyle=g.choice(["none", "all", "partial", "big", None]),
                            t0=g.choice([None, 0.0, 50.0, -50.0]))
            if not L[-1].startswith("I U") and g.random() < .5:
                L.append("R")
    return L


def detour(g, last, scale, dt, p):
    """What happens between a save and the restore that undoes it."""
    L = []
    x, y, t = last[1][:3] if last else (0.0, 0.0, 0.0)
    live = last is not None
    for _ in range(g.choice([1, 1, 2, 3, 5, 9])):
        k = g.random()
        if k < .55 and live:
            t += dt * g.choice([0, .1, 1, 1, 2, 5])
            x += g.uniform(-2, 2) * scale
            y += g.uniform(-2, 2) * scale
            L.append(iline("M", x, y, t, *g.choice([odd_stylus(g), (.2, .3, 4.0)])))
        elif k < .65 and live:
            L.append(iline("U", x + g.uniform(-1, 1) * scale, y, t + dt, *odd_stylus(g)))
            live = False
        elif k < .8:
            L.append("Q")
        elif k < .93:
            L.append(rejected(g, ("M", [x, y, t, .5, .5, .5]) if live else None, p, scale, dt))
        elif not live and last is None:
            L.append(iline("D", x, y, t, .4, .4, .4))
            live = True
    return L


def noisy(g, lines, p, scale, dt, kinds):
    """The walk `lines` (params and inputs) with things inserted that must not matter."""
    L = []
    last = None
    for ln in lines:
        L.append(ln)
        if ln.startswith("P"):
            last = None
        elif ln.startswith("I"):
            e, v = parse(ln)
            last = None if e == "U" else (e, v)
        dens = g.choice([.2, .5])
        if "rej" in kinds and g.random() < dens:
            for _ in range(g.choice([1, 1, 2, 3])):
                L.append(rejected(g, last, p, scale, dt))
        if "q" in kinds and g.random() < dens:
            L += ["Q"] * g.choice([1, 1, 2, 4])
        if "save" in kinds and g.random() < dens * .6:
            L.append("S")
            if g.random() < .2:
                L.append("S")
            for _ in range(g.choice([1, 1, 2])):
                L += detour(g, last, scale, dt, p) if g.random() < .85 else []
                L.append("T")
                if g.random() < .3:
                    L.append("Q")
        if "rej" in kinds and g.random() < .1:
            L.append("Q")
    return L


def probe(lines):
    """Predictions at every step of a walk."""
    out = []
    for ln in lines:
        out += [ln, "Q"]
    return out


def group(g, prop):
    scale = g.choice([1.0, 1.0, 1.0, .01, 100.0])
    p, dt, step = gen.mixed_params(g, scale, wild=g.random() < .15)
    if g.random() < .35:
        p["maxout"] = g.choice([4, 8, 20, 60])
    if prop == "C05" and p["pred"] == "off" and g.random() < .7:
        p["pred"] = "end"
    strokes = []
    for _ in range(g.choice([1, 1, 2, 3])):
        strokes.append(gen.stroke(g, g.randrange(1, 16), dt, scale, step=step * g.choice([.3, 1, 1, 3]), pq=0,
                                  up=True, t0=g.choice([None, None, 0.0, -20.0])))
    one = [pline(p)]
    whole = one + [ln for s in strokes for ln in s]
    pure = {"C02": ["rej"], "C03": [], "C04": ["save"], "C05": ["q"]}[prop]
    walks = [probe(whole)]
    if prop == "C03":
        # each stroke on its own, and behind another life
        for s in strokes[1:]:
            walks.append(probe(one + s))
        for _ in range(3):
            pre = other_life(g, scale)
            walks.append(pre + probe(one + g.choice(strokes)))
        # another stroke first, with the same parameters
        for _ in range(2):
            pre = gen.stroke(g, g.randrange(0, 20), dt, scale * g.choice([1, 1, 5, .2]), step=step, pq=.2, ps=.1, pj=.1,
                             up=g.random() < .6)
            if not pre[-1].startswith("I U"):
                pre.append("R")
            walks.append(one + pre + probe(g.choice(strokes)))
    else:
        for _ in range(g.choice([3, 4])):
            kinds = pure if g.random() < .6 else pure + g.choice([["rej"], ["q"], ["save"], ["rej", "q", "save"]])
            w = noisy(g, whole, p, scale, dt, kinds)
            if g.random() < .25:
                w = other_life(g, scale) + w
            walks.append(w)
        if prop == "C05":
            walks.append(whole)
    return walks


def long_group(g, prop):
    """As group(), but with long strokes and hundreds of calls of one modeler: what adds up slowly must not matter either."""
    scale = g.choice([1.0, 1.0, .01, 100.0])
    p, dt, step = gen.mixed_params(g, scale)
    p["maxout"] = 100000
    if prop == "C05" and p["pred"] == "off":
        p["pred"] = "end"
    if prop == "C03":
        strokes = [gen.stroke(g, g.randrange(0, 7), dt, scale, step=step, pq=0, up=True, t0=None) for _ in range(40)]
    else:
        strokes = [gen.stroke(g, g.choice([90, 150]), dt, scale, step=step, pq=0, up=True)]
    one = [pline(p)]
    whole = one + [ln for s in strokes for ln in s]
    if prop == "C03":
        return [probe(whole)] + [probe(one + s) for s in strokes[1::3]] + [one + [ln for s in g.sample(strokes, 30) for ln in s]]
    kinds = {"C02": ["rej"], "C04": ["save"], "C05": ["q"]}[prop]
    walks = [whole, noisy(g, whole, p, scale, dt, kinds), noisy(g, whole, p, scale, dt, kinds + ["rej", "q", "save"])]
    if prop == "C04":
        # one save, many returns to it; and saves all along, no return
        k = g.randrange(2, len(whole) - 2)
        last = parse(whole[k])
        back = [ln for _ in range(60) for ln in detour(g, last, scale, dt, p)[:4] + ["T"]]
        walks.append(whole[:k + 1] + ["S"] + back + whole[k + 1:])
        walks.append([x for ln in whole for x in (ln, "S")] + ["T"])
    if prop == "C05":
        k = g.randrange(2, len(whole) - 2)
        walks.append(whole[:k + 1] + ["Q"] * 300 + whole[k + 1:])
    if prop == "C02":
        k = g.randrange(2, len(whole) - 2)
        last = parse(whole[k])
        rej = [ln for ln in (rejected(g, last, p, scale, dt) for _ in range(300)) if "e+38" not in ln]
        walks.append(whole[:k + 1] + rej + whole[k + 1:])
    return walks


def make(prop, seed, rnd, n):
    g = random.Random(f"tree/{prop}/{seed}/{rnd}")
    return [group(g, prop) if k % 40 else long_group(g, prop) for k in range(n)]
