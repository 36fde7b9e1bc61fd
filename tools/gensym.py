"""C18: pairs of scenarios that differ by a change of units or coordinates."""
import random
import struct
from vf import Scenario
import gen
from gen import num

SPACE = {"wob.floor": 1, "wob.ceil": 1, "loop.lo": 1, "loop.hi": 1, "stop": 1, "k.vel": 1, "k.dist": 1, "k.vmin": 1, "k.vmax": 1,
         "k.dev": 1}
TIME = {"wob.timeout": 1, "wob.floor": -1, "wob.ceil": -1, "M": 2, "K": -1, "rate": -1, "loop.lo": -1, "loop.hi": -1, "loop.win": 1,
        "sty.dur": 1, "k.vel": -1, "k.int": 1, "k.vmin": -1, "k.vmax": -1}
FLOATS = {"wob.floor", "wob.ceil", "M", "K", "loop.lo", "loop.hi", "loop.slo", "loop.shi", "stop", "k.vel", "k.aw", "k.jw", "k.dist",
          "k.vmin", "k.vmax", "k.dev", "k.base"}


def f32(v):
    return struct.unpack("f", struct.pack("f", v))[0] if abs(v) < 3.4e38 else v


class T:
    def __init__(self, sp=0, tm=0, turn=0, mirror=False, dx=0.0, dy=0.0, dt=0.0):
        self.cmp = True     # compare the stylus state
        self.sp, self.tm, self.turn, self.mirror, self.dx, self.dy, self.dt = sp, tm, turn, mirror, dx, dy, dt

    def json(self):
        return {"sp": self.sp, "tm": self.tm, "turn": self.turn, "mirror": self.mirror, "cmp": self.cmp, "dx": bits(self.dx), "dy": bits(self.dy),
                "dt": bits(self.dt)}

    def point(self, x, y):
        x, y = x * 2.0 ** self.sp, y * 2.0 ** self.sp
        if self.mirror:
            x = -x
        for _ in range(self.turn):
            x, y = -y, x
        return x + self.dx, y + self.dy

    def line(self, line):
        t = line.split()
        if t[0] == "I":
            x, y = self.point(float(t[2]), float(t[3]))
            return " ".join(["I", t[1], num(x), num(y), num(float(t[4]) * 2.0 ** self.tm + self.dt)] + t[5:])
        if t[0] == "P":
            out = ["P"]
            for kv in t[1:]:
                k, v = kv.split("=")
                e = SPACE.get(k, 0) * self.sp + TIME.get(k, 0) * self.tm
                out.append(f"{k}={num(float(v) * 2.0 ** e)}" if e else kv)
            return " ".join(out)
        return line


def bits(v):
    return list(struct.unpack(">ii", struct.pack(">d", v)))


def quantise(line, pos=None, time=None):
    """Numbers that survive the change of units exactly."""
    t = line.split()
    if t[0] == "I":
        for i in (2, 3):
            v = float(t[i])
            t[i] = num(f32(round(v / pos) * pos if pos and abs(v) < 1e30 else v))
        if time:
            t[4] = num(round(float(t[4]) / time) * time)
        return " ".join(t)
    if t[0] == "P":
        return " ".join([t[0]] + [f"{k}={num(f32(float(v)))}" if k in FLOATS else f"{k}={v}"
                                  for k, v in (kv.split("=") for kv in t[1:])])
    return line


def scenario(g, scale, kind, style=None):
    p, dt, step = gen.mixed_params(g, scale, wild=False)
    if kind == "pos":
        p["angle"] = -1
        p["maxout"] = 100000
        p["rate"] = g.choice([180, 60, 120, 64])
        dt = gen.dt_for(g, p["rate"])
        gen.spring(g, p)
    if kind in ("pos", "time"):     # these change the rounding: nothing that amplifies it
        p["loop.on"] = 0
    if kind == "time":
        p["sty.proj"] = 0
        # thresholds that no difference of times hits exactly
        for k in ("wob.timeout", "loop.win", "sty.dur", "k.int"):
            if k in p and float(p[k]) > 0:
                p[k] = float(p[k]) * (1 + .01 * g.random()) + 1e-7
    for k in ("wob.timeout", "wob.floor", "wob.ceil", "loop.lo", "loop.hi", "loop.win", "sty.dur"):
        p.setdefault(k, 0.0)        # unused, but to be the same up to units
    L = [gen.pline(p)]
    for _ in range(g.choice([1, 1, 2])):
        L += gen.stroke(g, g.randrange(1, 22), dt, scale, step=step * g.choice([.3, 1, 1, 3]),
                        tstyle=g.choice(["even", "jitter", "gaps"]) if kind in ("pos", "time") else None,
                        t0=g.choice([0.0, 1.0, 5.5]) if kind == "time" else None,
                        style=style or (g.choice(["smooth", "line", "walk", "circle", "corner"]) if kind == "pos" else None),
                        pq=g.choice([0, .2, .5]) if kind != "pos" else 0, ps=g.choice([0, 0, .1]), pj=0 if style else g.choice([0, .1]))
        L.append("R")
    return L, p


def make(seed, rnd, n):
    """A list of (scenario, scenario, transformation)."""
    g = random.Random(f"C18/{seed}/{rnd}")
    out = []
    kinds = ["space", "clock", "turn", "mirror", "all", "time", "pos"]
    while len(out) < n:
        kind = kinds[len(out) % len(kinds)]
        scale = g.choice([1.0, 1.0, .01, 100.0]) if kind not in ("pos",) else 1.0
        style = "line" if kind == "time" and g.random() < .4 else None
        L, p = scenario(g, scale, kind, style)
        t = T()
        t.cmp = kind not in ("pos", "time") or style == "line"
        pos = tim = None
        if kind in ("space", "all"):
            t.sp = g.choice([-20, -13, -7, -3, 3, 7, 13, 20, 1, -1])
        if kind in ("clock", "all"):
            t.tm = g.choice([-10, -6, -3, -1, 1, 3, 6, 10])
        if kind in ("turn", "all"):
            t.turn = g.choice([1, 2, 3])
        if kind in ("mirror", "all") and not p["sty.proj"]:
            t.mirror = True
        elif kind == "mirror":
            t.turn = 2
        if kind == "time":
            t.dt = g.choice([1024.0, -64.0, 4096.0, 32768.0, -1.0, 100.0])
            tim = 2.0 ** -14
        if kind == "pos":
            t.dx, t.dy = g.choice([(64.0, -32.0), (-128.0, 0.0), (0.0, 100.0), (16.0, 16.0)])
            pos = 2.0 ** -10
        L = [quantise(x, pos, tim) for x in L]
        name = f"C18r{rnd}{kind}{len(out)}"
        out.append((Scenario(name, L), Scenario(name, [t.line(x) for x in L]), t))
    return out
