"""C20: values for the operations of the value types."""
import itertools
import random
import struct
from vf import Scenario
from gen import NAN, INF
from genparams import nxt

F = [0.0, -0.0, 1.0, -1.0, .5, 3.0, -2.5, 1e-3, 1e-45, -1e-45, 1e-38, 1e-20, -1e-20, 1e19, -2e19, 1e38, 3.4028234e38, -3.4028234e38,
     INF, -INF, NAN]
D = F + [1e300, -1e300, 5e-324, 1e-300, 1.7e308, .1, 1 + 2 ** -52, 1 - 2 ** -53, 1e9, 1e9 + 1e-6]


def r32(v):
    return repr(struct.unpack("f", struct.pack("f", max(-3.4028234e38, min(3.4028234e38, v))))[0] if abs(v) != INF and v == v else v)


def val(g, k):
    if k == 0:
        return g.choice(F)
    if k == 1:
        return g.uniform(-10, 10)
    if k == 2:
        return float(g.randrange(-4, 5))
    return g.choice([1, -1]) * 10 ** g.uniform(-44, 38)


def vec(g):
    k = g.randrange(4)
    return [val(g, k), val(g, k)]


def fields(g, n):
    """Values that a text of six digits tells apart."""
    out = []
    while len(out) < n:
        v = round(g.choice([g.uniform(-100, 100), g.uniform(0, 1), 10 ** g.uniform(-6, 6)]), 5)
        if v and all(abs(v - w) > 1e-3 * abs(v) for w in out):
            out.append(v)
    return out


def pairs(g, n, ev):
    """Two records: equal, or different in one or more fields, or with a NaN or a signed zero."""
    a = fields(g, n)
    b = list(a)
    kind = g.randrange(8)
    if kind < 4:
        i = g.randrange(n)
        b[i] = g.choice([nxt(r32f(b[i])), nxt(r32f(b[i]), False), -b[i], b[i] + 1, NAN, INF])
    elif kind == 4:
        i = g.randrange(n)
        a[i] = b[i] = g.choice([NAN, INF, -INF, 0.0])
    elif kind == 5:
        i = g.randrange(n)
        a[i], b[i] = 0.0, -0.0
    elif kind == 6:
        i, k = g.sample(range(n), 2)
        b[i], b[k] = b[k], b[i]
    return a, b


def r32f(v):
    return struct.unpack("f", struct.pack("f", v))[0]


def make(seed, rnd, n):
    g = random.Random(f"C20/{seed}/{rnd}")
    lines = []
    if rnd == 0:
        lines.append("K")
        for a, b in itertools.product(F, F):
            lines.append("V " + " ".join(map(repr, (a, b, b, a, b))))
            lines.append("V " + " ".join(map(repr, (a, a, b, 1.0, a))))
            lines.append("V " + " ".join(map(repr, (a, 0.0, b, 0.0, 2.0))))
        for a, b in itertools.product(D, D):
            lines.append("D " + " ".join(map(repr, (a, b, a if len(lines) % 2 else b))))
        # every single field differing
        for i in range(7):
            for e, e2 in (("D", "D"), ("M", "M"), ("U", "U"), ("D", "M"), ("M", "U"), ("U", "D"), ("3", "4"), ("-1", "D")):
                a = fields(g, 6)
                for d in (1.0, nxt(0.0), 1e-3, NAN):
                    b = list(a)
                    if i < 6:
                        b[i] = nxt(r32f(b[i])) if d == nxt(0.0) else b[i] + d
                    lines.append(f"E {e} " + " ".join(map(repr, a)) + f" {e2} " + " ".join(map(repr, b)))
                    lines.append(f"E {e} " + " ".join(map(repr, b)) + f" {e2} " + " ".join(map(repr, a)))
        for i in range(11):
            for d in (1.0, nxt(0.0), 1e-3, NAN, INF):
                a = fields(g, 10)
                b = list(a)
                if i < 10:
                    b[i] = nxt(r32f(b[i])) if d == nxt(0.0) else b[i] + d
                lines.append("R " + " ".join(map(repr, a)) + " " + " ".join(map(repr, b)))
                lines.append("R " + " ".join(map(repr, b)) + " " + " ".join(map(repr, a)))
    while len(lines) < n:
        k = g.random()
        if k < .45:
            a, b = vec(g), vec(g)
            if g.random() < .3:
                s = g.choice([1.0, -1.0, 2.0, .5, 1e-3, 1e10])
                b = [a[0] * s, a[1] * s]
                if g.random() < .4:
                    b = [-b[1], b[0]]
            lines.append("V " + " ".join(r32(v) for v in a + b + [val(g, g.randrange(4))]))
        elif k < .7:
            a, b = [g.choice(D) if g.random() < .4 else g.uniform(-10, 10) for _ in range(2)]
            if g.random() < .2:
                b = a
            lines.append("D " + " ".join(map(repr, (a, b, g.choice(D) if g.random() < .3 else g.uniform(-4, 4)))))
        elif k < .85:
            a, b = pairs(g, 6, True)
            e, e2 = g.choice(["D", "M", "U", "3", "-1"]), g.choice(["D", "M", "U", "3"])
            if g.random() < .6:
                e2 = e
            lines.append(f"E {e} " + " ".join(map(repr, a)) + f" {e2} " + " ".join(map(repr, b)))
        else:
            a, b = pairs(g, 10, False)
            lines.append("R " + " ".join(map(repr, a)) + " " + " ".join(map(repr, b)))
    return [Scenario(f"C20r{rnd}x{i}", lines[i:i + 40]) for i in range(0, len(lines), 40)]
