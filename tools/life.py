"""C01-C05: behaviours generated by TLC from Lifecycle.tla, replayed into the code by harness/life.cc."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import vf


def I(*ks):
    return [["I", k] for k in ks]


def P(*ks):
    return [["P", k] for k in ks]


Q, S, T, R = [["Q"]], [["S"]], [["T"]], [["R"]]
B = [["B", k] for k in range(1, 7)]
GOOD = I("D", "Dpast", "M1", "M2", "M4", "Mtiny", "Mstill", "Msame", "Msty", "Munk", "Medge", "Utiny", "Uunk", "U1", "U3", "Usame", "Ujump", "Uedge")
BAD = I("Dback", "Dbad", "X", "Mover", "Mfar", "Mback", "Mbad", "dup", "Uover", "Uback", "Ubad", "Mback1", "Uback1", "Mpast", "Ufar")
ALLP = P(*range(1, 9))
PROBE = Q + I("M2") + Q + I("M1", "M1") + Q + T + Q + I("M1") + Q + I("U1", "D", "M1") + Q + T + I("M1") + Q

# (prefix, ops, length) explored exhaustively; thorough adds one to the length where given.
BFS = {
    "C01": [([], I("D", "M1", "U1", "Dbad", "X") + R + P(1) + B[:1], 4),
            (P(1), I("D", "Dback", "Dunk", "Dbad", "Dpast", "X", "M1", "Msame", "Mover", "Mback1", "Mbad", "dup", "U1", "Usame",
                     "Uback", "Ubad", "Uover"), 3),
            (P(5) + I("D"), GOOD + BAD, 2),
            (P(2) + I("D", "M1"), GOOD + BAD, 2),
            (P(8) + I("D", "M2", "M1"), GOOD + BAD + R, 2),
            (P(3) + I("D", "M1", "U1"), GOOD + BAD + R, 2)],
    "C02": [(P(1) + I("D", "M1", "M2"), BAD + B + I("M1", "D") + T, 2),
            (P(4) + I("D", "M1", "M1") + S + I("M1"), BAD + B[:2] + I("M1", "U1") + T + Q, 2),
            (P(2) + I("D", "M1", "M1"), BAD + B[:3] + I("M1", "U1"), 2),
            (P(6) + I("D", "M4", "Munk"), BAD + B[2:4] + I("Msty"), 2),
            (P(3) + I("D", "M1", "M1"), BAD + Q + B[:1] + R, 2),
            (P(5) + I("D", "M1") + S + I("M1", "U1"), BAD + B[:2] + I("D") + T, 2),
            ([], BAD + I("D", "M1", "U1") + R + Q + S + T + B + P(1), 2)],
    "C03": [(P(1) + I("D", "M1", "Munk"), I("U1", "D", "M1", "Msame") + R + ALLP + Q, 3),
            (P(4) + I("D", "M1", "M1", "M2"), I("U1", "D", "M1") + R + P(4, 5, 2, 3, 1), 4),
            (P(2) + I("D", "M1", "M1", "M2", "U1"), I("D", "M1", "U1") + R + P(2, 6, 7) + Q, 4),
            (P(6) + I("D", "M1", "M1", "M1"), I("U1", "Dback", "Dunk", "M1") + R + P(6, 8), 4)],
    "C04": [(P(1) + I("D", "M1"), S + T + I("M1", "M4", "Munk", "U1", "D") + R + Q, 4),
            (P(4) + I("D", "M1", "M1"), S + T + I("M1", "U1", "D", "Mover") + P(2), 4),
            (P(6) + I("D", "M1", "M1", "M1"), S + T + I("M1", "Msame", "U3", "D") + R, 4),
            (P(2) + I("D", "M1", "M1"), S + T + I("M2", "U1", "D") + P(3, 1), 4),
            (P(5) + S, T + S + I("D", "M1", "U1", "Usame"), 5),
            ([], S + T + P(2) + I("D", "M1") + R + Q, 5)],
    "C05": [(P(1) + I("D", "M1"), Q + I("M1", "Msame", "Munk", "U1", "D", "Mover") + R, 4),
            (P(4) + I("D", "M1", "M1"), Q + S + T + I("M1", "M2", "U1", "D"), 4),
            (P(6) + I("D", "M1", "M1"), Q + I("M1", "M4", "Mfar", "U1", "D") + P(3, 2), 4),
            (P(8) + I("D"), Q + I("M1", "Msame", "U1", "D") + S + T, 4),
            (P(3), Q + I("D", "M1", "U1") + P(5) + R, 4),
            ([], Q + P(1, 3, 2) + I("D", "M1", "U1") + B[:1], 4)],
}
# Menus of the long random behaviours.
STROKE = I("Mtiny", "M1", "M1", "M1", "M2", "M2", "M4", "Mstill", "Msame", "Msty", "Munk", "Medge")
WALK = {
    "C01": I("D", "D", "Dpast", "Dfut", "Dunk", "U1", "U3", "Uunk", "Usame", "Ujump", "Uedge") + STROKE + BAD + R + ALLP + B[:2],
    "C02": I("D", "D", "U1") + STROKE + STROKE + BAD + BAD + B + Q + Q + S + T + R + P(1, 2, 4),
    "C03": I("D", "D", "D", "D", "U1", "U1", "U3", "Usame", "Dunk", "Dback") + STROKE + STROKE + Q + Q + R + ALLP,
    "C04": I("D", "D", "D", "U1", "U1", "Ujump", "Dback") + STROKE + STROKE + Q * 4 + S * 5 + T * 5 + R + P(1, 2, 3, 4, 5, 6)
           + I("Mover", "dup"),
    "C05": I("D", "D", "D", "U1", "U1") + STROKE + STROKE + Q * 10 + S + T + R + ALLP + I("Mover", "Mback"),
}


def to_text(name, hist):
    L = [f"N {name}"]
    for h in hist:
        o = h["o"]
        i = h["i"]
        args = {"I": f"I {i['e']} {i['x']} {i['y']} {i['t']} {i['s']} {i['bad'] or '-'}",
                "P": f"P {h['a']}", "B": f"B {h['a']}"}.get(o, o)
        L.append(f"{args} {','.join(sorted(h['st']))} {h['c']} {len(h['b'])}" + "".join(f" {b}" for b in h["b"]))
    return "\n".join(L) + "\n"


def task(exe, work, idx, spec, seed, walks, clk, vals):
    """One generation task: TLC, then replay. Returns (bad, stats, sample)."""
    prefix, ops, length = spec
    gp = os.path.join(work, f"g{idx}.json")
    with open(gp, "w") as f:
        json.dump({"prefix": prefix, "ops": ops, "len": length, "suffix": PROBE, "clk": clk, "seed": vals}, f)
    if walks:
        r = vf.run_tlc("LifeGen", cfg="LifeGenRandom.cfg", env={"VF_GEN": gp},
                       args=["-simulate", f"num={walks}", "-depth", str(length + 5), "-seed", str(seed)])
    else:
        r = vf.run_tlc("LifeGen", env={"VF_GEN": gp})
    if not r.ok or r.violated:
        raise vf.MachineryError(f"TLC reports an error in LifeGen (task {idx}):\n" + r.out[-3000:])
    seqs = [m for t, m in r.messages if t == "SEQ"]
    if not seqs:
        raise vf.MachineryError("TLC generated no behaviour:\n" + r.out[-2000:])
    sp = os.path.join(work, f"b{idx}.txt")
    texts = {}
    with open(sp, "w") as f:
        for k, h in enumerate(seqs):
            t = to_text(f"t{idx}s{k}", h)
            texts[f"t{idx}s{k}"] = t
            f.write(t)
    bad, done = replay(exe, sp)
    st = {"states": r.distinct, "transitions": r.generated, "seqs": len(seqs), "ops": done.get("ops", 0),
          "results": done.get("results", 0), "refs": done.get("refs", 0)}
    for b in bad:
        b["text"] = texts.get(b["n"], "")
        b["file"] = sp
    return bad, st, texts[f"t{idx}s0"]


def replay(exe, path):
    kind, out = vf.run_prog(exe, [path], timeout=300)
    bad, done = [], {}
    for line in out.splitlines():
        if line.startswith("BAD "):
            bad.append(json.loads(line[4:]))
        elif line.startswith("DONE "):
            done = json.loads(line[5:])
    if kind != "ok":
        bad.append({"n": "?", "k": 0, "op": "?", "kinds": kind, "got": out[-1500:]})
    elif not done:
        raise vf.MachineryError("life driver gave no summary: " + out[-500:])
    return bad, done


def check(prop, tier, seed, ev, violation):
    exe = os.path.join(vf.build("plain", ("life",)), "life")
    work = vf.scratch()
    try:
        tasks = []
        deep = 0 if tier == "quick" else 1
        g = random.Random(f"{prop}/{seed}")
        clocks = [1, 0, -64, 64000, -64000, 777, -5]
        for n, s in enumerate(BFS[prop]):
            tasks.append(((s[0], s[1], s[2] + deep), 0, 0, g.choice(clocks), 0 if n % 3 == 2 else g.randrange(1, 90000)))
        for i in range(4 if tier == "quick" else 24):
            tasks.append((([], P(g.randrange(1, 9)) + WALK[prop], g.choice([25, 40, 60])), g.randrange(1 << 30),
                          120 if tier == "quick" else 400, 0, g.randrange(1, 90000)))
        # random prefixes, explored exhaustively behind
        for i in range(4 if tier == "quick" else 16):
            pre = P(g.randrange(1, 9)) + I("D") + [g.choice(STROKE + Q + S) for _ in range(g.randrange(1, 6))]
            menu = [g.choice(WALK[prop]) for _ in range(9)]
            tasks.append(((pre, menu, 3 + deep), 0, 0, g.choice(clocks), g.randrange(1, 90000)))
        tot = {}
        samples = []
        bad = []
        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            futs = [ex.submit(task, exe, work, k, *t) for k, t in enumerate(tasks)]
            for fu in futs:
                b, st, sample = fu.result()
                bad += b
                for k, v in st.items():
                    tot[k] = tot.get(k, 0) + v
                if len(samples) < 3:
                    samples.append(sample)
        bad = [b for b in bad if relevant(prop, b)]
        if bad:
            report(prop, exe, work, bad, violation)
        ev.update({"states": tot["states"], "transitions": tot["transitions"],
                   "traces_validated_against_impl": tot["seqs"], "samples": samples, "operations": tot["ops"],
                   "results": tot["results"], "canonical_histories": tot["refs"],
                   "exhaustive_families": len(BFS[prop]), "spec": "Lifecycle.tla / LifeGen.tla"})
    finally:
        shutil.rmtree(work, ignore_errors=True)


def relevant(prop, b):
    kinds = set(b["kinds"].split())
    if kinds & {"crash", "hang"}:
        return True
    if prop == "C01":
        return bool(kinds & {"status", "empty", "down", "pre", "refreset", "refinput"})
    return True


def report(prop, exe, work, bad, violation):
    for b in bad[:6]:
        if b.get("text"):
            p = os.path.join(work, "one.txt")
            vf.write_file(p, b["text"])
            again, _ = replay(exe, p)
            again = [x for x in again if relevant(prop, x)]
            if again:
                raise violation(f"# property {prop}, replay with harness/life.cc: {json.dumps(again[0])}\n" + b["text"],
                                json.dumps(again[0]))
        again, _ = replay(exe, b["file"]) if b.get("file") else ([], {})
        again = [x for x in again if relevant(prop, x)]
        if again:
            with open(b["file"]) as f:
                raise violation(f"# property {prop}, replay with harness/life.cc: {json.dumps(again[0])}\n" + f.read(),
                                json.dumps(again[0]))
