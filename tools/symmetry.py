"""C18: runs pairs of scenarios and checks the paired logs against TraceSymmetry.tla."""
import concurrent.futures as cf
import json
import os
import shutil
import model
import vf


def validate(exe, pairs, jobs=vf.JOBS):
    work = vf.scratch()
    problems, stats = [], {"states": 0, "transitions": 0}

    def one(a):
        i, part = a
        logs = []
        probs = []
        for side in (0, 1):
            sp, lp = os.path.join(work, f"s{i}{side}.txt"), os.path.join(work, f"l{i}{side}.ndjson")
            vf.write_file(sp, "".join(p[side].text() for p in part))
            kind, detail = vf.run_prog(exe, [sp, lp])
            if kind != "ok":
                probs.append({"n": part[0][0].name, "l": 0, "call": "?", "f": [kind], "w": detail})
            with open(lp) as f:
                logs.append([x.rstrip("\n") for x in f if x.endswith("}\n") and not x.startswith('{"o":"Z"')])
        byname = {p[0].name: json.dumps(p[2].json()) for p in part}
        out = []
        for a, b in zip(*logs):
            x = ""
            if a.startswith('{"o":"N"'):
                x = ',"x":' + byname[json.loads(a)["n"]]
            out.append('{"a":' + a + ',"b":' + b + x + "}")
        out.append('{"a":{"o":"Z"},"b":{"o":"Z"}}')
        zp = os.path.join(work, f"z{i}.ndjson")
        vf.write_file(zp, "\n".join(out) + "\n")
        r = vf.run_tlc("TraceSymmetry", env={"VF_LOG": zp})
        done = [m for t, m in r.messages if t == "DONE"]
        gen = [m for t, m in r.messages if t == "GENERATOR"]
        probs += [m for t, m in r.messages if t == "MISMATCH"]
        if not done or gen:
            raise vf.MachineryError(f"TLC did not accept the paired log {gen[:2]}:\n" + r.out[-1500:])
        return probs, done[0], r, part

    try:
        parts = [pairs[i::jobs] for i in range(jobs) if pairs[i::jobs]]
        with cf.ThreadPoolExecutor(jobs) as ex:
            for probs, done, r, part in ex.map(one, list(enumerate(parts))):
                for p in probs:
                    p["part"] = part
                problems += probs
                stats["states"] += r.distinct
                stats["transitions"] += r.generated
                for k, v in done.items():
                    stats[k] = stats.get(k, 0) + v
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return problems, stats


def firm(exe, probs):
    """Without the disagreements about what rounding decides in at least one of the two runs (TraceModel in many modes)."""
    probs = list({p["n"]: p for p in reversed(probs)}.values())[:32]

    def one(p):
        mine = [x for x in p["part"] if x[0].name == p["n"]]
        f = {"s" if k in ("pr", "ti", "or") else k for k in p["f"]}
        if len(mine) != 1 or f & {"crash", "hang", "status"}:
            return True
        again, _ = validate(exe, mine, jobs=1)
        if not again:
            return True
        ln = again[0]["l"]
        for side in (0, 1):
            lo = model.loose(exe, mine[0][side], 24).get(ln, set())
            if "all" in lo or (f <= lo):
                return False
        return True

    with cf.ThreadPoolExecutor(vf.JOBS) as ex:
        return [p for p, k in zip(probs, ex.map(one, probs)) if k]
