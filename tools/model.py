"""Trace validation of recorded calls against Modeler.tla (C06-C16)."""
import heapq
import os
import shutil
import concurrent.futures as cf
import vf


def split(scens, k):
    """k parts of about the same cost."""
    def cost(s):
        return len(s.lines) + 4 + (7000 if "giant" in s.name else 250 if "burst" in s.name else 0)

    parts = [(0, i, []) for i in range(k)]
    for s in sorted(scens, key=lambda s: -cost(s)):
        w, i, part = heapq.heappop(parts)
        part.append(s)
        heapq.heappush(parts, (w + cost(s), i, part))
    return [part for w, i, part in sorted(parts, key=lambda x: x[1]) if part]


def validate(exe, scens, module="TraceModel", work=None, jobs=vf.JOBS, driver_timeout=120, tlc_timeout=600, san=False, modes=None):
    """Runs the scenarios through the driver and TLC. Returns (problems, stats); a problem is a dict."""
    own = work is None
    work = work or vf.scratch()
    problems, stats = [], {"states": 0, "transitions": 0}

    def one(args):
        i, part = args
        sp, lp = os.path.join(work, f"s{i}.txt"), os.path.join(work, f"l{i}.ndjson")
        vf.write_file(sp, "".join(s.text() for s in part))
        kind, detail = vf.run_prog(exe, [sp, lp], timeout=driver_timeout, san=san,
                                   env={"VF_MAXLOG": "100000"} if module == "TraceModel" else None)
        probs = []
        if kind != "ok":
            name = part[0].name
            nlines = 0
            with open(lp) as f:
                for line in f:
                    if line.startswith('{"o":"N"'):
                        name = line.split('"n":"')[1].split('"')[0]
                    nlines += 1
            probs.append({"n": name, "l": nlines, "call": "?", "f": [kind], "w": detail})
            # keep only complete lines
            with open(lp) as f:
                txt = f.read()
            txt = txt[:txt.rfind("\n") + 1]
            vf.write_file(lp, txt + '{"o":"Z","n":"0","live":0}\n')
        r = vf.run_tlc(module, env={"VF_LOG": lp, **({"VF_MODES": str(modes)} if modes else {})}, timeout=tlc_timeout)
        done = [m for t, m in r.messages if t == "DONE"]
        for t, m in r.messages:
            if t == "MISMATCH":
                probs.append(m)
        if not done:
            raise vf.MachineryError(f"TLC did not reach the end of the log ({module}):\n" + r.out[-3000:])
        os.remove(lp)
        return probs, done[0], r, part

    try:
        parts = split(scens, jobs)
        with cf.ThreadPoolExecutor(jobs) as ex:
            for probs, done, r, part in ex.map(one, list(enumerate(parts))):
                for p in probs:
                    p["part"] = part
                problems += probs
                stats["states"] += r.distinct
                stats["transitions"] += r.generated
                for k, v in done.items():
                    if isinstance(v, int):
                        stats[k] = stats.get(k, 0) + v
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)
    return problems, stats


def loose(exe, scen, modes):
    """The ill-conditioned results of a scenario: {line: fields}."""
    work = vf.scratch()
    try:
        sp, lp = os.path.join(work, "s.txt"), os.path.join(work, "l.ndjson")
        vf.write_file(sp, scen.text())
        kind, _ = vf.run_prog(exe, [sp, lp], timeout=60)
        if kind != "ok":
            return {}
        r = vf.run_tlc("TraceModel", env={"VF_LOG": lp, "VF_MODES": str(modes), "VF_LOOSE": "1"})
        out = {}
        for t, m in r.messages:
            if t == "LOOSE":
                out.setdefault(m["l"], set()).update(m["f"])
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)
