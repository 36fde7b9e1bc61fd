"""Second part of C02-C05: groups of walks, run in several processes, checked together by TraceTree.tla."""
import concurrent.futures as cf
import os
import random
import shutil
import vf


def run_walks(exe, work, tag, items, more=()):
    """items: list of (name, lines). Returns ({name: log lines}, problem or None)."""
    sp, lp = os.path.join(work, tag + ".txt"), os.path.join(work, tag + ".ndjson")
    vf.write_file(sp, "".join(vf.Scenario(n, ls).text() for n, ls in items))
    kind, detail = vf.run_prog(exe, [sp, lp, *more], timeout=120, env={"MALLOC_PERTURB_": "90"} if more else {})
    logs, name = {}, None
    with open(lp) as f:
        for line in f:
            if not line.endswith("\n"):
                break
            if line.startswith('{"o":"N"'):
                name = line.split('"n":"')[1].split('"')[0]
                logs[name] = [line]
            elif not line.startswith('{"o":"Z"'):
                logs[name].append(line)
    os.remove(lp)
    return logs, None if kind == "ok" else {"n": name or "?", "l": 0, "call": "?", "f": [kind], "w": detail}


def validate(exe, groups, jobs=vf.JOBS, seed=0):
    """groups: {name: [walk, ...]}. Returns (problems, stats); a problem has the names of its part's groups in "part"."""
    work = vf.scratch()
    names = list(groups)
    parts = [names[i::jobs] for i in range(jobs)]
    parts = [p for p in parts if p]

    def one(a):
        i, part = a
        g = random.Random(f"{seed}/{i}")
        # Which process and which order: so that nothing that outlives a modeler can stay unnoticed.
        procs = [[], [], []]
        for n in part:
            for k, w in enumerate(groups[n]):
                procs[k % 3].append((f"{n}.{k}", w))
        logs, probs = {}, []
        for k, items in enumerate(procs):
            g.shuffle(items)
            # In the last process another modeler is in use at the same time, in the second they are moved about.
            lg, pr = run_walks(exe, work, f"p{i}x{k}", items, [[], ["moving"], ["shadow"]][k])
            logs.update(lg)
            if pr:
                probs.append(pr)
        lp = os.path.join(work, f"m{i}.ndjson")
        with open(lp, "w") as f:
            for n in part:
                for k in range(len(groups[n])):
                    for j, line in enumerate(logs.get(f"{n}.{k}", [])):
                        f.write(line.replace('"o":"N"', '"o":"W"') if j == 0 and k > 0 else line)
            f.write('{"o":"Z"}\n')
        r = vf.run_tlc("TraceTree", env={"VF_LOG": lp})
        done = [m for t, m in r.messages if t == "DONE"]
        if not done:
            raise vf.MachineryError("TLC did not reach the end of the log (TraceTree):\n" + r.out[-3000:])
        probs += [m for t, m in r.messages if t == "MISMATCH"]
        for p in probs:
            p["part"] = part
        return probs, done[0], r

    problems, stats = [], {"states": 0, "transitions": 0}
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            for probs, done, r in ex.map(one, list(enumerate(parts))):
                problems += probs
                stats["states"] += r.distinct
                stats["transitions"] += r.generated
                for k, v in done.items():
                    stats[k] = stats.get(k, 0) + v
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return problems, stats


def check(prop, tier, seed, ev, violation):
    import gentree
    exe = os.path.join(vf.build("plain", ("trace",)), "trace")
    rounds, size = (1, 300) if tier == "quick" else (int(os.environ.get("VF_ROUNDS", "10")), 600)
    tot = {}
    for rnd in range(rounds):
        groups = {f"{prop}g{rnd}x{k}": w for k, w in enumerate(gentree.make(prop, seed, rnd, size))}
        probs, st = validate(exe, groups, seed=seed)
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        for p in probs[:5]:
            own = p["n"].rsplit(".", 1)[0]
            for part in ([own], p["part"]):
                sub = {n: groups[n] for n in part if n in groups}
                again, _ = validate(exe, sub, jobs=1, seed=seed) if sub else ([], {})
                if again:
                    q = {k: v for k, v in again[0].items() if k != "part"}
                    text = f"# property {prop}: " + str(q) + "\n" + "".join(
                        vf.Scenario(f"{n}.{k}", w).text() for n in sub for k, w in enumerate(sub[n]))
                    raise violation(text, str(q)[:1500])
    ev["tree"] = {**tot, "spec": "TraceTree.tla"}
    ev["states"] = ev.get("states", 0) + tot["states"]
    ev["transitions"] = ev.get("transitions", 0) + tot["transitions"]
    ev["traces_validated_against_impl"] = ev.get("traces_validated_against_impl", 0) + tot["walks"]
