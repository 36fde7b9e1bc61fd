#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]: decides one property on /repo's current tree."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402
import gen  # noqa: E402
import model  # noqa: E402
import findings  # noqa: E402
import life  # noqa: E402
import tree  # noqa: E402
import genparams  # noqa: E402
import gentotal  # noqa: E402
import gentypes  # noqa: E402
import gensym  # noqa: E402
import grid  # noqa: E402
import symmetry  # noqa: E402


class Violation(Exception):
    def __init__(self, replay_text, why):
        super().__init__(why)
        self.replay_text = replay_text
        self.why = why


# ------------------------------------------------------------------ C06-C16: trace validation
STY = {"pr", "ti", "or"}
PVA = {"p", "v", "a"}


def relevant(prop, p):
    """Does this disagreement between code and specification concern the property?"""
    f, call = set(p["f"]), p["call"]
    if f & {"crash", "hang"}:
        return True
    if prop == "C01":
        return bool(f & {"status", "empty", "down", "pre"})
    if prop == "C06":
        return bool(f & {"t", "count", "mono", "empty"})
    if prop == "C07":
        return bool(f & {"limit", "status", "count"})
    if prop == "C08":
        return call in ("Move", "Up", "Down") and bool(f & PVA)
    if prop == "C09":
        return call == "Up" and bool(f & (PVA | {"t", "count", "empty"}))
    if prop == "C10":
        return call in ("Move", "Up", "Predict") and bool(f & PVA)
    if prop in ("C11", "C12", "C13"):
        return bool(f & STY)
    if prop == "C14":
        return bool(f & (PVA | STY))
    if prop in ("C15", "C16"):
        return call == "Predict"
    return True


GRID_N = 600
QUICK_N = {"C01": 500, "C06": 800, "C07": 900, "C08": 800, "C09": 1000, "C10": 700, "C11": 800, "C12": 480, "C13": 800,
           "C14": 800, "C15": 700, "C16": 640}


def model_check(prop, tier, seed, ev):
    exe = os.path.join(vf.build("plain", ("trace",)), "trace")
    rounds = 1 if tier == "quick" else int(os.environ.get("VF_ROUNDS", "12"))
    tot, gst = {}, {}
    samples = []
    n = 0
    for rnd in range(rounds):
        scens = gen.make(prop, seed, rnd, QUICK_N[prop])
        if rnd == 0:
            scens += findings.scenarios(prop)
            if prop != "C01":
                more, gst = grid.scenarios(exe, prop, seed, GRID_N if tier == "quick" else None)
                scens += more
        n += len(scens)
        probs, st = model.validate(exe, scens)
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        if rnd == 0:
            samples = [scens[i].text() for i in (0, len(scens) // 2)]
        bad = [p for p in probs if relevant(prop, p)]
        if bad:
            confirm(prop, exe, bad)
    ev.update({"states": tot["states"] + gst.get("grid_states", 0),
               "transitions": tot["transitions"] + gst.get("grid_transitions", 0), "traces_validated_against_impl": n,
               "samples": samples, **gst,
               "calls": tot["calls"], "inputs": tot["upd"], "results_compared": tot["res"] + tot["pres"],
               "predictions": tot["pred"], "refusals": tot["rej"],
               "calls_where_rounding_decides": tot["amb"], "calls_not_judged": tot["vague"],
               "spec": "TraceModel.tla + Modeler.tla in 4 rounding modes" + ("; Grid.tla" if gst else "")})


# ------------------------------------------------------------------ C17: parameters
def params_check(prop, tier, seed, ev):
    exe = os.path.join(vf.build("plain", ("trace",)), "trace")
    rounds = 1 if tier == "quick" else int(os.environ.get("VF_ROUNDS", "20"))
    tot, n, samples = {}, 0, []
    for rnd in range(rounds):
        scens = genparams.make(seed, rnd)
        n += len(scens)
        probs, st = model.validate(exe, scens, module="TraceParams")
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        if rnd == 0:
            samples = [scens[0].text()[:1500]]
        if probs:
            confirm(prop, exe, probs, "TraceParams")
    ev.update({"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": n,
               "samples": samples, "configurations": tot["configs"], "valid_configurations": tot["valid"],
               "inputs": tot["upd"], "spec": "Params.tla, TraceParams.tla"})


# ------------------------------------------------------------------ C18: units and coordinates
def symmetry_check(prop, tier, seed, ev):
    exe = os.path.join(vf.build("plain", ("trace",)), "trace")
    rounds, size = (1, 4000) if tier == "quick" else (int(os.environ.get("VF_ROUNDS", "12")), 6000)
    tot, n, samples = {}, 0, []
    for rnd in range(rounds):
        pairs = gensym.make(seed, rnd, size)
        n += len(pairs)
        probs, st = symmetry.validate(exe, pairs)
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        if rnd == 0:
            samples = ["\n".join([json.dumps(t.json()), a.text(), b.text()])[:2500] for a, b, t in pairs[:1]]
        for p in symmetry.firm(exe, probs)[:8]:
            mine = [x for x in p["part"] if x[0].name == p["n"]]
            for group in (mine, p["part"]):
                again, _ = symmetry.validate(exe, group, jobs=1)
                if again:
                    q = {k: v for k, v in again[0].items() if k != "part"}
                    text = f"# property {prop}: {json.dumps(q)}\n" + "".join(
                        f"# {json.dumps(t.json())}\n{a.text()}# changed\n{b.text()}" for a, b, t in group)
                    raise Violation(text, json.dumps(q)[:1500])
    ev.update({"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": 2 * n,
               "samples": samples, "pairs": n, "calls": tot["calls"], "results_compared": tot["res"] + tot["pres"],
               "spec": "TraceSymmetry.tla"})


# ------------------------------------------------------------------ C20: value types
def types_check(prop, tier, seed, ev):
    exe = os.path.join(vf.build("plain", ("types",)), "types")
    rounds = 1 if tier == "quick" else int(os.environ.get("VF_ROUNDS", "12"))
    tot, n, samples = {}, 0, []
    for rnd in range(rounds):
        scens = gentypes.make(seed, rnd, 8000)
        n += len(scens)
        probs, st = model.validate(exe, scens, module="TraceTypes")
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        if rnd == 0:
            samples = [scens[i].text()[:1200] for i in (1, -1)]
        if probs:
            confirm(prop, exe, probs, "TraceTypes")
    ev.update({"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": n,
               "samples": samples, "operations": tot["calls"], "vector_pairs": tot["vec"], "time_pairs": tot["time"],
               "record_pairs": tot["pairs"], "spec": "ValueTypes.tla, TraceTypes.tla"})


# ------------------------------------------------------------------ C19: totality
def total_check(prop, tier, seed, ev):
    with cf.ThreadPoolExecutor(4) as ex:
        dirs = list(ex.map(lambda v: vf.build(v, vf.PROGRAMS[v][:1]), ("san", "plain", "pat", "tsan")))
    san, plain, pat = (os.path.join(d, "trace") for d in dirs[:3])
    races = {"answered": 0}
    rounds, size = (1, 1200) if tier == "quick" else (int(os.environ.get("VF_ROUNDS", "12")), 4000)
    tot, n, samples = {}, 0, []
    for rnd in range(rounds):
        scens = gentotal.make(seed, rnd, size)
        n += len(scens)
        probs, st = model.validate(san, scens, module="TraceTotal", san=True)
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        if rnd == 0:
            samples = [scens[i].text()[:1500] for i in (0, -1)]
        if probs:
            confirm(prop, san, probs, "TraceTotal", san=True)
        same_logs(prop, plain, pat, scens)
        in_threads(prop, os.path.join(dirs[3], "threads"), scens, races)
    ev.update({"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": n,
               "samples": samples, "calls": tot["calls"], "results": tot["res"], "ordinary_inputs": tot["ordinary"],
               "runs": "address/undefined sanitizer; same log with initialised locals, perturbed heap, a second modeler; "
                       f"in threads of one process under the thread sanitizer ({races['answered']} processes)",
               "spec": "Params.tla, TraceTotal.tla"})


def in_threads(prop, exe, scens, races):
    """Modelers used in different threads share nothing."""
    work = vf.scratch()

    def one(a):
        i, part = a
        sp = os.path.join(work, f"t{i}.txt")
        vf.write_file(sp, "".join(s.text() for s in part))
        kind, out = vf.run_prog(exe, [sp], timeout=300, san=True, env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
        if kind == "ok":
            races["answered"] += 1
        if "DIFF " in out:
            return out
        if "ThreadSanitizer: data race" in out and "ink_stroke_modeler" in out:
            return out
        return None

    try:
        parts = model.split([s for s in scens if len(s.lines) < 150], vf.JOBS)
        with cf.ThreadPoolExecutor(4) as ex:
            for part, bad in zip(parts, ex.map(one, list(enumerate(parts)))):
                if bad and one(("again", part)):
                    raise Violation(f"# property {prop}: harness/threads.cc on these scenarios\n# "
                                    + bad[:3000].replace("\n", "\n# ") + "\n" + "".join(s.text() for s in part), bad[:1500])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def same_logs(prop, plain, pat, scens):
    """The answers must not depend on uninitialised memory or on other modelers."""
    work = vf.scratch()
    runs = [(plain, [], {"MALLOC_PERTURB_": "0"}), (pat, [], {"MALLOC_PERTURB_": "165"}), (plain, ["shadow"], {}),
            (plain, ["moving"], {"MALLOC_PERTURB_": "90"})]

    def one(a):
        i, part, k = a
        exe, args, env = runs[k]
        sp, lp = os.path.join(work, f"s{i}.txt"), os.path.join(work, f"l{i}-{k}.ndjson")
        vf.write_file(sp + str(k), "".join(s.text() for s in part))
        kind, detail = vf.run_prog(exe, [sp + str(k), lp] + args, env=env)
        with open(lp) as f:
            lines = [x for x in f if not x.startswith(('{"o":"Z"', '{"o":"L"'))]
        return kind, detail, lines

    def differ(part, k, base=None):
        base = base or one(("c", part, 0))
        b = one(("c", part, k))
        if b[0] != "ok" and base[0] == "ok":
            return b[0] + " " + b[1]
        for x, y in zip(base[2], b[2]):
            if x != y:
                return f"{x[:700]} <> {y[:700]}"
        return None

    try:
        parts = model.split(scens, vf.JOBS)
        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            res = list(ex.map(one, [(i, p, k) for i, p in enumerate(parts) for k in range(len(runs))]))
        for i, part in enumerate(parts):
            base = res[len(runs) * i]
            if base[0] != "ok":
                raise Violation(f"# {base[0]} {base[1]}\n" + "".join(s.text() for s in part), base[0] + " " + base[1][-800:])
            for k in range(1, len(runs)):
                if res[len(runs) * i + k] != base:
                    why = differ(part, k)
                    if why:
                        what = ["", "depends on uninitialised memory", "another modeler interferes", "moving the modeler changes its results"][k]
                        raise Violation(f"# property {prop}: {what}\n" + "".join(s.text() for s in part), what + ": " + why)
    finally:
        shutil.rmtree(work, ignore_errors=True)


WIDE = 24
# No more disagreements are looked at more closely after this many seconds.
PATIENCE = 240


def confirm(prop, exe, bad, module="TraceModel", san=False):
    """Reproduces a violation, alone if possible, else together with the scenarios that ran before it.

    Against Modeler.tla, only what is also reproduced with many more rounding modes counts: the modes used for
    everything may by chance all be on one side of a decision, or agree better than they should.
    """
    def violation(q, group):
        q = {k: v for k, v in q.items() if k != "part"}
        raise Violation(f"# property {prop}: {json.dumps(q)}\n" + "".join(s.text() for s in group), json.dumps(q)[:1500])

    start = time.time()
    numeric = module == "TraceModel"
    names = list(dict.fromkeys(p["n"] for p in bad))
    # The short scenarios first.
    names = sorted(names, key=lambda n: 2 if "giant" in n else 1 if "burst" in n or "long" in n else 0)
    names = names[:48 if numeric else 8]
    alone = {}
    for p in bad:
        for s in p["part"]:
            if s.name == p["n"] and s.name in names:
                alone[s.name] = s
    # Each on its own, in a process of its own.
    for k in range(0, len(names), 8):
        some = [alone[n] for n in names[k:k + 8] if n in alone]
        if not some or time.time() - start > PATIENCE:
            continue
        try:
            probs, _ = model.validate(exe, some, module=module, jobs=len(some), san=san, tlc_timeout=180,
                                      modes=(8 if any("giant" in n for n in names[k:k + 8]) else WIDE) if numeric else None)
        except vf.MachineryError:
            if not numeric:
                raise
            probs, _ = model.validate(exe, some, module=module, jobs=len(some), san=san, modes=8)
        again = [q for q in probs if relevant(prop, q)]
        if again:
            violation(again[0], [alone[again[0]["n"]]] if again[0]["n"] in alone else again[0]["part"])
    # Not on its own: is it the company?
    if time.time() - start > PATIENCE:
        sys.stderr.write("no time left to look at the other disagreements\n")
        return
    if numeric:
        some = [alone[n] for n in names if n in alone]
        probs, _ = model.validate(exe, some, module=module, san=san) if some else ([], {})
        names = [n for n in names if n not in {q["n"] for q in probs if relevant(prop, q)}]
    for p in [p for p in bad if p["n"] in names][:2]:
        probs, _ = model.validate(exe, p["part"], module=module, jobs=1, san=san, modes=8 if numeric else None)
        again = [q for q in probs if relevant(prop, q)]
        if again:
            violation(again[0], p["part"])
    sys.stderr.write(f"{len(bad)} disagreements are not reproducible or are decided by rounding, and are not reported\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    t0 = time.time()
    ev = {}
    try:
        run(a.prop, a.tier, a.seed, ev)
        findings.report(a.prop)
        vf.write_evidence(a.prop, a.tier, a.seed, "model_checking", ev, time.time() - t0, violations=0)
        print(f"{a.prop}: held on everything explored ({time.time() - t0:.1f} s)")
        return 0
    except Violation as v:
        path = vf.replay_path(a.prop, v.replay_text)
        ev.setdefault("states", 0)
        ev.setdefault("transitions", 0)
        ev.setdefault("traces_validated_against_impl", 0)
        ev.setdefault("samples", [v.replay_text[:2000]])
        vf.write_evidence(a.prop, a.tier, a.seed, "model_checking", ev, time.time() - t0, violations=1)
        print(v.why)
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    except vf.MachineryError as e:
        print(f"ERROR of the check machinery: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 3


def run(prop, tier, seed, ev):
    if prop in life.BFS:
        life.check(prop, tier, seed, ev, Violation)
        if prop == "C01":
            first = dict(ev)
            model_check(prop, tier, seed, ev)
            for k in ("states", "transitions", "traces_validated_against_impl"):
                ev[k] += first[k]
            ev["samples"] += first["samples"]
            ev["spec"] += "; " + first["spec"]
        else:
            tree.check(prop, tier, seed, ev, Violation)
    elif prop == "C17":
        params_check(prop, tier, seed, ev)
    elif prop == "C18":
        symmetry_check(prop, tier, seed, ev)
    elif prop == "C20":
        types_check(prop, tier, seed, ev)
    elif prop == "C19":
        total_check(prop, tier, seed, ev)
    else:
        model_check(prop, tier, seed, ev)


if __name__ == "__main__":
    sys.exit(main())
