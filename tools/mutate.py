#!/usr/bin/env python3
"""Mutation campaign (development tool, not used by any check).

  mutate.py list               count the mutants
  mutate.py run [-k K] [-o F]  sample K mutants, run the checks against each until one reports a violation
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WT = "/tmp/mut"
ALL = [f"C{i:02}" for i in range(1, 21)]
I = "ink_stroke_modeler/"
FILES = {
    I + "stroke_modeler.cc": "C08 C06 C01 C02 C04 C03 C05 C07 C09 C13 C14 C15 C16 C12",
    I + "params.cc": "C17",
    I + "types.cc": "C20 C01",
    I + "types.h": "C20",
    I + "internal/loop_contraction_mitigation_modeler.cc": "C14 C04 C03",
    I + "internal/loop_contraction_mitigation_modeler.h": "C14 C04 C03",
    I + "internal/position_modeler.cc": "C08 C09 C06 C04 C03",
    I + "internal/position_modeler.h": "C08 C09 C06 C07 C19 C04",
    I + "internal/stylus_state_modeler.cc": "C11 C13 C12 C14 C04 C03",
    I + "internal/stylus_state_modeler.h": "C11 C13 C12 C04 C03",
    I + "internal/utils.cc": "C13 C11 C14 C09 C18",
    I + "internal/utils.h": "C11 C10 C13 C08 C16 C18",
    I + "internal/validation.h": "C17",
    I + "internal/wobble_smoother.cc": "C10 C04 C03",
    I + "internal/wobble_smoother.h": "C10 C04",
    I + "internal/prediction/kalman_predictor.cc": "C16 C04 C03 C05",
    I + "internal/prediction/stroke_end_predictor.cc": "C15 C04 C03 C05",
    I + "internal/prediction/kalman_filter/axis_predictor.cc": "C16 C03",
    I + "internal/prediction/kalman_filter/kalman_filter.cc": "C16 C03",
    I + "internal/prediction/kalman_filter/matrix.h": "C16",
}
REPL = [
    (r"(?<![<=>\-])<(?![<=>])(?= )", "<="), (r"<=(?!>)", "<"), (r"(?<![\->])>(?![>=])(?= )", ">="), (r">=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
    (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"),
    (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"/=", "*="),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.x\b", ".y"), (r"\.y\b", ".x"),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"),
    (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\bfront\b", "back"), (r"\bback\b", "front"),
    (r"\bpop_front\b", "pop_back"), (r"\bstd::ceil\b", "std::floor"),
    (r"\bif \((?=.*\) )", "if (!("), (r"!(?=[a-z_])", ""),
    (r"\bposition\b", "velocity"), (r"\bvelocity\b", "position"), (r"\bacceleration\b", "velocity"), (r"\bpressure\b", "tilt"),
    (r"\btilt\b", "orientation"), (r"\borientation\b", "pressure"), (r"\bstart\b", "end"), (r"\bend\b", "start"),
    (r"\blast_input_\b", "0"), (r"\bfloat\b", "double"), (r"\bdouble\b", "float"), (r"\breturn\b(?=;)", ""),
    (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
    (r"(?<= )(\d+\.\d*|\.\d+)", r"(\1 * 1.01)"), (r"\bfabs\b|\bstd::abs\b", ""),
    (r"\bfloor\b", "ceiling"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bmin_", "max_"), (r"\bmax_", "min_"),
]


def mutants():
    out = []
    for f in FILES:
        with open(os.path.join(REPO, f)) as fh:
            lines = fh.read().split("\n")
        text_start = next((i for i, l in enumerate(lines) if l.startswith("namespace")), 0)
        for n, line in enumerate(lines):
            code = line.split("//")[0]
            if n < text_start or not code.strip() or code.strip().startswith(("#", "namespace", "using ", "}", "template")):
                continue
            if '"' in code and "Validate" not in code:
                continue
            for pat, rep in REPL:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if rep == "if (!(":
                        k = new.rfind(") ")
                        new = new[:k] + ")" + new[k:]
                    out.append((f, n, new))
            # statement deletion
            if re.match(r"^\s+[\w\.\->\*\[\]:]+.*;\s*$", code) and not re.match(
                    r"^\s+(return|const|auto|float|double|int|Vec2|Time|Duration|bool|Result|TipState|std::|struct|Input|size_t|static|explicit|virtual|using|typedef)\b", code):
                out.append((f, n, ""))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return res


def apply(m):
    shutil.rmtree(WT, ignore_errors=True)
    os.makedirs(WT)
    shutil.copytree(os.path.join(REPO, "ink_stroke_modeler"), os.path.join(WT, "ink_stroke_modeler"))
    p = os.path.join(WT, m[0])
    with open(p) as f:
        lines = f.read().split("\n")
    old = lines[m[1]]
    lines[m[1]] = m[2]
    with open(p, "w") as f:
        f.write("\n".join(lines))
    return old


def run(m, full):
    old = apply(m)
    first = FILES[m[0]].split()
    order = first + [c for c in ALL if c not in first]
    env = dict(os.environ, VF_REPO=WT)
    res = {}
    for c in order:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/check.py"), c], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode == 2 and "compiling" in r.stdout:
            return old, "nocompile", res
        res[c] = r.returncode
        if r.returncode == 1 and not full:
            return old, c, res
        if r.returncode > 1:
            print("   check", c, "exit", r.returncode, r.stdout[-300:], flush=True)
    return old, next((c for c in order if res[c] == 1), "SURVIVED"), res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("-k", type=int, default=50)
    ap.add_argument("-o", default="/tmp/mutants.jsonl")
    ap.add_argument("-f", default="")
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--minutes", type=float, default=1e9)
    a = ap.parse_args()
    ms = [m for m in mutants() if a.f in m[0]]
    if a.cmd == "list":
        for f in FILES:
            print(sum(m[0] == f for m in ms), f)
        print(len(ms))
        return
    done = set()
    if os.path.exists(a.o):
        with open(a.o) as f:
            done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, f)}
    random.Random(a.s).shuffle(ms)
    t0 = time.time()
    n = 0
    for m in ms:
        if n >= a.k or time.time() - t0 > a.minutes * 60:
            break
        if (m[0], m[1], m[2]) in done:
            continue
        n += 1
        t = time.time()
        old, who, res = run(m, a.full)
        with open(a.o, "a") as f:
            f.write(json.dumps({"file": m[0], "line": m[1], "new": m[2], "old": old, "caught": who, "res": res}) + "\n")
        print(f"{time.time() - t:5.0f}s {who:9} {m[0][19:]}:{m[1] + 1}: {old.strip()}  ->  {m[2].strip()}", flush=True)
    shutil.rmtree(WT, ignore_errors=True)


if __name__ == "__main__":
    main()
