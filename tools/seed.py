#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).
  seed.py start                    fresh copy of /repo in /tmp/wt, to be edited
  seed.py add ID PROP NEEDS BREAKS reads the change from /tmp/wt and the demonstration from /tmp/demo.cc, verifies, stores
  seed.py verify [ID...]           verifies stored bugs
  seed.py run ID|all [PROP...]     runs checks (default: the bug's own) against a copy with the bug
  seed.py table                    the table of planted bugs for DESIGN.md
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
KIT = os.path.join(V, "tools", "seedkit")
SEED = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def start():
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", WT])


def tests(tree, build="/tmp/wtb"):
    """The stable tests, and for information all tests."""
    os.makedirs(build, exist_ok=True)
    r = sh(["cmake", "-S", "/verif/tools/seedkit/tests", "-B", build, "-G", "Ninja", f"-DREPO={tree}"])
    r2 = sh(["ninja", "-C", build])
    if r.returncode or r2.returncode:
        return "does not build:\n" + (r.stdout + r2.stdout)[-1500:]
    r = sh([build + "/stable"])
    a = sh([build + "/alltests"])
    tail = [x for x in a.stdout.splitlines() if "FAILED  ]" in x][:3]
    print("   all repository tests:", "pass" if a.returncode == 0 else "fail " + "; ".join(tail))
    return None if r.returncode == 0 else "stable tests fail:\n" + r.stdout[-1500:]


def verify(d):
    start()
    dm = os.path.join(d, "demo.sh")
    r = sh(["bash", dm], cwd=WT)
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-800:]
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=WT)
    if r.returncode:
        return "patch does not apply: " + r.stdout
    t = tests(WT)
    if t:
        return t
    r = sh(["bash", dm], cwd=WT)
    if r.returncode in (0, 3):
        return f"demo exits {r.returncode} with the patch: " + r.stdout[-800:]
    print("   demo:", r.stdout.strip()[-200:])
    return None


def add(i, prop, needs, breaks):
    d = os.path.join(SEED, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh(["git", "diff"], cwd=WT).stdout
    assert diff.strip(), "no change in /tmp/wt"
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.copy("/tmp/demo.cc", d)
    shutil.copy(os.path.join(KIT, "demo.sh"), d)
    shutil.copy(os.path.join(KIT, "d.h"), d)
    shutil.copytree(os.path.join(V, "harness", "shim"), os.path.join(d, "shim"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    e = verify(d)
    if e:
        shutil.rmtree(d)
        print("NOT KEPT", i, e)
        return False
    print("kept", i)
    return True


def run(i, props):
    d = os.path.join(SEED, i)
    start()
    subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=WT)
    own = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = []
    for p in props or [own]:
        r = sh(["python3", os.path.join(V, "tools", "check.py"), p], env={**os.environ, "VF_REPO": WT})
        out.append((p, r.returncode))
        if r.returncode not in (0, 1):
            print(r.stdout[-500:])
    print(i, own, " ".join(f"{p}:{'caught' if c == 1 else 'quiet' if c == 0 else 'ERR'}" for p, c in out), flush=True)


if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if c == "start":
        start()
    elif c == "add":
        if add(*a[:4]):
            run(a[0], [])
    elif c == "verify":
        for i in a or sorted(os.listdir(SEED)):
            print(i, verify(os.path.join(SEED, i)) or "ok", flush=True)
    elif c == "run":
        for i in sorted(os.listdir(SEED)) if a[0] == "all" else a[0].split(","):
            run(i, a[1:] if a[1:] != ["ALL"] else [f"C{k:02}" for k in range(1, 21)])
    elif c == "table":
        print("| planted bug | property | needs | breaks |\n|---|---|---|---|")
        for i in sorted(os.listdir(SEED)):
            m = json.load(open(os.path.join(SEED, i, "meta.json")))
            print(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
