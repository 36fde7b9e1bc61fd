"""Shared machinery of the checks: building the harness from /repo, running it, running TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
JOBS = int(os.environ.get("VF_JOBS", "8"))

# Build variants. "plain" is what the checks use, "san", "pat" and "tsan" are used for C19; the others only
# serve to see that other ways of compiling raise no alarm (VF_PLAIN=o3|clang|x87|fast).
VARIANTS = {
    "plain": ("g++", ["-O1"]),
    "san": ("g++", ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                    "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
    # Local variables start with a pattern: differs from "plain" where one is read before it is written.
    "pat": ("g++", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread", "-pthread"]),
    "o3": ("g++", ["-O3", "-march=native"]),
    "clang": ("clang++", ["-O2", "-ffp-contract=fast", "-mfma"]),
    "fast": ("g++", ["-O2", "-fassociative-math", "-fno-signed-zeros", "-fno-trapping-math",
                     "-freciprocal-math", "-mfma"]),
    "x87": ("g++", ["-O2", "-mfpmath=387"]),
}


# The programs of each variant that the checks use.
PROGRAMS = {"plain": ("trace", "life", "types"), "san": ("trace",), "pat": ("trace",), "tsan": ("threads",)}


class MachineryError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "ink_stroke_modeler")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cc", ".cpp", ".cxx")) and not f.endswith("_test.cc") and "fuzz" not in f \
                    and f != "type_matchers.cc":
                out.append(os.path.join(root, f))
    return out


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "ink_stroke_modeler"), HARNESS):
        for root, dirs, fs in os.walk(base):
            files += [os.path.join(root, f) for f in fs if f.endswith((".cc", ".h", ".cpp", ".hpp", ".inc", ".cxx"))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def absl_libs():
    want = ["absl_status", "absl_statusor", "absl_strings", "absl_str_format", "absl_inlined_vector", "absl_span",
            "absl_flat_hash_map", "absl_btree", "absl_time", "absl_cord", "absl_synchronization", "absl_cleanup",
            "absl_algorithm_container"]
    r = subprocess.run(["pkg-config", "--libs"] + want, stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise MachineryError("pkg-config cannot find abseil")
    return r.stdout.split()


def build(variant="plain", programs=("trace",)):
    """Compiles /repo's sources and the harness programs; returns the directory of executables."""
    cxx, flags = VARIANTS[os.environ.get("VF_PLAIN", variant) if variant == "plain" else variant]
    flags = ["-std=c++20"] + flags + ["-w", "-I" + os.path.join(HARNESS, "shim"), "-I" + REPO]
    key = f"{variant}-{tree_hash((cxx, flags))}"
    out = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    need = [p for p in programs if not os.path.exists(os.path.join(out, p))]
    if not need:
        os.utime(out)
        return out
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        jobs = []
        objs = []
        for i, src in enumerate(repo_sources()):
            o = os.path.join(tmp, f"r{i}.o")
            objs.append(o)
            jobs.append((src, o))
        for p in need:
            jobs.append((os.path.join(HARNESS, p + ".cc"), os.path.join(tmp, p + ".o")))

        def comp(j):
            r = sh([cxx] + flags + ["-c", j[0], "-o", j[1]])
            if r.returncode:
                raise MachineryError(f"compiling {j[0]} failed:\n{r.stdout[-4000:]}")

        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(comp, jobs))
        libs = absl_libs()

        def link(p):
            r = sh([cxx] + flags + [os.path.join(tmp, p + ".o")] + objs + ["-o", os.path.join(tmp, p)] + libs
                   + ["-lpthread"])
            if r.returncode:
                raise MachineryError(f"linking {p} failed:\n{r.stdout[-4000:]}")

        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(link, need))
        os.makedirs(out, exist_ok=True)
        for p in need:
            os.replace(os.path.join(tmp, p), os.path.join(out, p))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # Keep only the most recent builds.
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*-*")) if re.search(r"-[0-9a-f]{16}$", d)),
                  key=os.path.getmtime, reverse=True)
    for d in olds[10:]:
        shutil.rmtree(d, ignore_errors=True)
    return out


def java_classes():
    """Compiles the Java implementations of the FP module."""
    src = os.path.join(SPEC, "FP.java")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + key)
    if not os.path.exists(os.path.join(out, "FP.class")):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        r = sh(["javac", "-nowarn", "-cp", f"{TLA}/tla2tools.jar", "-d", tmp, src])
        if r.returncode:
            raise MachineryError("javac failed:\n" + r.stdout)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(out, f))
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _limits_san():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_prog(exe, args, timeout=120, san=False, env=None):
    """Runs a harness program. Returns (kind, detail): ("ok", stdout), ("crash", ..), ("hang", ..)."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e.update(env or {})
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", preexec_fn=_limits_san if san else _limits, env=e,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "hang", f"no end after {timeout} s\n" + out[-2000:]
    if p.returncode == 0:
        return "ok", out
    return "crash", f"exit status {p.returncode}\n" + out[-3000:]


class TlcResult:
    def __init__(self):
        self.out = ""
        self.messages = []   # payloads of PrintT("TAG json")
        self.generated = 0
        self.distinct = 0
        self.ok = False
        self.violated = None


def run_tlc(module, cfg=None, env=None, args=(), timeout=600, workers="1", heap="3g", keep_out=True):
    java = java_classes()
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m",
               "-Djava.io.tmpdir=" + meta,
               "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{java}",
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
               "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             env=e, cwd=meta, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            raise MachineryError(f"TLC on {module} did not finish in {timeout} s\n" + out[-1500:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = out
    for line in out.splitlines():
        if line.startswith('"'):
            try:
                s = json.loads(line)
            except ValueError:
                continue
            tag, _, rest = s.partition(" ")
            try:
                r.messages.append((tag, json.loads(rest) if rest else None))
            except ValueError:
                r.messages.append((tag, rest))
    m = re.findall(r"^([\d,]+) states generated.*?([\d,]+) distinct", out, re.M)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"^The number of states generated: ([\d,]+)", out, re.M)
    if m:
        r.generated = r.distinct = int(m.group(1).replace(",", ""))
    r.ok = "No error has been found" in out or ("Finished in" in out and "Error:" not in out)
    m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated", out)
    if m:
        r.violated = m.group(1) or m.group(2)
    return r


class Scenario:
    def __init__(self, name, lines):
        self.name = name
        self.lines = lines

    def text(self):
        return f"N {self.name}\n" + "\n".join(self.lines) + "\n"


def write_file(path, text):
    with open(path, "w") as f:
        f.write(text)


def replay_path(prop, text):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.txt")
    write_file(path, text)
    return path


def write_evidence(prop, tier, seed, level, coverage, wall, assumptions=(), violations=0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations},
                  f, indent=1)
    os.replace(tmp, path)


def scratch():
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix="run-", dir=BUILD)
