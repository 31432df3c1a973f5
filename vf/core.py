"""Shared machinery of the checks: building /repo's sources, running TLC,
validating recorded traces against the TLA+ specifications, reporting.

A check only ever ends in two ways: exit 0, or exit 1 with VIOLATION lines."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)

VARIANTS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
BASE_FLAGS = ["-w", "-std=c++20", "-fPIC", "-include", "cstdint"]
LIBS = ["-lz", "-lbrotlienc", "-lbrotlidec", "-lbrotlicommon", "-lpthread"]


class CheckError(RuntimeError):
    """The machinery itself failed (not a verdict)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p, mode="rb"):
    with open(p, mode) as f:
        return f.read()


def repo_sources():
    src, hdr = [], []
    for top in ("core", "extra"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                p = os.path.join(d, f)
                if f.endswith((".cpp", ".cc", ".cxx")):
                    src.append(p)
                elif f.endswith((".hpp", ".h", ".ipp", ".inl")):
                    hdr.append(p)
    for f in os.listdir(REPO):
        if f.endswith((".hpp", ".h")):
            hdr.append(os.path.join(REPO, f))
    return sorted(src), sorted(hdr)


def _compile(job):
    src, out, flags = job
    if os.path.exists(out):
        return None
    tmp = f"{out}.{os.getpid()}.{random.randrange(1 << 30)}.tmp"
    r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        return f"{src}:\n{r.stderr[-3000:]}"
    os.replace(tmp, out)
    return None


def build(name, sources, variant="plain", link=(), defines=()):
    """Compiles all of /repo's library sources plus harness `sources`, links harness/`name`.
    Objects are cached by content, so a rebuild of an unchanged tree is cheap."""
    src, hdr = repo_sources()
    hh = sha(*[read(h) for h in hdr], *[os.path.relpath(h, REPO) for h in hdr])
    vflags = BASE_FLAGS + VARIANTS[variant]
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    for s in src:
        o = os.path.join(od, sha(read(s), os.path.relpath(s, REPO), hh, vflags) + ".o")
        jobs.append((s, o, vflags))
        objs.append(o)
    harn = sorted(os.path.join(HARNESS, h) for h in os.listdir(HARNESS) if h.endswith(".hpp"))
    ih = sha(*[read(h) for h in harn])
    mine = []
    for s in sources:
        s = os.path.join(HARNESS, s)
        f = vflags + [f"-I{REPO}", f"-I{HARNESS}", *[f"-D{d}" for d in defines]]
        o = os.path.join(od, sha(read(s), s, hh, ih, f) + ".o")
        jobs.append((s, o, f))
        mine.append(o)
    with cf.ThreadPoolExecutor(CPUS) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise CheckError("build failed:\n" + "\n".join(errs))
    page = os.path.join(REPO, "core/html/resources/servicepage.html")
    res = os.path.join(od, sha(read(page), "res") + ".res")
    if not os.path.exists(res):
        tmp = f"{res}.{os.getpid()}.tmp"
        subprocess.run(["objcopy", "--input-target", "binary", "--output-target", "elf64-x86-64",
                        "--binary-architecture", "i386:x86-64", "core/html/resources/servicepage.html", tmp],
                       check=True, cwd=REPO, capture_output=True)
        os.replace(tmp, res)
    exe = os.path.join(BUILD, f"{name}-{variant}-" + sha(*objs, *mine, res, link))
    if not os.path.exists(exe):
        lib = exe + ".a"
        if os.path.exists(lib):
            os.remove(lib)
        subprocess.run(["ar", "rcs", lib, *objs], check=True, capture_output=True)
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run(["g++", *VARIANTS[variant], "-o", tmp, *mine, lib, res, *link, *LIBS],
                           capture_output=True, text=True)
        os.remove(lib)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.completed = "Model checking completed. No error has been found." in out
        self.violation = None
        m = re.search(r"Error: (Invariant \S+ is violated|Action property \S+ is violated|Deadlock reached|"
                      r"Temporal propert(?:ies|y \S+) w(?:ere|as) violated|Property \S+ is violated)", out)
        if m:
            self.violation = m.group(1)

    @property
    def error(self):
        return not self.completed and not self.violation


def tlc(spec, cfg=None, env=None, workers=1, timeout=600, mem="3g", extra=(), check=True):
    """Runs TLC on specs/<spec>.tla with specs/<cfg>.cfg."""
    cfg = cfg or spec
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ensure(os.path.join(BUILD, "tmp")))
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", f"-Xmx{mem}", "-Xss64m",
           "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg + ".cfg", *extra, spec + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECS, env={**os.environ, **(env or {})}, capture_output=True,
                           timeout=timeout, encoding="utf-8", errors="replace")
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult(out, rc, time.time() - t0)
    if check and res.error:
        raise CheckError(f"TLC failed on {spec}/{cfg}: rc={rc}\n" + tail_err(out))
    return res


def tail_err(out):
    i = out.find("Error:")
    return out[max(0, i - 200):i + 3000].replace("\n", " ") if i >= 0 else out[-3000:]


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def scratch(prefix="run-"):
    return tempfile.mkdtemp(prefix=prefix, dir=ensure(os.path.join(BUILD, "tmp")))


# ---------------------------------------------------------------- the check context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.known = load_known(prop)
        self.quick = tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, total):
        return total - (time.time() - self.t0)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- design level: exhaustive model checking
    def model(self, spec, cfg=None, workers=CPUS, timeout=600, mem="6g", expect_ok=True, extra=()):
        r = tlc(spec, cfg, workers=workers, timeout=timeout, mem=mem, extra=extra)
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            dict(spec=spec, cfg=cfg or spec, distinct=r.distinct, generated=r.generated, depth=r.depth, wall_s=round(r.wall, 1)))
        self.log(f"model {cfg or spec}: {r.distinct} states, {r.generated} transitions, {r.wall:.1f}s")
        if expect_ok and r.violation:
            raise CheckError(f"the specification {cfg or spec} violates its own property: {r.violation}\n" + tail_err(r.out))
        return r

    # -- conformance: recorded traces against the specification
    def validate(self, spec, traces, cfg=None, shards=None, timeout=600, mem="2g", extra=None):
        """traces: list of JSON values. Returns the indexes of those the spec does not accept.
        The trace spec prints "ACC <i>" when trace i (1-based) has been consumed completely."""
        if not traces:
            return []
        cfg = cfg or spec
        shards = shards or max(1, min(CPUS, len(traces) // 8 or 1))
        d = scratch("tr-")
        order = sorted(range(len(traces)), key=lambda i: -len(json.dumps(traces[i])))
        parts = [order[i::shards] for i in range(shards)]

        def one(k):
            p = os.path.join(d, f"t{k}.json")
            with open(p, "w") as f:
                json.dump([traces[i] for i in parts[k]], f)
            r = tlc(spec, cfg, env={"TRACE": p, **(extra or {})}, workers=1, timeout=timeout, mem=mem)
            if r.violation:
                raise CheckError(f"trace spec {cfg} reported {r.violation}\n" + tail_err(r.out))
            acc = {int(x) for x in re.findall(r'"ACC (\d+)"', r.out)}
            return [i for n, i in enumerate(parts[k], 1) if n not in acc], r
        try:
            rej = []
            with cf.ThreadPoolExecutor(shards) as ex:
                for bad, r in ex.map(one, range(shards)):
                    rej += bad
                    self.states += r.distinct
                    self.transitions += r.generated
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.validated += len(traces)
        return sorted(rej)

    def explain(self, spec, trace, cfg=None, extra=None):
        """Longest accepted prefix of a rejected trace (1-based index of the first event not allowed)."""
        d = scratch("tr-")
        try:
            p = os.path.join(d, "t.json")
            with open(p, "w") as f:
                json.dump([trace], f)
            r = tlc(spec, cfg, env={"TRACE": p, "EXPLAIN": "1", **(extra or {})}, workers=1, timeout=300, check=False)
            pos = [int(x) for x in re.findall(r'"AT (\d+)"', r.out)]
            exp = re.findall(r'"EXPECT[^\n]*', r.out)
            return (max(pos) + 1 if pos else 1), exp[-1] if exp else None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(json.dumps(s)) < 3000 else json.dumps(s)[:3000])

    def violation(self, what, replay, key=None):
        """Registers a violation; `key` identifies it against the known findings."""
        for kf in self.known:
            if key is not None and kf["key"] == key:
                line = f"KNOWN-FINDING: property={self.prop} {kf['what']}"
                if line not in self.notes.setdefault("known_findings", []):
                    self.notes["known_findings"].append(line)
                    print(line, flush=True)
                return
        d = ensure(os.path.join(VERIF, "evidence", "replay"))
        path = os.path.join(d, f"{self.prop}-{len(self.violations) + 1}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, replay=replay), f, indent=1, default=str)
        self.violations.append(what)
        self.log("VIOLATED:", what)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def finish(self, level="model_checking", **cov):
        coverage = dict(states=self.states, transitions=self.transitions,
                        traces_validated_against_impl=self.validated, samples=self.samples or ["none"], **cov, **self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        p = os.path.join(ensure(os.path.join(VERIF, "evidence")), f"{self.prop}.json")
        blob = json.dumps(ev, indent=1, default=str)
        if len(blob) > 60000:
            coverage["samples"] = [str(s)[:500] for s in self.samples[:2]]
            blob = json.dumps(ev, indent=1, default=str)
        with open(p, "w") as f:
            f.write(blob)
        self.log(f"done: {self.validated} traces validated, {self.states} states, {len(self.violations)} violations")
        return 1 if self.violations else 0


def load_known(prop):
    """known_findings.jsonl: {"property","key","what"} entries; "fixed: ..." lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                x = json.loads(line)
                if x["property"] == prop:
                    out.append(x)
    return out


def b2s(b):
    """bytes -> str, one char per byte (what the specs work on)"""
    return b.decode("latin-1")


def s2b(s):
    return s.encode("latin-1")
