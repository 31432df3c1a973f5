"""K04: concurrent histories of one storage against KVLin."""
import os
import re
import shutil
import concurrent.futures as cf

from .. import core, drive, kv


def program(rng, nth, nops, keys):
    out = []
    for t in range(nth):
        p = []
        for _ in range(nops):
            k = rng.choice(keys)
            x = rng.random()
            if x < .4:
                p.append(("set", k, b"v%d" % rng.randrange(1000) + b"x" * rng.choice([0, 3, 2000, 9000])))
            elif x < .6:
                p.append(("remove", k, b""))
            elif x < .68:
                p.append(("clear", b"", b""))
            elif x < .82:
                p.append(("get", k, b""))
            elif x < .92:
                p.append(("has", k, b""))
            else:
                p.append(("size", b"", b""))
        out.append(p)
    return out


def lines_of(path, pre, prog, gate, keys):
    ls = [f"open {drive.hx(path)}"]
    ls += [kv.cmd(*o) for o in pre]
    for p in prog:
        ls.append("prog")
        ls += ["p " + kv.cmd(*o) for o in p]
    ls.append(f"run {gate}")
    read = []
    for k in keys:
        read += [f"has {drive.hx(k)}", f"get {drive.hx(k)}"]
    read.append("size")
    return ls + read + ["close", f"open {drive.hx(path)}"] + read + ["close"]


def contents(outs, keys):
    lst = [dict(k=kv.tok(k), v=kv.res(outs[2 * i + 1])) for i, k in enumerate(keys) if outs[2 * i] == "true"]
    ev = [dict(e="contents", m=lst)]
    if outs[-1] != str(len(lst)):
        ev.append(dict(e="sizediffers", size=outs[-1]))
    return ev


def execute(exe, jobs, env=None):
    """jobs: (pre, prog, gate, keys). Returns traces."""
    d = core.scratch("kvlin-")
    try:
        def one(j):
            pre, prog, gate, keys = jobs[j]
            outs, rc, err = drive.batch(exe, lines_of(b"c%d.db" % j, pre, prog, gate, keys), timeout=120, cwd=d, env=env)
            ev = []
            byline = {}
            for p in prog:
                for o in p:
                    byline[kv.cmd(*o)] = kv.orec(*o)
            n = 1
            for o in pre:
                if n >= len(outs):
                    return [dict(e="died", err=err[-300:])]
                r = kv.res(outs[n])
                ev += [dict(e="call", th=7, o=kv.orec(*o)), dict(e="ret", th=7, res=r)]
                n += 1
            n += sum(1 + len(p) for p in prog)
            while n < len(outs) and outs[n] != "end":
                m = re.match(r"(call|ret) (\d+) (.*)", outs[n])
                if m.group(1) == "call":
                    ev.append(dict(e="call", th=int(m.group(2)), o=byline[m.group(3)]))
                else:
                    ev.append(dict(e="ret", th=int(m.group(2)), res=kv.res(m.group(3))))
                n += 1
            n += 1
            rd = 2 * len(keys) + 1
            if len(outs) < n + 2 * rd + 3:
                return ev + [dict(e="died", err=err[-300:], rc=rc)]
            c1 = contents(outs[n:n + rd], keys)
            c2 = contents(outs[n + rd + 2:n + 2 * rd + 2], keys)
            if outs[n + rd + 1] != "opened":
                c2 = [dict(e="openfailed")]
            if gate == -1:
                race = "ThreadSanitizer" in err
                # an unrecorded run has no results to linearize: only the race reports and agreement
                # of the storage with its file count
                return ([dict(e="race", err=err[err.find("WARNING"):][:600])] if race else
                        ([dict(e="reopen")] if c1 == c2 else [dict(e="reopendiffers", a=c1, b=c2)]))
            return ev + c1 + [dict(e="reopen")] + c2
        with cf.ThreadPoolExecutor(core.CPUS) as ex:
            return list(ex.map(one, range(len(jobs))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    exe = core.build("kvdrv", ["kvdrv.cpp"])
    tsan = core.build("kvdrv", ["kvdrv.cpp"], "tsan")
    ctx.model("KVStore", "KVStore")
    bad = ctx.model("KVStore", "KVStore_nolock", expect_ok=False)
    ctx.notes["spec_mutation_detected"] = bad.violation
    keys = [b"a", b"b", b"A", b""]
    rng = ctx.rng
    jobs = []
    pre = [("set", b"a", b"0"), ("set", b"b", b"1")]
    # every mutating call held at each of its file writes while every other call runs
    muts = [("set", b"a", b"new"), ("set", b"q", b"y" * 9000), ("remove", b"a", b""), ("clear", b"", b"")]
    others = muts + [("get", b"a", b""), ("has", b"b", b""), ("size", b"", b""), ("set", b"b", b"2")]
    for m in muts:
        for o in others:
            for g in (1, 2):
                jobs.append((pre, [[m], [o, ("get", b"a", b""), ("size", b"", b"")]], g, keys + [b"q"]))
    for _ in range(ctx.n(60, 1500)):
        jobs.append((pre, program(rng, rng.choice([2, 3]), rng.choice([2, 4]), keys[:2]), rng.choice([1, 2, 3, 4]), keys))
    for _ in range(ctx.n(120, 3000)):
        jobs.append((pre, program(rng, rng.choice([2, 3, 4]), rng.choice([5, 10, 14]), keys), 0, keys))
    traces = execute(exe, jobs)
    bad = ctx.validate("KVLin", [dict(ev=t) for t in traces], mem="3g")
    for t in traces[:2]:
        ctx.sample(t)
    for i in bad[:3]:
        # a race need not show again: the recorded history itself is the evidence
        again = 0
        for _ in range(3):
            t2 = execute(exe, [jobs[i]])
            again += len(ctx.validate("KVLin", [dict(ev=t2[0])]))
        at, _ = ctx.explain("KVLin", dict(ev=traces[i]))
        ctx.violation(f"history is not linearizable: no order explains event {at}: {str(traces[i][min(at, len(traces[i])) - 1])[:200]} "
                      f"(again in {again} of 3 re-executions)", dict(program=jobs[i], history=traces[i], at=at))
    # data races, as the instrumentation sees them
    races = []
    for _ in range(ctx.n(24, 300)):
        races.append((pre, program(rng, 4, 60, keys), -1, keys))
    env = {**os.environ, "TSAN_OPTIONS": "halt_on_error=0 exitcode=0"}
    t2 = execute(tsan, races, env)
    for i in ctx.validate("KVLin", [dict(ev=t) for t in t2])[:2]:
        ctx.violation("data race or lost update: " + str(t2[i])[:500], dict(program=races[i], trace=t2[i]))
    ctx.notes.update(gated=sum(1 for j in jobs if j[2]), free=sum(1 for j in jobs if not j[2]), raced=len(races))
    return ctx.finish()
