"""V06: concurrent histories of one virtual filesystem against VFSLin."""
import concurrent.futures as cf
import os
import re
import shutil

from .. import core, drive, kv

ints = list


def rec(o):
    k = o[0]
    if k in ("write", "writev"):
        return dict(op="write", p=ints(o[1]), c=kv.tok(o[2]), n=len(o[2]))
    if k == "move":
        return dict(op=k, p=ints(o[1]), q=ints(o[2]))
    if k in ("save", "load"):
        return dict(op=k, path=o[1].decode())
    return dict(op=k, **({"p": ints(o[1])} if len(o) > 1 else {}))


def cmd(o):
    return " ".join([o[0]] + [drive.hx(x) for x in o[1:]])


def files(line):
    return [(ints(drive.unhx(a)), int(n)) for a, _, _, n in (x.split(",") for x in line.split(" ")[1:])]


def res(line):
    w = line.split(" ")
    if w[0] == "file":
        b = drive.unhx(w[4])
        return dict(k="file", name=ints(drive.unhx(w[1])), c=kv.tok(b), n=len(b))
    if w[0] == "info":
        return dict(k="info", name=ints(drive.unhx(w[1])), n=int(w[4]))
    if w[0] == "list":
        return dict(k="list", r=[[a, n] for a, n in files(line)])
    return dict(k=w[0])


def content(rng):
    n = rng.choice([0, 1, 5, 511, 512, 513, 3000, 60000])
    return (b"%d." % rng.randrange(10 ** 6)) * (n // 3 + 1) if n else b""


def program(rng, t, nops, names, saves):
    p, mine = [], [b"pre.tar"]
    for i in range(nops):
        x = rng.random()
        n = rng.choice(names)
        if x < .3:
            p.append((rng.choice(["write", "writev"]), n, content(rng)))
        elif x < .42:
            p.append(("remove", n))
        elif x < .58:
            p.append(("move", n, rng.choice(names)))
        elif x < .7:
            p.append(("read", n))
        elif x < .76:
            p.append(("info", n))
        elif x < .84 or not saves:
            p.append(("list",))
        elif x < .94:
            f = b"s%d_%d" % (t, i) + rng.choice([b".tar", b".tgz", b".tar.gz"])
            mine.append(f)
            p.append(("save", f))
        else:
            p.append(("load", rng.choice(mine)))
    return p


def lines_of(pre, progs, seed, names):
    ls = ["clock 1000000"] + [cmd(o) for o in pre]
    for p in progs:
        ls.append("prog")
        ls += ["p " + cmd(o) for o in p]
    ls.append(f"run {seed}")
    tail = ["list"] + [cmd(("read", n)) for n in names] + ["stats"]
    disk = [o[1] for p in progs for o in p if o[0] == "save"]
    ls += tail
    for d in disk:
        ls += ["fresh", cmd(("load", d))] + tail
    return ls, tail, disk


def held(part):
    """listing, files and totals as one event"""
    m = {tuple(n): dict(name=n, n=k, c="?") for n, k in files(part[0])}
    for ln in part[1:-1]:
        r = res(ln)
        if r["k"] == "file" and tuple(r["name"]) in m and m[tuple(r["name"])]["n"] == r["n"]:
            m[tuple(r["name"])]["c"] = r["c"]
    w = part[-1].split(" ")
    return dict(m=list(m.values()), files=int(w[0]), size=int(w[1]) if int(w[1]) < 2 ** 31 else -1)


def execute(exe, jobs, env=None):
    d = core.scratch("vfslin-")
    low = lambda ns: sorted({n.lower() for n in ns})

    def one(j):
        pre, progs, seed, names = jobs[j]
        names = low(names)
        wd = os.path.join(d, str(j))
        os.makedirs(wd)
        ls, tail, disk = lines_of(pre, progs, seed, names)
        outs, rc, err = drive.batch(exe, ls, timeout=240, cwd=wd, env=env)
        shutil.rmtree(wd, ignore_errors=True)
        if seed == -1 and "ThreadSanitizer" in err:
            return [dict(e="race", err=err[err.find("WARNING"):][:900])]
        ev, n = [], 1
        by = {cmd(o): rec(o) for p in progs for o in p}
        for o in pre:
            if n < len(outs):
                ev += [dict(e="call", th=7, o=rec(o)), dict(e="ret", th=7, res=res(outs[n]))]
            n += 1
        n += sum(1 + len(p) for p in progs)
        while n < len(outs) and outs[n] != "end":
            m = re.match(r"(call|ret) (\d+) (.*)", outs[n])
            ev.append(dict(e="call", th=int(m[2]), o=by[m[3]]) if m[1] == "call" else dict(e="ret", th=int(m[2]), res=res(m[3])))
            n += 1
        n += 1
        if len(outs) < len(ls) + (len(ev) - 2 * len(pre) if seed != -1 else 0):
            return ev + [dict(e="died", rc=rc, err=err[-300:])]
        if seed == -1:
            return [dict(e="clean")]
        k = len(tail)
        ev.append(dict(e="contents", **held(outs[n:n + k])))
        n += k
        for f in disk:
            if outs[n + 1].split(" ")[0] != "ok":
                ev.append(dict(e="unreadable", path=f.decode()))
            else:
                ev.append(dict(e="disk", path=f.decode(), m=held(outs[n + 2:n + 2 + k])["m"]))
            n += 2 + k
        return ev
    try:
        with cf.ThreadPoolExecutor(core.CPUS) as ex:
            return list(ex.map(one, range(len(jobs))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    exe = core.build("vfsdrv", ["vfsdrv.cpp"])
    tsan = core.build("vfsdrv", ["vfsdrv.cpp"], "tsan")
    ctx.model("VFSConc", "VFSConc" if ctx.quick else "VFSConc_deep", timeout=2400)
    for bug in ("nolock", "movesplit", "savesplit"):
        if not ctx.model("VFSConc", "VFSConc_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    rng = ctx.rng
    names = [b"a", b"b/C", b"A", b"x.txt"]
    pre = [("write", b"a", b"0"), ("write", b"b/c", b"1" * 700), ("save", b"pre.tar")]
    jobs = []
    # every pair of calls, one of them changing something, with others around them
    muts = [("write", b"A", b"new"), ("write", b"q", b"y" * 9000), ("remove", b"a"), ("move", b"a", b"b/C"), ("move", b"b/c", b"q"), ("load", b"pre.tar")]
    others = muts + [("read", b"a"), ("info", b"b/C"), ("list",), ("save", b"o.tgz"), ("save", b"o.tar")]
    for m in muts:
        for o in others:
            for _ in range(ctx.n(2, 12)):
                jobs.append((pre, [[m, ("list",), ("write", b"a", b"later"), m], [o, ("list",)], [("read", b"a"), ("list",), ("read", b"q")]], rng.randrange(1, 1 << 30), names + [b"q"]))
    for _ in range(ctx.n(60, 1500)):
        jobs.append((pre, [program(rng, t, rng.choice([2, 4]), names[:2], True) for t in range(rng.choice([2, 3]))], rng.randrange(1, 1 << 30), names))
    for _ in range(ctx.n(80, 2000)):
        jobs.append((pre, [program(rng, t, rng.choice([5, 12]), names, rng.random() < .5) for t in range(rng.choice([2, 3, 4]))], rng.choice([0, rng.randrange(1, 1 << 30)]), names))
    traces = execute(exe, jobs)
    bad = ctx.validate("VFSLin", [dict(ev=t) for t in traces], mem="3g")
    for t in traces[:2]:
        ctx.sample(t[:30])
    for i in bad[:3]:
        # an interleaving need not show again: the recorded history itself is the evidence
        again = sum(len(ctx.validate("VFSLin", [dict(ev=execute(exe, [jobs[i]])[0])])) for _ in range(3))
        at, _ = ctx.explain("VFSLin", dict(ev=traces[i]))
        ctx.violation(f"history is not linearizable: no order explains event {at}: {str(traces[i][min(at or 1, len(traces[i])) - 1])[:300]} "
                      f"(again in {again} of 3 re-executions)", dict(program=str(jobs[i]), history=traces[i], at=at))
    races = [(pre, [program(rng, t, 40, names, t == 0) for t in range(4)], -1, names) for _ in range(ctx.n(24, 300))]
    env = {**os.environ, "TSAN_OPTIONS": "halt_on_error=0 exitcode=0"}
    t2 = execute(tsan, races, env)
    for i in ctx.validate("VFSLin", [dict(ev=t) for t in t2])[:2]:
        ctx.violation("data race or lost call: " + str(t2[i])[:700], dict(program=str(races[i]), trace=t2[i]))
    ctx.notes.update(perturbed=sum(1 for j in jobs if j[2]), free=sum(1 for j in jobs if not j[2]), raced=len(races))
    return ctx.finish()
