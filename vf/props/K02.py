"""Crash points: the driver is killed (SIGKILL, by strace's syscall injection) at the entry of every
file-related system call of a history, the file is opened again, and the resulting trace is validated."""
import concurrent.futures as cf
import os
import re
import shutil
import struct
import subprocess

from .. import core, drive, kv

CALLS = ("write,writev,pwrite64,pwritev,pwritev2,open,openat,openat2,creat,rename,renameat,renameat2,unlink,unlinkat,"
         "ftruncate,truncate,fsync,fdatasync,sendfile,copy_file_range,close,link,linkat,symlink,symlinkat,mkdir,mkdirat,"
         "fallocate,sync_file_range,msync,chmod,fchmod,lseek,read,readv,pread64")


def history(rng, i, small):
    """A list of commands for the batch mode, over several sessions."""
    path = f"db{i}.ldb".encode()
    pool, ops = [], []
    for sess in range(rng.choice([1, 2, 2, 3])):
        ops.append(("open",))
        for _ in range(rng.randrange(1, 5 if small else 9)):
            x = rng.random()
            if pool and rng.random() < 0.7:
                k = rng.choice(pool)
            else:
                n = rng.choice([1, 2, 3, 9, 30, 1000, 1024, 3000, 9000, 20000]) if rng.random() < 0.4 else 3
                k = bytes(rng.choice(b"abcxyz\0") for _ in range(3)) + b"p" * (n - 3)
                pool.append(k)
            if x < 0.6:
                n = rng.choice([0, 1, 5, 100, 1023, 1024, 5000, 8192, 30000])
                ops.append(("set", k, kv.rnd_bytes(rng, n)[:n]))
            elif x < 0.8:
                ops.append(("remove", k))
            elif x < 0.9:
                ops.append(("clear",))
            else:
                ops.append(("get", k))
        ops.append(("close",))
    return path, ops


def lines_of(path, ops):
    return [f"open {drive.hx(path)}" if o[0] == "open" else "close" if o[0] == "close" else kv.cmd(*o) for o in ops]


def run_batch(exe, wd, script, prog, inject=None, log=None):
    cmd = [exe, "batch", script, prog]
    if inject or log:
        st = ["strace", "-f", "-qq", "-o", log or "/dev/null"]
        st += ["-e", f"trace={CALLS}", "-y"] if not inject else ["-e", f"trace={inject[0]}", "-e", f"inject={inject[0]}:signal=KILL:when={inject[1]}"]
        cmd = st + cmd
    r = subprocess.run(cmd, cwd=wd, capture_output=True, timeout=120)
    done, cur, err = struct.unpack("iii", open(prog, "rb").read(12)) if os.path.exists(prog) else (0, 0, 0)
    return r.returncode, done, cur, err


def points(logfile, wd):
    """(syscall name, occurrence) of every traced call that touches the working directory."""
    n, out = {}, []
    rwd = os.path.realpath(wd)
    for line in open(logfile, errors="replace"):
        m = re.match(r"\d+\s+(\w+)\((.*)", line)
        if not m:
            continue
        name, rest = m.group(1), m.group(2)
        n[name] = n.get(name, 0) + 1
        if "progress" in rest or "script" in rest or ".tlc" in rest:
            continue
        touches = rwd + "/" in rest or re.search(r'"db\d', rest) or re.search(r'"\.?/?db', rest)
        if name in ("lseek", "read", "readv", "pread64"):
            continue        # nothing changes on disk between reads: the neighbouring points cover them
        if touches:
            out.append((name, n[name]))
    return out


def crash_events(ops, done, killed):
    ev = []
    for o in ops[:done]:
        if o[0] == "close":
            continue
        ev.append(dict(e="reopen") if o[0] == "open" else dict(e="did", o=kv.orec(*o)))
    if killed:
        o = ops[done] if done < len(ops) else ("close",)
        ev.append(dict(e="crash", o=kv.orec("none") if o[0] in ("open", "close") else kv.orec(*o)))
    return ev


def contents(exe, wd, path, ops):
    s = kv.Session(path)
    for o in ops:
        if len(o) > 1 and o[1] not in s.keys:
            s.keys.append(o[1])
    s.contents()
    s.end()
    outs, rc, err = drive.batch(exe, s.cmds, cwd=wd, timeout=60)
    return s.trace(outs)


def one(job):
    """One crash run: history up to the crash point, optionally a second crash while recovering."""
    exe, path, ops, point, second = job
    wd = core.scratch("cr-")
    try:
        script, prog = os.path.join(wd, "script"), os.path.join(wd, "progress")
        with open(script, "w") as f:
            f.write("\n".join(lines_of(path, ops)) + "\n")
        rc, done, cur, err = run_batch(exe, wd, script, prog, point)
        if err:
            return crash_events(ops, done, False) + [dict(e="openfailed")]
        killed = done < len(ops) or rc != 0
        ev = crash_events(ops, done, killed)
        if second:
            # a recovery session that is killed as well: open, one set
            o2 = [("open",), ("set", b"recov", b"R"), ("close",)]
            with open(script, "w") as f:
                f.write("\n".join(lines_of(path, o2)) + "\n")
            os.remove(prog)
            rc, done, cur, err = run_batch(exe, wd, script, prog, second)
            if err:
                return ev + [dict(e="openfailed")]
            ev += crash_events(o2, done, done < len(o2) or rc != 0)
            ops = ops + o2
        return ev + contents(exe, wd, path, ops)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def enumerate_points(exe, path, ops, prelude=None):
    wd = core.scratch("cr-")
    try:
        script, prog, log = (os.path.join(wd, x) for x in ("script", "progress", "log.tlc"))
        if prelude:
            with open(script, "w") as f:
                f.write("\n".join(lines_of(path, prelude)) + "\n")
            run_batch(exe, wd, script, prog)
            os.remove(prog)
        with open(script, "w") as f:
            f.write("\n".join(lines_of(path, ops)) + "\n")
        rc, done, cur, err = run_batch(exe, wd, script, prog, log=log)
        return points(log, wd), (done == len(ops) and not err)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(ctx):
    exe = core.build("kvdrv", ["kvdrv.cpp"])
    ctx.model("KVStore", "KVStore")
    bad = ctx.model("KVStore", "KVStore_inplace", expect_ok=False)
    ctx.notes["spec_mutation_detected"] = bad.violation
    jobs = []
    nhist = ctx.n(24, 250)
    hists = [history(ctx.rng, i, i % 3 > 0) for i in range(nhist)]
    # deliberate: a session whose only work is to reopen, records larger than any stream buffer, empty database
    hists.append((b"db0.ldb", [("open",), ("close",), ("open",), ("close",)]))
    hists.append((b"db1.ldb", [("open",), ("set", b"K" * 9000, b"V" * 5000), ("set", b"K" * 9000, b"W" * 100000), ("close",), ("open",), ("close",)]))
    hists.append((b"db2.ldb", [("open",)] + [("set", b"k%d" % i, b"v%d" % i * (i * 40)) for i in range(12)] + [("remove", b"k3"), ("close",), ("open",), ("get", b"k1"), ("close",)]))
    with cf.ThreadPoolExecutor(core.CPUS) as ex:
        pts = list(ex.map(lambda h: enumerate_points(exe, h[0], h[1]), hists))
    second_all = {}
    npoints = 0
    for (path, ops), (ps, ok) in zip(hists, pts):
        jobs.append((exe, path, ops, None, None))
        npoints += len(ps)
        for p in ps:
            jobs.append((exe, path, ops, p, None))
    # double crashes: sample of first points, all points of the recovery
    o2 = [("open",), ("set", b"recov", b"R"), ("close",)]
    for (path, ops), (ps, ok) in list(zip(hists, pts))[-3 - ctx.n(4, 40):]:
        rp, _ = enumerate_points(exe, path, o2, prelude=ops)
        for p in ctx.rng.sample(ps, min(len(ps), ctx.n(4, 30))):
            for q in rp:
                jobs.append((exe, path, ops, p, q))
    ctx.log(f"{npoints} crash points in {len(hists)} histories, {len(jobs)} runs")
    with cf.ThreadPoolExecutor(core.CPUS) as ex:
        traces = list(ex.map(one, jobs))
    crashed = sum(any(e["e"] == "crash" for e in t) for t in traces)
    if crashed < npoints * 0.5:
        raise core.CheckError(f"crash injection did not work: {crashed} of {npoints}")
    rej = ctx.validate("KVTrace", [dict(ev=t) for t in traces])
    ctx.sample(traces[len(traces) // 2])
    if rej:
        again = [one(jobs[i]) for i in rej[:12]]
        for i in ctx.validate("KVTrace", [dict(ev=t) for t in again])[:3]:
            at, exp = ctx.explain("KVTrace", dict(ev=again[i]))
            j = jobs[rej[i]]
            ctx.violation(f"after a crash at {j[3]} (then {j[4]}): {str(again[i][-1])[:200]} expected {exp}",
                          dict(ops=lines_of(j[1], j[2]), point=j[3], second=j[4], trace=again[i]))
    ctx.notes.update(crash_points=npoints, crash_runs=len(jobs), crashed=crashed)
    ctx.assumptions.append("crash = process killed between system calls; data handed to the kernel survives (no power loss, no torn write)")
    return ctx.finish()
