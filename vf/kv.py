"""Key-value storage: sessions, crash runs, concurrent histories."""
import hashlib
import os
import re
import shutil
import subprocess

from . import core, drive, tlaval


def tok(b):
    return core.b2s(b) if len(b) <= 40 else f"#{len(b)}:{hashlib.sha1(b).hexdigest()[:12]}"


def orec(op, k=b"", v=b""):
    return dict(op=op, k=tok(k), v=tok(v), klen=len(k))


def cmd(op, k=b"", v=b""):
    if op == "set":
        return f"set {drive.hx(k)} {drive.hx(v)}"
    if op in ("get", "has", "remove"):
        return f"{op} {drive.hx(k)}"
    return op


def res(line):
    """driver output -> result token of the spec"""
    if line.startswith("v "):
        return tok(drive.unhx(line[2:]))
    return line


class Session:
    """Builds driver commands and, from the outputs, the events of a trace."""

    def __init__(self, path, default=False):
        self.path, self.default = path, default
        self.cmds, self.mk, self.keys = [], [], []
        self._open()

    def _open(self):
        self.cmds.append("opendef" if self.default else f"open {drive.hx(self.path)}")
        self.mk.append(("open",))

    def op(self, op, k=b"", v=b""):
        if op == "reopen":
            return self.reopen()
        if k not in self.keys:
            self.keys.append(k)
        self.cmds.append(cmd(op, k, v))
        self.mk.append(("op", orec(op, k, v)))

    def reopen(self):
        self.cmds.append("close")
        self.mk.append(("skip",))
        self._open()

    def contents(self, kind="contents"):
        ks = [k for k in self.keys if len(k) <= 65535]
        for k in ks:
            self.cmds += [f"has {drive.hx(k)}", f"get {drive.hx(k)}"]
        self.cmds.append("size")
        self.mk.append((kind, ks))

    def end(self):
        self.cmds.append("close")
        self.mk.append(("skip",))

    def trace(self, outs):
        """outs: one output line per command. Returns the event list; stops at the first missing line."""
        ev, i, first = [], 0, True
        for m in self.mk:
            if i >= len(outs):
                ev.append(dict(e="died"))
                return ev
            if m[0] == "open":
                if outs[i] != "opened":
                    ev.append(dict(e="openfailed"))
                    return ev
                if not first:
                    ev.append(dict(e="reopen"))
                first = False
                i += 1
            elif m[0] == "skip":
                i += 1
            elif m[0] == "op":
                ev.append(dict(e="op", o=m[1], res=res(outs[i])))
                i += 1
            else:
                lst = []
                ks = m[1]
                part = outs[i:i + 2 * len(ks) + 1]
                if len(part) < 2 * len(ks) + 1:
                    ev.append(dict(e="died"))
                    return ev
                for n, k in enumerate(ks):
                    if part[2 * n] == "true":
                        lst.append(dict(k=tok(k), v=res(part[2 * n + 1])))
                ev.append(dict(e=m[0], m=lst))
                if part[-1] != str(len(lst)):
                    ev.append(dict(e="sizediffers", size=part[-1]))
                i += len(part)
        return ev


def run_sessions(ctx, exe, sessions, env=None):
    """Runs sessions in a few driver processes; returns their traces."""
    d = core.scratch("kv-")
    try:
        import concurrent.futures as cf
        n = core.CPUS
        groups = [sessions[i::n] for i in range(n)]

        def one(gi):
            g = groups[gi]
            wd = os.path.join(d, str(gi))
            os.makedirs(wd)
            res_, pend = [], list(g)
            out_traces = []
            while pend:
                lines = [c for s in pend for c in s.cmds]
                outs, rc, err = drive.batch(exe, lines, timeout=300, cwd=wd, env=env)
                pos = 0
                done = 0
                for s in pend:
                    part = outs[pos:pos + len(s.cmds)]
                    out_traces.append(s.trace(part))
                    done += 1
                    pos += len(s.cmds)
                    if len(part) < len(s.cmds):
                        break
                pend = pend[done:]
            return out_traces
        with cf.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(one, range(n)))
        traces = [None] * len(sessions)
        for gi, p in enumerate(parts):
            for j, t in enumerate(p):
                traces[gi + j * n] = t
        return traces
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, exe, sessions, spec="KVTrace", env=None, label="session"):
    """Validates, re-executes what was rejected, reports what is rejected again."""
    traces = run_sessions(ctx, exe, sessions, env)
    bad = ctx.validate(spec, [dict(ev=t) for t in traces])
    for t in traces[:1]:
        ctx.sample(t[:12])
    if bad:
        again = [sessions[i] for i in bad[:20]]
        for s in again:
            s.path = s.path  # same file name, fresh directory
        t2 = run_sessions(ctx, exe, again, env)
        bad2 = ctx.validate(spec, [dict(ev=t) for t in t2])
        for i in bad2[:3]:
            at, exp = ctx.explain(spec, dict(ev=t2[i]))
            ctx.violation(f"{label}: event {at} is not allowed by the specification: "
                          f"{str(t2[i][at - 1] if at and at <= len(t2[i]) else t2[i][-1])[:300]} {exp or ''}",
                          dict(commands=again[i].cmds[:400], trace=t2[i], at=at))
    return traces


def gen_sessions(ctx, maxlen=40):
    """Sessions covering every edge of the KVGen state graph."""
    d = core.scratch("gen-")
    dot = os.path.join(d, "g.dot")
    ctx.model("KVGen", workers=1, extra=("-dump", "dot,actionlabels", dot))
    st, ed, init = tlaval.graph(dot)
    shutil.rmtree(d, ignore_errors=True)
    out = []
    memo = {}
    for w in tlaval.walks(st, ed, init, ctx.rng, maxlen):
        ops = []
        for _, sid in w:
            if sid not in memo:
                memo[sid] = tlaval.parse(st[sid]["last"])
            o = memo[sid]
            ops.append((o["op"], o["k"].encode() * max(1, o["klen"]) if o["k"] else b"", o["v"].encode()))
        out.append(ops)
    return out, sum(len(e) for e in ed.values())


SIZES = [0, 0, 1, 2, 3, 7, 8, 9, 100, 255, 256, 257, 511, 512, 1015, 1016, 1023, 1024, 1025, 4096, 8183, 8191, 8192, 8193, 20000]


def rnd_bytes(rng, n):
    style = rng.randrange(4)
    if style == 0:
        return bytes(rng.randrange(256) for _ in range(min(n, 64))) * (n // 64 + 1) if n > 64 else bytes(rng.randrange(256) for _ in range(n))
    if style == 1:
        return bytes([rng.choice([0, 10, 13, 26, 255, 65])]) * n
    if style == 2:
        return (b"mlkvdb\x03\x00" * (n // 8 + 1))[:n]
    return ("k%d" % rng.randrange(10 ** 6)).encode().ljust(n, b"-")[:n]


def rnd_key(rng, pool):
    if pool and rng.random() < 0.75:
        return rng.choice(pool)
    n = rng.choice(SIZES[:18] + ([65534, 65535, 65536, 65537, 70000, 131072] if rng.random() < 0.15 else [5]))
    k = rnd_bytes(rng, n)[:n]
    if pool and rng.random() < 0.3:   # near-collisions: case, prefix, embedded zero
        b = rng.choice(pool)
        k = rng.choice([b.swapcase(), b + b"\0", b[:-1], b"\0" + b, b + b" "])
    if len(pool) < 12:
        pool.append(k)
    return k


def rnd_session(rng, i, path=None, default=False, nops=None):
    s = Session((path or f"db{i}.ldb").encode(), default)
    pool = []
    for _ in range(nops or rng.randrange(3, 40)):
        x = rng.random()
        k = rnd_key(rng, pool)
        if x < 0.42:
            n = rng.choice(SIZES) if rng.random() < 0.98 else rng.choice([65535, 65536, 200000, 1 << 20])
            s.op("set", k, rnd_bytes(rng, n)[:n])
        elif x < 0.58:
            s.op("get", k)
        elif x < 0.66:
            s.op("has", k)
        elif x < 0.82:
            s.op("remove", k)
        elif x < 0.86:
            s.op("clear")
        elif x < 0.91:
            s.op("size")
        else:
            s.reopen()
            if rng.random() < 0.3:
                s.contents()
    s.contents()
    s.reopen()
    s.contents()
    if rng.random() < 0.5:
        s.reopen()
        s.contents()
    s.end()
    return s
