"""Whole servers with many clients: scripts, recording, judging."""
import concurrent.futures as cf
import itertools
import json
import os
import re
import subprocess

from . import core, tlaval
from .drive import hx

REPO = core.REPO


def get(path, tok=None, v=None, extra=b"", method=b"GET", body=None):
    q = [x for x in ([f"t={tok}"] if tok else []) + ([f"v={v}"] if v is not None else [])]
    s = method + b" " + path.encode() + (b"?" + "&".join(q).encode() if q else b"") + b" HTTP/1.1\r\nHost: a\r\n" + extra
    if body is not None:
        s += b"Content-Length: %d\r\n" % len(body)
    return s + b"\r\n" + (body or b"")


WS = b"Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n"


TOKENS = itertools.count(1)


class Script:
    """Commands of one run and what its requests are about."""

    def __init__(self, lax=False, lossy=False):
        self.lines, self.reqs, self.lax, self.lossy = [], {}, lax, lossy
        self.lists, self.conns, self.what = {}, {}, ""

    def op(self, *w):
        self.lines.append(" ".join(str(x) for x in w))

    def new(self, s, **o):
        self.lists[s] = o.get("list", 1) != 0
        self.op("new", s, *[f"{k}={v}" for k, v in o.items()])

    def open(self, c, s="a", *o):
        self.conns[c] = s
        self.op("open", c, s, *o)

    def ask(self, c, path="/echo", v=None, kind="keep", code=200, named=True, runs=True, extra=b"", raw=None, **kw):
        t = f"t{next(TOKENS)}"
        self.reqs[t] = dict(kind=kind, code=code, named=named, runs=runs)
        b = raw(t) if raw else get(path, t, v, extra, **kw)
        self.op("ask", c, t, hx(b))
        return t

    def wait(self, *alts):
        self.op("wait", ",".join(a.replace(" ", "_") for a in alts))

    def served(self, c, **kw):
        t = self.ask(c, **kw)
        self.wait(f"resp {c} {self.reqs[t]['code']} {t if self.reqs[t]['named'] else '?'}")
        return t

    def text(self):
        return ["case", *self.lines, "done"]

    def trace(self, out):
        ev = []
        for ln in out:
            if ln in ("died", "hang"):
                ev.append(dict(e=ln))
                continue
            if not ln.startswith("@"):
                continue
            w = ln[1:].split(" ")
            k = w[0]
            if k in ("made", "rejected"):
                ev.append(dict(e=k, s=w[1], n=int(w[2]), list=self.lists[w[1]]))
            elif k == "open":
                ev.append(dict(e=k, c=w[1], s=w[2]))
            elif k in ("noconn", "bye", "eof", "stream", "garbage"):
                ev.append(dict(e=k, c=w[1]))
            elif k == "ask":
                ev.append(dict(e=k, c=w[1], t=w[2]))
            elif k in ("enter", "leave"):
                # a detached server may still be busy with clients of an earlier run
                if w[1] not in self.reqs:
                    continue
                ev.append(dict(e=k, t=w[1]))
            elif k == "resp":
                ev.append(dict(e=k, c=w[1], code=int(w[2]), t=w[3]))
            elif k in ("shut", "shutx", "await", "awaitx", "kill", "killx"):
                ev.append(dict(e=k, s=w[1]))
            elif k == "fds":
                ev.append(dict(e=k, n=int(w[1]), m=int(w[2])))
            elif k == "fault":
                ev.append(dict(e=k, n=int(w[1])))
            elif k == "stormed":
                ev.append(dict(e=k, g=int(w[1]), b=int(w[2]), l=int(w[3])))
            elif k == "settle":
                ev.append(dict(e=k))
            else:
                ev.append(dict(e=k, what=" ".join(w[1:])))
        reqs = self.reqs or {"none": dict(kind="keep", code=0, named=False, runs=False)}
        return dict(ev=ev, reqs=reqs, lax=self.lax, lossy=self.lossy)


def run(exe, scripts, procs=8, timeout=40, env=None, per=None):
    """Returns the output lines of each script; a script that ends its process gets a last line died or hang.
    None for those that were not run because several others had ended like that."""
    lost = []
    outs = [None] * len(scripts)
    per = per or max(1, min(25, len(scripts) // procs))
    todo = [list(range(i, min(i + per, len(scripts)))) for i in range(0, len(scripts), per)]

    def chunk(idx):
        while idx and len(lost) < 6:
            text = "\n".join("\n".join(scripts[i].text()) for i in idx) + "\n"
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, **(env or {})})
            try:
                o, err = p.communicate(text.encode(), timeout=timeout + 4 * len(idx))
                late = False
            except subprocess.TimeoutExpired:
                p.kill()
                o, err = p.communicate()
                late = True
            cur, n = None, 0
            for ln in o.decode("latin-1").split("\n"):
                if ln == "case":
                    cur = []
                elif ln == "done" and cur is not None:
                    outs[idx[n]] = cur
                    n, cur = n + 1, None
                elif cur is not None and ln:
                    cur.append(ln)
            if n >= len(idx):
                return
            # the one that was running has ended the process; a hang has been recorded already
            cur = cur or []
            if not any(x.startswith("@hang") for x in cur):
                cur.append("hang" if late else "died")
            text = err.decode("latin-1")
            if "ERROR: AddressSanitizer" in text:
                text = " ".join(x.strip() for x in text[text.index("ERROR: AddressSanitizer"):].split("\n") if "/repo" in x or "ERROR" in x or REPO in x)
            scripts[idx[n]].what = text[:1500] + f" rc={p.returncode}"
            outs[idx[n]] = cur
            lost.append(idx[n])
            idx = idx[n + 1:]
    with cf.ThreadPoolExecutor(procs) as ex:
        list(ex.map(chunk, todo))
    return outs


def show(e):
    return " ".join(str(v) for v in e.values())


def judge(ctx, exe, scripts, label="server", procs=8, env=None, per=None, tries=3):
    both = [(s, o) for s, o in zip(scripts, run(exe, scripts, procs, env=env, per=per)) if o is not None]
    scripts, traces = [s for s, _ in both], [s.trace(o) for s, o in both]
    for i in range(0, len(scripts), 1000):
        for j in ctx.validate("ServerTrace", traces[i:i + 1000], mem="3g")[:3]:
            s, again = scripts[i + j], None
            first = traces[i + j]
            for k in range(tries):
                a = s.trace(run(exe, [s], 1, env=env)[0])
                if ctx.validate("ServerTrace", [a]):
                    again = a
                    break
            if again is None:
                at, _ = ctx.explain("ServerTrace", first)
                ctx.log("not reproduced:", label, i + j, [show(e) for e in first["ev"]][max(0, at - 8):at + 1], s.what[-300:])
                ctx.notes["not_reproduced"] = ctx.notes.get("not_reproduced", 0) + 1
                continue
            at, _ = ctx.explain("ServerTrace", again)
            e = show(again["ev"][at - 1]) if at <= len(again["ev"]) else "end of trace"
            ctx.violation(f"{label}: event {at} is not allowed: {e} {s.what[:700]}",
                          dict(script=s.lines[:400], at=at, event=e, events=[show(x) for x in again["ev"]][:400]))
    if traces:
        ctx.sample([show(e) for e in traces[0]["ev"]][:16])
    return traces


def behaviours(ctx, cfg, num, calm, frm, size):
    r = core.tlc("ServerGen", cfg, env=dict(FROM=str(frm), SIZE=str(size), CALM="1" if calm else "0"), workers=1, timeout=300,
                 extra=("-simulate", f"num={num}", "-depth", "300", "-seed", str(ctx.rng.randrange(1 << 30))), check=False)
    hs = {tuple((a, int(c)) for a, c in tlaval.parse(json.loads('"' + m + '"'))) for m in re.findall(r'"HIST (.*)"\s*$', r.out, re.M)}
    if not hs:
        raise core.CheckError("no behaviours: " + core.tail_err(r.out))
    ctx.states += sum(len(h) for h in hs)
    return sorted(hs)


class Play:
    """Turns a behaviour of the specification into a script."""

    def __init__(self, rng, hist, ballast=0, max=0, lax=False, rto=20000, shut=None):
        self.rng, s = rng, Script(lax=lax)
        self.s = s
        s.new("a", list=1, max=max, rto=rto, fast=1)
        s.op("fresh")
        s.op("seed", rng.randrange(1, 1 << 40))
        self.live = 0
        for i in range(ballast):
            s.open(f"b{i}")
            s.served(f"b{i}")
        self.live += ballast
        pend, busy, dead, killed = {}, {}, set(), False
        fate = {c: a for a, c in hist if a in ("refuse", "nothread")}
        nxt = lambda i, kinds, c: next((a for a, x in hist[i + 1:] if x == c and a in kinds), None)
        for i, (a, c) in enumerate(hist):
            n = f"c{c}"
            if a == "open":
                if fate.get(c) == "nothread" and not killed:
                    s.op("failthread", 1)
                s.open(n)
                if not killed:
                    if fate.get(c) or lax:
                        if fate.get(c):
                            s.wait(f"eof {n}")
                            dead.add(c)
                    else:
                        self.live += 1
                        s.op("live", self.live, "exact=1")
            elif a == "ask":
                t = s.ask(n, "/gate")
                pend.setdefault(c, []).append(t)
            elif a == "begin":
                t = pend[c].pop(0)
                busy[c] = t
                if not killed:
                    s.wait(f"enter {t}", f"eof {n}") if lax else s.wait(f"enter {t}")
            elif a == "rel":
                t = busy.pop(c)
                s.op("rel", t)
                if not killed:
                    s.wait(f"resp {n} 200 {t}", f"eof {n}") if lax else s.wait(f"resp {n} 200 {t}")
            elif a == "leave":
                how = rng.choice(["close", "rst", "half"])
                s.op("bye", n, how)
                if how == "half" and not killed:
                    s.wait(f"eof {n}")
                dead.add(c)
                if not killed:
                    self.live -= 1
                    s.op("settle", self.live)
            elif a == "kill":
                killed = True
                self.end(shut)
            if lax and rng.random() < .2:
                s.op("sleep", rng.choice([50, 300, 2000]))
        for b in range(ballast):
            s.op("bye", f"b{b}", "close")
        for c, ts in list(pend.items()) + [(c, [t]) for c, t in busy.items()]:
            for t in ts:
                s.op("rel", t)
        if not lax:
            # nothing is left to wait for the timeout
            for c in sorted({c for a, c in hist if a == "open"} - dead):
                s.op("bye", f"c{c}", "close")
        if not killed:
            self.end(shut)
        self.finish()

    def end(self, shut):
        s, rng = self.s, self.rng
        self.how = shut or rng.choice(["kill", "shut", "await", "two", "both"])
        if self.how == "kill":
            s.op("kill", "a")
        elif self.how == "shut":
            s.op("shut", "a", rng.choice(["here=1", "bg=1"]))
        elif self.how == "await":
            s.op("await", "a")
            s.op("shut", "a")
        elif self.how == "two":
            s.op("shut", "a", "1")
            s.op("shut", "a", "2")
        else:
            s.op("shut", "a", "here=1")
            s.op("kill", "a")

    def finish(self):
        s = self.s
        if self.how in ("shut", "two"):
            for k in ([" 1", " 2"] if self.how == "two" else [""]):
                s.wait("shutx a" + k)
            s.op("kill", "a")
        if self.how == "await":
            s.wait("awaitx a")
            s.op("kill", "a")
        s.wait("killx a")
