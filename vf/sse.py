"""Event stream sessions: generation, replay, traces."""
import os
import shutil
from . import core, http, tlaval
from .drive import hx


def ints(b):
    return list(b)


class Msg:
    def __init__(self, data=b"", event=None, id=None, retry=None):
        self.data, self.event, self.id, self.retry = data, event, id, retry

    def op(self):
        h = lambda x: "~" if x is None else hx(x)
        return f"push:{h(self.event)}:{h(self.id)}:{'~' if self.retry is None else self.retry}:{hx(self.data)}"

    def json(self):
        return dict(event=ints(self.event or b""), id=ints(self.id or b""), hasid=self.id is not None,
                    retry=ints(b"" if self.retry is None else str(self.retry).encode()), data=ints(self.data))


class Case:
    def __init__(self, ops, head=None, part=0, seed=1, threads=False):
        """ops: Msg or raw driver ops"""
        self.ops, self.part, self.seed, self.threads = ops, part, seed, threads
        self.head = head or b"GET /events HTTP/1.1\r\nHost: a\r\nAccept: text/event-stream\r\nAccept-Encoding: gzip\r\n\r\n"
        self.msgs = [o for o in ops if isinstance(o, Msg)]
        self.why = ""
        self.jitter = 0

    def line(self):
        p = ",".join(o.op() if isinstance(o, Msg) else o for o in self.ops) or "none"
        own = int(any(o == "shut" for o in self.ops))
        return f"head={hx(self.head)} prog={p} part={self.part} seed={self.seed} own={own} list={int(self.threads)}"

    def trace(self, out):
        ev, buf, head = [], b"", True
        for ln in out:
            if ln == "hang" or ln == "died":
                ev.append(dict(e=ln))
                continue
            if not ln.startswith("@"):
                continue
            w = ln[1:].split(" ")
            k = w[0]
            if k == "s":
                b = bytes.fromhex(w[1])
                if head:
                    buf += b
                    i = buf.find(b"\r\n\r\n")
                    if i < 0:
                        continue
                    ls = buf[:i].split(b"\r\n")
                    first = ls[0].split(b" ", 2)
                    ev.append(dict(e="head", code=int(first[1]) if len(first) > 1 and first[1].isdigit() else 0,
                                   headers=[[ints(n.lower()), ints(v.strip())] for n, _, v in (x.partition(b":") for x in ls[1:])]))
                    head, b = False, buf[i + 4:]
                if b:
                    if ev and ev[-1]["e"] == "tx":
                        ev[-1]["b"] += ints(b)
                    else:
                        ev.append(dict(e="tx", b=ints(b)))
            elif k == "push":
                ev.append(dict(e="push", i=int(w[1])))
            elif k == "ret":
                ev.append(dict(e="ret", ok=w[1] == "1"))
            elif k == "ask":
                ev.append(dict(e="ask", r=w[1] == "1"))
            elif k in ("return", "throw"):
                ev.append(dict(e="leave"))
            elif k in ("open", "close", "fail", "gone", "shut", "eof", "noeof", "end"):
                ev.append(dict(e=k))
        return dict(ev=ev, msgs=[m.json() for m in self.msgs], big=sum(len(m.data) for m in self.msgs) > 3000)


def show(e):
    e = dict(e)
    if "b" in e:
        e["b"] = repr(bytes(e["b"])[:300])
    if "headers" in e:
        e["headers"] = [(bytes(a).decode("latin1"), bytes(b).decode("latin1")) for a, b in e["headers"]]
    return e


def judge(ctx, exe, cases, label="event stream"):
    done = [(c, o) for c, o in zip(cases, http.run_cases(exe, cases)) if o is not None]
    cases, traces = [c for c, _ in done], [c.trace(o) for c, o in done]
    for i in range(0, len(cases), 2000):
        for j in ctx.validate("SseTrace", traces[i:i + 2000], mem="3g")[:3]:
            c, again = cases[i + j], None
            for _ in range(3):
                a = c.trace(http.run_cases(exe, [c])[0])
                if ctx.validate("SseTrace", [a]):
                    again = a
                    break
            if again is None:
                ctx.log("not reproduced:", label, i + j)
                ctx.notes["not_reproduced"] = ctx.notes.get("not_reproduced", 0) + 1
                continue
            at, exp = ctx.explain("SseTrace", again)
            e = show(again["ev"][at - 1]) if at <= len(again["ev"]) else "end of trace"
            ctx.violation(f"{label}: event {at} is not allowed: {e} {str(exp)[:400]} {c.why[:300]}",
                          dict(case=c.line()[:20000], at=at, event=e, events=[show(x) for x in again["ev"]][:200]))
    if traces:
        ctx.sample([show(e) for e in traces[0]["ev"]][:14])
    return traces


def histories(ctx, limit):
    d = core.scratch("gen-")
    dot = os.path.join(d, "g.dot")
    ctx.model("SseConn", "SseGen", workers=1, extra=("-dump", "dot", dot))
    st, _, _ = tlaval.graph(dot)
    shutil.rmtree(d, ignore_errors=True)
    hs = sorted({tuple(tlaval.parse(s["hist"])) for s in st.values() if s["cur"].strip('"') == "none"})
    full = [h for h in hs if h]
    ctx.notes["spec_behaviours"] = len(full)
    return ctx.rng.sample(full, limit) if len(full) > limit else full


WORDS = [b"", b"a", b" lead", b"  two", b"trail ", b"a: b", b":", b": x", b"data: y", b"id:1", b"event: z", b"\t", b"\xc3\xa9\xe2\x82\xac", b"\xef\xbb\xbfx",
         b"x" * 40, b"0", b"{\"k\": 1}", b"retry: 5", b"\x00", b"\x7f", b"\x0b\x0c", b"\xc2\x85", b"\xe2\x80\xa8"]
BRK = [b"\n", b"\r\n", b"\r", b"\n\n", b"\r\r", b"\n\r", b"\r\n\r\n"]


def line(rng):
    return b"".join(rng.choice(WORDS) for _ in range(rng.randrange(0, 3)))


def data(rng, big=False):
    if big:
        return b"".join(rng.choice([line(rng), b"y" * rng.randrange(3000), rng.choice(BRK)]) for _ in range(30))
    k = rng.randrange(5)
    if k == 0:
        return rng.choice(WORDS)
    if k == 1:
        return rng.choice([b"", b"\n", b"\r", b"\r\n", b"\n\n", b"a\n", b"\na", b"a\r", b"\ra", b"a\r\n", b"\r\na", b"a\n\nb", b"a\r\n\r\nb", b"\n\r\n\r"])
    return b"".join(rng.choice([line(rng), line(rng), rng.choice(BRK)]) for _ in range(rng.randrange(1, 8)))


def msg(rng, bad=False, big=False):
    name = lambda: rng.choice([None, None, b"", b"update", b"close", b"message", line(rng)])
    m = Msg(data(rng, big), name(), rng.choice([None, None, b"", b"1", b"42", line(rng).replace(b"\0", b"")]),
            rng.choice([None, None, None, 0, 1, 3000, 4294967295]))
    if bad:
        w = rng.choice([b"a\nb", b"\n", b"x\r", b"\r\ndata: injected\r\n\r\n", b"x\r\nretry: 1"])
        if rng.random() < .5:
            m.event = w
        else:
            m.id = rng.choice([w, b"a\0b"])
    return m


def concrete(rng, h):
    ops = []
    for i, x in enumerate(h):
        if x == "push":
            ops.append(msg(rng))
        elif x == "bad":
            ops.append(msg(rng, bad=True))
        elif x in ("close", "ask"):
            ops.append(x)
        elif x == "shut":
            ops.append("shut")
        elif x == "gone":
            ops.append(rng.choice(["rst", "fail:0:pipe", "fail:0:reset", "fail:0:time"]))
        else:       # while the last call is sending
            n = 1 if x.endswith("1") else 0
            k = max(j for j, o in enumerate(ops) if isinstance(o, Msg) or o == "close")
            o = ops[k]
            size = len(o.data) + 8 if isinstance(o, Msg) else 20
            ops.insert(k, "fail:%d:%s" % (rng.randrange(1, size) if n else rng.choice([0, 1, 2, 3]), rng.choice(["pipe", "reset", "time"])))
    if rng.random() < .15:
        ops.append("throw")
    return ops
