"""C01: header collections."""
from .. import core, drive, pure, sess
from ..sess import SLOTS, res


def op(op, s="p", o="p", n=b"", v=b"", init=()):
    return dict(op=op, s=s, o=o, n=list(n), v=list(v), init=[[list(a), list(b)] for a, b in init])


def line(o):
    s = o["s"]
    h = lambda x: drive.hx(bytes(x))
    k = o["op"]
    if k == "new":
        return " ".join(["hnew", s] + [h(x) for p in o["init"] for x in p])
    if k in ("copy", "move", "assign", "massign"):
        return f"h{k} {s} {o['o']}"
    if k in ("set", "append"):
        return f"h{k} {s} {h(o['n'])} {h(o['v'])}"
    if k in ("del", "get", "has", "all"):
        return f"h{k} {s} {h(o['n'])}"
    return f"h{k} {s}"


PRE = ["reset"] + ["hnew " + s for s in SLOTS]


def record(exe):
    def f(cs):
        outs = pure.run(exe, [PRE + [line(o) for o in c] for c in cs])
        return [[dict(o=o, r=res(x)) for o, x in zip(c, out[len(PRE):])] for c, out in zip(cs, outs)]
    return f


def generated(ctx):
    out, edges = sess.generated(ctx, "HeaderGen")
    for c in out:
        for s in ("p", "q"):
            c += [op("entries", s), op("size", s), op("all", s, n=b"A"), op("get", s, n=b"B")]
    return out, edges


NAMES = [b"a", b"A", b"Host", b"hOST", b"host", b"X-Y", b"x-y", b"@Z[", b"@z[", b"z{`", b"Z{`", b"set-cookie", b"Set-Cookie", b"\xc3\x89a", b"\xc3\xa9a", b"\xff", b"a b", b"aa", b"AZ", b"az", b"1",
         b"x" * 40, b"X" * 40, b"content-length", b"Content-Length"]
VALUES = [b"", b"1", b"2", b"text/html; charset=utf-8", b"A", b"a", b"\xc3\xa9", b"a\tb", b"x" * 300, b"a, b", b"=", b"\"q\"", b"\x01", b"a\0b"]


def random_session(rng, n):
    out = []
    pool = rng.sample(NAMES, rng.randrange(1, 7))
    pool += [x.swapcase() for x in pool if rng.random() < .5]
    nm, vl = lambda: rng.choice(pool), lambda: rng.choice(VALUES)
    blank = lambda x: rng.choice([b"", b" ", b"\t", b"  "]) + x + rng.choice([b"", b" ", b"\t "])
    for _ in range(n):
        s, o = rng.choice(SLOTS), rng.choice(SLOTS)
        x = rng.random()
        if x < .22:
            out.append(op("append", s, n=nm(), v=vl()))
        elif x < .36:
            out.append(op("set", s, n=nm(), v=vl()))
        elif x < .44:
            out.append(op("del", s, n=nm()))
        elif x < .54 and s != o:
            out.append(op(rng.choice(["copy", "move", "assign", "massign"]), s, o))
        elif x < .57:
            out.append(op("new", s, init=[(blank(nm()), blank(vl())) for _ in range(rng.randrange(5))]))
        elif x < .60:
            out.append(op("assign", s, s))
        else:
            out.append(op(rng.choice(["get", "has", "all", "entries", "size"]), s, n=nm()))
            if out[-1]["op"] in ("entries", "size"):
                out[-1]["n"] = []
    for s in SLOTS:
        out += [op("entries", s), op("size", s)] + [op(k, s, n=n) for n in pool for k in ("all", "get", "has")]
    return out


def show(o):
    return f"{o['op']} {o['s']}" + (f" from {o['o']}" if o["op"] in ("copy", "move", "assign", "massign") else "") + (f" {bytes(o['n'])!r:.60}" if o["n"] else "") + (f" = {bytes(o['v'])!r:.60}" if o["v"] else "")


def run(ctx):
    exe = core.build("kvcdrv", ["kvcdrv.cpp"])
    ctx.model("HeaderMC", timeout=1200)
    for bug in ("rawlookup", "setfirst", "prepend", "rawdel"):
        if not ctx.model("HeaderMC", "HeaderMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs, edges = generated(ctx)
    walks = len(cs)
    cs += [random_session(ctx.rng, ctx.rng.randrange(5, 60)) for _ in range(ctx.n(1000, 20000))]
    tr = pure.judge(ctx, "HeaderTrace", cs, record(exe), None,
                    lambda c, t, at: "header collection, call %s: %s" % (at, show(c[min(at or 1, len(c)) - 1]) if c else ""))
    ctx.sample(tr[0][:12])
    ctx.notes.update(edges=edges, walks=walks, sessions=len(cs), calls=sum(len(c) for c in cs))
    return ctx.finish()
