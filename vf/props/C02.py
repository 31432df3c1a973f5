"""C02: cookies."""
import time

from .. import core, drive, pure, sess
from ..sess import SLOTS, res

NOW = list(time.gmtime()[:6])


def op(op, s="p", o="p", n=b"", v=b"", a=0):
    return dict(op=op, s=s, o=o, n=list(n), v=list(v), a=a)


def line(o):
    s, k = o["s"], o["op"]
    h = lambda x: drive.hx(bytes(x))
    if k in ("new", "req"):
        return f"c{k} {s} {h(o['v'])}"
    if k in ("copy", "move", "assign", "massign"):
        return f"c{k} {s} {o['o']}"
    if k == "set":
        return f"cset {s} {h(o['n'])} {h(o['v'])} {drive.hx(str(o['a']).encode())}"
    if k in ("del", "get", "has"):
        return f"c{k} {s} {h(o['n'])}"
    return f"c{k} {s}"


PRE = ["reset"] + ["cempty " + s for s in SLOTS]


def record(exe):
    def f(cs):
        outs = pure.run(exe, [PRE + [line(o) for o in c] for c in cs])
        return [dict(now=NOW, ev=[dict(o=o, r=res(x)) for o, x in zip(c, out[len(PRE):])]) for c, out in zip(cs, outs)]
    return f


NAMES = [b"a", b"A", b"sid", b"SID", b"Session_ID", b"session_id", b"x-y", b"X-Y", b"z", b"Z", b"__Host-t", b"__host-T", b"a.b", b"first2", b"expires", b"path", b"@", b"az", b"AZ"]
VALUES = [b"1", b"x", b"a=b", b"==", b"abc def", b"\"quoted\"", b"%20", b"A", b"v" * 200, b"a,b", b"deleted", b"Thu, 01 Jan 1970 00:00:00 GMT", b"\xc3\xa9", b"0"]


def cookie_string(rng, pool):
    used, parts = set(), []
    for _ in range(rng.randrange(6)):
        x = rng.random()
        if x < .15:
            parts.append(rng.choice([b"novalue", b"=x", b"", b"=", b"Secure"]))
            continue
        n = rng.choice(pool)
        if n.lower() in used:
            continue
        used.add(n.lower())
        parts.append(n + b"=" + (b"" if x < .2 else rng.choice(VALUES)))
    out = b""
    for i, x in enumerate(parts):
        out += (rng.choice([b"; ", b"; ", b";", b";  ", b" ; ", b";\t"]) if i else b"") + x
    return out + rng.choice([b"", b"", b"", b";", b"; "])


def random_session(rng, n):
    pool = rng.sample(NAMES, rng.randrange(1, 6))
    pool += [x.swapcase() for x in pool if rng.random() < .5]
    nm, out = lambda: rng.choice(pool), []
    if rng.random() < .5:
        out.append(op(rng.choice(["new", "req"]), v=cookie_string(rng, pool)))
    for _ in range(n):
        s, o = rng.choice(SLOTS), rng.choice(SLOTS)
        x = rng.random()
        if x < .25:
            out.append(op("set", s, n=nm(), v=rng.choice(VALUES) if rng.random() < .93 else b"", a=rng.randrange(6)))
        elif x < .42:
            out.append(op("del", s, n=nm()))
        elif x < .52 and s != o:
            out.append(op(rng.choice(["copy", "move", "assign", "massign"]), s, o))
        elif x < .55:
            out.append(op("assign", s, s))
        elif x < .62:
            out.append(op(rng.choice(["new", "req"]), s, v=cookie_string(rng, pool)))
        else:
            k = rng.choice(["get", "get", "has", "entries", "size", "ser", "resp"])
            out.append(op(k, s, n=nm() if k in ("get", "has") else b""))
    for s in SLOTS:
        out += [op(k, s) for k in ("entries", "size", "ser", "resp")] + [op(k, s, n=n) for n in pool for k in ("get", "has")]
    return out


def show(o):
    return f"{o['op']} {o['s']}" + (f" from {o['o']}" if o["op"] in ("copy", "move", "assign", "massign") else "") + (f" {bytes(o['n'])!r:.60}" if o["n"] else "") + (f" = {bytes(o['v'])!r:.60}" if o["v"] else "")


def run(ctx):
    exe = core.build("kvcdrv", ["kvcdrv.cpp"])
    ctx.model("CookieMC", timeout=1200)
    for bug in ("rawname", "delwins", "attrskept", "unqueue", "copyjar"):
        if not ctx.model("CookieMC", "CookieMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs, edges = sess.generated(ctx, "CookieGen")
    for c in cs:
        for s in ("p", "q"):
            c += [op(k, s) for k in ("entries", "size", "ser", "resp")] + [op("get", s, n=b"A"), op("get", s, n=b"B")]
    walks = len(cs)
    cs += [random_session(ctx.rng, ctx.rng.randrange(3, 40)) for _ in range(ctx.n(1000, 20000))]

    def describe(c, t, at):
        i = min(at or 1, len(c)) - 1
        r = t["ev"][i]["r"] if i < len(t["ev"]) else {}
        got = [bytes(x) for x in r.get("l", [])] or (bytes(r["v"]) if r.get("k") == "v" else r.get("k"))
        return "cookies, after %s: %s gave %.200r" % (", ".join(show(o) for o in c[max(0, i - 4):i]), show(c[i]), got)
    tr = pure.judge(ctx, "CookieTrace", cs, record(exe), None, describe)
    ctx.sample(dict(now=NOW, ev=tr[0]["ev"][:10]))
    ctx.notes.update(edges=edges, walks=walks, sessions=len(cs), calls=sum(len(c) for c in cs))
    return ctx.finish()
