"""U01: URLs and query strings."""
import itertools

from .. import core, drive, pure


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(6):
        out += [("url", b"a://" + bytes(x), []) for x in itertools.product(b"1:/@?#", repeat=n)]
    for n in range(ctx.n(5, 6)):
        out += [("url", bytes(x), []) for x in itertools.product(b"1:/@?#", repeat=n) if not bytes(x).startswith(b"//")]
    for n in range(1, 4):
        out += [("url", b"a://h/" + bytes(x), [b"1", b"11"]) for x in itertools.product(b"1=&?#", repeat=n + 1)
                if one_each(bytes(x))]
    for _ in range(ctx.n(6000, 80000)):
        out.append(grammar(rng))
    for _ in range(ctx.n(800, 8000)):
        u = bytearray(grammar(rng)[1])
        for _ in range(rng.randrange(1, 4)):
            if u and rng.random() < .5:
                del u[rng.randrange(len(u))]
            else:
                u.insert(rng.randrange(len(u) + 1), rng.choice(b"/:@?#[]a1"))
        if not u.startswith(b"//"):
            out.append(("url", bytes(u), []))
    for _ in range(ctx.n(1500, 15000)):
        q, names = query(rng, False)
        out.append(("usp", rng.choice([b"", b"?", b"/path?", b"http://h/p?"]) + q, names))
    return out


def one_each(doc):
    q = doc.split(b"#")[0].partition(b"?")[2]
    ns = [p.split(b"=")[0].lower() for p in q.split(b"&") if p.find(b"=") > 0]
    return len(ns) == len(set(ns))


WORD = [b"a", b"b", b"1", b"x-y", b"user", b"foo.bar", b"%20", b"%2F", b"~", b"_", b"+", b"!", b"*", b"'", b"(", b")", b",", b";", b"$", b"\xc3\xa9", b"A"]


def word(rng, extra=(), lo=1, hi=5):
    return b"".join(rng.choice(WORD + list(extra)) for _ in range(rng.randrange(lo, hi)))


def query(rng, inurl=True):
    used, parts = {}, []
    for _ in range(rng.randrange(6)):
        x = rng.random()
        if x < .12:
            parts.append(rng.choice([b"", b"flag", b"=x", b"="]))
            continue
        n = word(rng, [b"B", b"Q", b"/", b":", b"@"] + ([b"?"] if inurl else []), hi=4)
        if n.lower() in used:
            continue
        used[n.lower()] = n
        parts.append(n + b"=" + (b"" if x < .18 else word(rng, [b"=", b"/", b":", b"@", b"==", b"Z"] + ([b"?"] if inurl else []))))
    names = [rng.choice([n, n.swapcase(), n.upper()]) for n in used.values()] + [b"nothing"]
    return b"&".join(parts), names


def grammar(rng):
    s = b""
    if rng.random() < .85:
        s = rng.choice([b"http", b"https", b"ws", b"a", b"git+ssh", b"x-1.y"]) + b"://"
        x = rng.random()
        if x < .45:
            if x < .05:
                s += b"@"
            elif x < .10:
                s += b":" + word(rng, [b":"]) + b"@"
            elif x < .25:
                s += word(rng) + b"@"
            elif x < .29:
                s += word(rng) + b":@"
            else:
                s += word(rng) + b":" + word(rng, [b":"]) + b"@"
        x = rng.random()
        s += (rng.choice([b"[::1]", b"[fe80::1%25eth0]", b"[2001:db8::ff]"]) if x < .2 else b"" if x < .23 else
              rng.choice([b"h", b"example.com", b"127.0.0.1", b"localhost", b"a-b.c", b"xn--e1afmkfd.xn--p1ai", b"1"]))
        if rng.random() < .4:
            s += b":" + rng.choice([b"80", b"443", b"1", b"65535", b"08080"])
        x = rng.random()
        if x < .15:
            return ("url", s, [])
        if x < .25:
            s += rng.choice([b"?", b"#"]) + word(rng, [b"=", b"/", b"?"])
            return ("url", s, [])
    s += b"/" + b"/".join(word(rng, [b":", b"@", b"://", b"=", b"&"], lo=1 if i == 0 else 0) for i in range(rng.randrange(4)))
    names = []
    if rng.random() < .6:
        q, names = query(rng)
        s += b"?" + q
    if rng.random() < .5:
        s += b"#" + word(rng, [b"?", b"#", b"/", b"=", b"&", b"://", b"@"], lo=0)
    return ("url", s, names)


def fields(w):
    w = [list(drive.unhx(x)) for x in w[1:]]
    return w[:8], w[8:]


def out(case, line):
    r = dict(k=line, f=[], vals=[], href=dict(k="none", v=[]), again=dict(k="none", f=[], vals=[]))
    if line.startswith("u "):
        p = [x.split(" ") for x in line.split(" | ")]
        r["k"] = "u"
        r["f"], r["vals"] = fields(p[0])
        if p[1][0] == "nohref":
            r["href"]["k"] = "nohref"
        else:
            r["href"] = dict(k="v", v=list(drive.unhx(p[1][0])))
            r["again"]["k"] = p[2][0]
            if p[2][0] == "u":
                r["again"]["f"], r["again"]["vals"] = fields(p[2])
    elif line.startswith("l"):
        r["k"], r["vals"] = "l", [list(drive.unhx(x)) for x in line.split(" ")[1:]]
    return r


def record(exe):
    def f(cs):
        ls = [[" ".join([op, drive.hx(s)] + [drive.hx(n) for n in names])] for op, s, names in cs]
        return [dict(op=op, s=list(s), names=[list(n) for n in names], out=out(c, o[0])) for c, (op, s, names), o in zip(cs, cs, pure.run(exe, ls))]
    return f


def run(ctx):
    exe = core.build("kvcdrv", ["kvcdrv.cpp"])
    ctx.model("UrlMC", "UrlMC" if ctx.quick else "UrlMC_deep", timeout=2400)
    for bug in ("nohost", "colonstays", "hashinquery", "queryinhash"):
        if not ctx.model("UrlMC", "UrlMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)
    show = lambda o: "refused" if o["k"] == "throw" else o["k"] if o["k"] not in "ul" else "gives %s, href %r, again %s" % (
        [bytes(x) for x in o["f"] + o["vals"]], bytes(o["href"]["v"]), [bytes(x) for x in o["again"]["f"] + o["again"]["vals"]] if o["again"]["k"] == "u" else o["again"]["k"])
    tr = pure.judge(ctx, "UrlTrace", cs, record(exe), None, lambda c, t, at: f"{c[1]!r:.150} {show(t['out']):.400}")
    ctx.sample(tr[-1])
    ctx.notes["urls"] = len(cs)
    return ctx.finish()
