"""Z02: the vocabulary of HTTP."""
import base64
import itertools

from .. import core, drive, pure

NAMES = [b"GET", b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS", b"TRACE", b"PATCH", b"CONNECT"]
MEDIA = """html htm css js json png jpg jpeg gif svg txt xml pdf zip gz mp3 mp4 webm webp wasm woff woff2 ttf otf csv avif md xhtml""".split()


def case(op, *a, n=0, ck=(), odd=False):
    return (op, tuple(a), n, tuple(ck), odd)


def cases(ctx):
    rng, out = ctx.rng, []
    rb = lambda al, n: bytes(rng.choice(al) for _ in range(n))
    every = bytes(range(256))
    # methods: in any letter case, with blanks around; and what looks like one
    for m in NAMES:
        for x in (m, m.lower(), m.title(), m.swapcase(), b" " + m, m + b"\r\n", b"\t" + m.lower() + b" "):
            out.append(case("method", x))
        out += [case("method", x) for x in (m[:-1], m[1:], m + b"S", m + m, m[:1] + b" " + m[1:], m.replace(b"E", b"3"), m + b"/", b"X" + m)]
        out += [case("meq", m, x) for x in NAMES + [m.lower(), m.title(), m[:-1], m + b"X", b""]]
        out += [case("method", bytes(b if rng.random() < .5 else (b | 32) for b in m)) for _ in range(5)]
    out += [case("method", x) for x in (b"", b" ", b"get\0", b"G\xc9T", b"PROPFIND", b"UPDATE")] + [case("mdef")]
    # every status there could be
    out += [case("status", n=n) for n in [*range(0, 620), 700, 999, 1000, 1 << 16, 200 + (1 << 16), 2**31 - 1]]
    for n in [100, 199, 200, 299, 300, 399, 400, 499, 500, 599, 600, 999] + [rng.randrange(100, 1000) for _ in range(30)]:
        out.append(case("statust", rb(every, rng.randrange(8)), n=n))
    # credentials
    parts = [b"", b"a", b":", b"::", b"user", b"p:w", b"\xc3\xa9", b"\0", b" ", b"=" * 3]
    e = lambda x: base64.b64encode(x)
    for u, p in itertools.product(parts, parts):
        out.append(case("basic", b"Basic " + e(u + b":" + p)))
    for k in range(ctx.n(500, 6000)):
        raw = rb(rng.choice([b"ab:", every, b"user:pass "]), rng.randrange(rng.choice([6, 40])))
        if rng.random() < .7 and b":" not in raw:
            raw += b":" + rb(every, rng.randrange(5))
        enc = bytearray(e(raw))
        r = rng.random()
        if r < .1 and enc:
            enc[rng.randrange(len(enc))] = rng.choice(b"!-_ \n=.\xff")
        elif r < .15:
            enc = enc.rstrip(b"=")
        elif r < .2 and enc:
            del enc[-1]
        scheme = rng.choice([b"Basic", b"basic", b"BASIC", b"bAsIc", b"Basic", b"Bearer", b"Digest", b"Basi", b"Basicx", b"", b"xBasic"])
        out.append(case("basic", scheme + rng.choice([b" ", b" ", b" ", b"  ", b"   "]) + bytes(enc) + rng.choice([b"", b"", b" "])))
    out += [case("basic", x) for x in (b"", b" ", b"Basic", b"Basic ", b"Basic  ", b"YTpi", b"Bearer YTpi", b"Digest YTpi")]
    # bodies, requests, responses
    out += [case("body", x) for x in [b"", b"\0", b"a\0b", b"\xff\xfe", bytes(range(256))] + [rb(every, rng.randrange(300)) for _ in range(40)]]
    hn = [b"a", b"x-one", b"content-type", b"accept", b"zz", b"cookie2"]
    for _ in range(ctx.n(120, 1000)):
        hs = [y for k in rng.sample(hn, rng.randrange(5)) for y in (k, rb(b"abc ;=/1", rng.randrange(1, 9)).strip() or b"v")]
        body = rng.choice([b"", rb(every, rng.randrange(60))])
        out.append(case("resp", body, *hs, n=rng.choice([200, 204, 301, 404, 500])))
        ck = [(b"k%d" % i, rb(b"ab1", rng.randrange(1, 5))) for i in range(rng.randrange(4))]
        if ck:
            hs = hs + [b"cookie", b"; ".join(k + b"=" + v for k, v in ck)]
        out.append(case("reqs", b"/" + rb(b"ab/.", rng.randrange(9)).replace(b"//", b"/"), rng.choice(NAMES), body, *hs, ck=[y for p in ck for y in p]))
    for ps in itertools.product([(b"", b""), (b"", b"v"), (b"a", b""), (b"a", b"b"), (b"sid", b"1=2")], repeat=2):
        out += [case("setck", *ps[0]), case("setck", *ps[0], *ps[1]), case("setck", *ps[1], b"q", b"r", *ps[0])]
    out.append(case("setck"))
    # media types
    for x in MEDIA:
        x = x.encode()
        out += [case("mime", y) for y in (x, b"." + x, b"index." + x, b"/a.b/c." + x, b"a." + x + b"." + x, b"a.tar." + x, b"x.zip." + x)]
        out += [case("mime", x + b"." + b"zzq", odd=True), case("mime", x + b"zzq", odd=True), case("mime", x + b".", odd=True)]
    out += [case("mime", x, odd=True) for x in (b"", b".", b"..", b"zzq", b"a.zzq", b"\xff.\xff", b" ")]
    T = b"text/html text/css text/plain application/json image/png image/jpeg image/gif image/svg+xml application/pdf application/zip audio/mpeg video/mp4 video/webm image/webp application/wasm font/woff font/woff2 text/csv".split()
    out += [case("ext", x) for x in T] + [case("ext", x, odd=True) for x in (b"", b"text", b"text/zzq", b"application/octet-stream2", b"html", b"text/html;x")]
    return list(dict.fromkeys(out))


def line(c):
    op, a, n, _, _ = c
    w = [op]
    if op in ("status", "statust", "resp"):
        w.append(str(n))
    return " ".join(w + [drive.hx(x) for x in a])


def parse(x):
    w = x.split(" ")
    r = dict(k=w[0], v=[], l=[], n=0, m=0, ck=[])
    dec = lambda ys: [list(drive.unhx(y)) for y in ys]
    if w[0] == "v":
        r["v"] = dec(w[1:])[0]
    elif w[0] == "m":
        r.update(v=dec(w[1:2])[0], n=int(w[2]))
    elif w[0] == "s":
        r.update(n=int(w[1]), v=dec(w[2:3])[0], m=int(w[3]))
    elif w[0] == "l":
        r["l"] = dec(w[1:])
    elif w[0] == "r":
        if "|" in w:
            k = w.index("|")
            r.update(l=dec(w[1:k]), ck=dec(w[k + 1:]))
        else:
            r.update(n=int(w[1]), l=dec(w[2:]))
    return r


def record(exe):
    def f(cs):
        outs = pure.run(exe, [[line(c)] for c in cs])
        return [dict(op=c[0], a=[list(y) for y in c[1]], n=c[2], ck=[list(y) for y in c[3]], odd=c[4], out=parse(o[-1])) for c, o in zip(cs, outs)]
    return f


def run(ctx):
    exe = core.build("miscdrv", ["miscdrv.cpp"], "asan")
    ctx.model("VocabMC")
    for bug in ("lastcolon", "stop"):
        if not ctx.model("VocabMC", "VocabMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)
    tr = pure.judge(ctx, "VocabTrace", cs, record(exe), None, lambda c, t, at: f"{c[0]} {c[2] or ''} {c[1]!r:.200}: {t['out']!r:.300}")
    ctx.sample(tr[len(tr) // 2])
    ctx.notes["calls"] = {k: sum(c[0] == k for c in cs) for k in {c[0] for c in cs}}
    return ctx.finish()
