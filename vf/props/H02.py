"""H02: one well-framed response per request."""
from .. import core, http

CODES = [200, 200, 200, 201, 206, 302, 400, 404, 410, 418, 500, 503, 204, 304, 299, 599]
TEXTS = [b"", b"", b"", b"Fine", b"Not At All: really", b"x"]
NAMES = [b"X-One", b"x-two", b"Content-Type", b"Cache-Control", b"Set-Cookie", b"ETag", b"x-one", b"Location"]


def response(rng, compress):
    n = rng.choice([0, 0, 1, 2, 10, 100, 2047, 2048, 5000, 30000])
    k = rng.randrange(4)
    b = rng.randbytes(n) if k == 0 else (b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\n" * (n // 38 + 1))[:n] if k == 1 else b"r" * n
    hs = []
    for _ in range(rng.randrange(4)):
        k = rng.choice(NAMES)
        hs.append((k, rng.choice([b"text/plain", b"image/png", b"a; b=c", b"v%d" % rng.randrange(99), b"x" * 300])))
    if rng.random() < .1:
        hs.append((b"Content-Length", rng.choice([b"3", b"99999"])))
    if rng.random() < .1:
        hs.append((rng.choice([b"Date", b"Server", b"X-Request-ID"]), b"mine"))
    if rng.random() < .05:
        hs.append((b"Connection", b"keep-alive"))
    seen, out = set(), []
    for k, v in hs:      # repeated names only where the handler may repeat them
        if k.lower() in seen and k.lower() not in (b"set-cookie", b"x-one", b"x-two"):
            continue
        seen.add(k.lower())
        out.append((k, v))
    code = rng.choice(CODES)
    return http.hand(rng.choice(["resp"] * 9 + ["std", "none"]), code, b"Own" if code in (299, 599) else rng.choice(TEXTS), out, b)


def rnd(rng, i):
    ms, hs = [], []
    comp = rng.random() < .4
    for k in range(rng.randrange(1, 6)):
        m = rng.choice([b"GET", b"GET", b"HEAD", b"POST"])
        h = [(b"Accept-Encoding", rng.choice([b"gzip", b"br", b"deflate, gzip"]))] if comp and rng.random() < .5 else []
        ms.append(http.request(m, b"/%d" % k, h, b"body" * rng.randrange(50) if m == b"POST" else None))
        hs.append(response(rng, comp))
    if rng.random() < .1:
        ms[-1].cut = rng.randrange(len(ms[-1].wire))
    elif rng.random() < .1:
        ms.append(http.Msg(rng.choice([b"OOPS / HTTP/1.1\r\n\r\n", b"HEAD / HTTP/1.1\r\nwrong\r\n\r\n"])))
    n = sum(len(m.wire) for m in ms)
    return http.Case(ms, http.cuts_of(rng, n), hs, fin=rng.choice(["eof", "eof", "silent"]), compress=comp,
                     part=rng.choice([0, 0, 1, 7, 500, 5000]), threads=rng.random() < .3, err=rng.choice(["plain", "html", "json"]), seed=i + 1)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    if not ctx.model("HttpConn", "HttpConn_readfirst", expect_ok=False).violation:
        raise core.CheckError("the model does not tell readfirst")
    keys, edges = http.graph_cases(ctx, ctx.n(400, 100000))
    cases = [http.concrete(ctx.rng, *k) for k in keys]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(1500, 20000))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), responses=sum(e["e"] == "resp" for t in tr for e in t["ev"]))
    return ctx.finish()
