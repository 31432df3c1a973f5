"""H05: content coding."""
from .. import core, http

ACCEPT = [None, None, b"gzip", b"br", b"deflate", b"gzip, deflate, br", b"gzip, deflate", b"deflate, gzip", b"identity", b"GZIP", b"Br, Gzip",
          b"br;q=0, gzip", b"gzip;q=0", b"gzip;q=0.5, br;q=0.1", b"gzip; q=0.0, deflate", b"br;q=0.000,gzip;q=0,deflate;q=1", b"deflate;q=0.001",
          b"compress, x-gzip", b"gzipped", b"brotli", b"br , gzip", b"gzip ;q=1.0", b"identity;q=1, br;q=0.9", b"zstd, br", b"x-br",
          b"deflate ; q=0", b"br;q=1.0, gzip;q=0.8, deflate;q=0.6"]
TYPES = [None, None, b"text/html", b"text/plain; charset=utf-8", b"application/json", b"application/xml", b"text/javascript", b"Text/CSS",
         b"image/svg+xml", b"image/png", b"application/octet-stream", b"video/mp4", b"APPLICATION/JSON", b"font/woff2", b"application/javascript"]


def bodyof(rng):
    n = rng.choice([0, 0, 1, 1, 2, 10, 100, 1000, 5000, 20000])
    k = rng.randrange(4)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return b"\0" * n
    return (b"some text, %d " % rng.randrange(99) * (n // 12 + 1))[:n]


def rnd(rng, i):
    ms, hs = [], []
    for k in range(rng.randrange(1, 6)):
        a = rng.choice(ACCEPT)
        m = rng.choice([b"GET", b"GET", b"GET", b"POST", b"HEAD"])
        ms.append(http.request(m, b"/%d" % k, [(rng.choice([b"Accept-Encoding", b"accept-encoding"]), a)] if a else [], b"x" if m == b"POST" else None))
        h = []
        t = rng.choice(TYPES)
        if t:
            h.append((rng.choice([b"Content-Type", b"content-type"]), t))
        if rng.random() < .12:
            h.append((b"Content-Encoding", rng.choice([b"x-own", b"gzip", b"identity", b"br"])))
        hs.append(http.hand(rng.choice(["resp"] * 15 + ["std"]), rng.choice([200, 200, 200, 404, 500, 201, 204]), hdrs=h, body=bodyof(rng)))
    n = sum(len(m.wire) for m in ms)
    return http.Case(ms, http.cuts_of(rng, n), hs, fin="eof", compress=rng.random() < .85, threads=rng.random() < .2, seed=i + 1)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    if not ctx.model("HttpConn", "HttpConn_sticky", expect_ok=False).violation:
        raise core.CheckError("the model does not tell sticky")
    keys, edges = http.graph_cases(ctx, 100000)
    keys = [k for k in keys if "zip" in k[0]]
    keys = ctx.rng.sample(keys, min(len(keys), ctx.n(500, 100000)))
    cases = [http.concrete(ctx.rng, *k) for k in keys]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(2000, 20000))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), responses=sum(e["e"] == "resp" for t in tr for e in t["ev"]))
    return ctx.finish()
