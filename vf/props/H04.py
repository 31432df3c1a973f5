"""H04: persistence of connections."""
from .. import core, http

ASK = [None, None, b"keep-alive", b"Keep-Alive", b"KEEP-ALIVE", b"close", b"Close", b"CLOSE", b"keep-alive, X-Other", b"close, x-other",
       b"x-other, close", b"TE, keep-alive"]
OWN = [None] * 8 + [b"close", b"Close", b"keep-alive", b"Keep-Alive"]


def rnd(rng, i, reuse=None):
    ms, hs = [], []
    calm = rng.random() < .6
    for k in range(rng.randrange(1, 7)):
        c = rng.choice([None, b"keep-alive", b"Keep-Alive"]) if calm and rng.random() < .8 else rng.choice(ASK)
        m = rng.choice([b"GET", b"GET", b"HEAD", b"POST"])
        ms.append(http.request(m, b"/%d" % k, [(rng.choice([b"Connection", b"connection"]), c)] if c else [], b"abc" if m == b"POST" else None))
        o = rng.choice(OWN)
        hs.append(http.hand(rng.choice(["resp"] * 12 + ["std", "none", "int"]), rng.choice([200, 200, 404, 500, 204, 304, 302]),
                            hdrs=[(b"Connection", o)] if o else [], body=rng.choice([b"", b"hello"])))
    n = sum(len(m.wire) for m in ms)
    return http.Case(ms, http.cuts_of(rng, n), hs, fin=rng.choice(["eof", "silent", "rst"]), reuse=rng.random() < .75 if reuse is None else reuse,
                     compress=False, threads=rng.random() < .4, seed=i + 1)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    ctx.model("HttpConn", "HttpConn_noreuse")
    if not ctx.model("HttpConn", "HttpConn_noclose", expect_ok=False).violation:
        raise core.CheckError("the model does not tell noclose")
    keys, edges = http.graph_cases(ctx, ctx.n(600, 100000))
    cases = [http.concrete(ctx.rng, *k) for k in keys]
    for c in cases:
        c.reuse = ctx.rng.random() < .8
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(2000, 20000))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), responses=sum(e["e"] == "resp" for t in tr for e in t["ev"]))
    return ctx.finish()
