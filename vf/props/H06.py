"""H06: failing handlers."""
from .. import core, http

MSGS = [b"it failed", b"", b"x" * 3000, b"plain words only", b"5 of 3"]


def rnd(rng, i):
    ms, hs = [], []
    for k in range(rng.randrange(1, 7)):
        m = rng.choice([b"GET", b"GET", b"POST", b"HEAD"])
        c = rng.choice([None, None, None, None, b"keep-alive", b"close"])
        h = [(b"Connection", c)] if c else []
        if rng.random() < .3:
            h.append((b"Accept-Encoding", b"gzip, br"))
        ms.append(http.request(m, b"/%d" % k, h, b"abc" * rng.randrange(300) if m == b"POST" else None))
        kind = rng.choice(["resp", "std", "lambda", "int", "cstr", "none"])
        hs.append(http.hand(kind, 200, rng.choice(MSGS) if kind != "resp" else b"", [], b"fine"))
    n = sum(len(m.wire) for m in ms)
    return http.Case(ms, http.cuts_of(rng, n), hs, fin=rng.choice(["eof", "silent"]), reuse=rng.random() < .9, compress=rng.random() < .5,
                     err=rng.choice(["plain", "html", "json"]), threads=rng.random() < .4, seed=i + 1)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    keys, edges = http.graph_cases(ctx, ctx.n(300, 100000))
    cases = []
    for k in keys:
        c = http.concrete(ctx.rng, *k)
        c.err = ctx.rng.choice(["plain", "html", "json"])
        for h in c.hands:
            h["kind"] = ctx.rng.choice(["resp", "std", "lambda", "int", "cstr", "none"])
        cases.append(c)
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(2000, 20000))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), failures=sum(e["e"] == "resp" and e["code"] == 500 for t in tr for e in t["ev"]))
    return ctx.finish()
