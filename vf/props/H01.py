"""H01: request framing."""
from .. import core, http


def body(rng):
    k = rng.randrange(6)
    n = rng.choice([0, 1, 2, 3, 5, 17, 100, 1000, 2047, 2048, 2049, 4096])
    if k == 0:
        return b"GET /inner HTTP/1.1\r\n\r\n"[:max(1, n)]
    if k == 1:
        return (b"\r\n\r\n" * (n // 4 + 1))[:n]
    if k == 2:
        return rng.randbytes(n)
    return bytes(rng.choice(b"abc\r\n\0\xff") for _ in range(n))


def msg(rng, i):
    m = rng.choice([b"GET", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"PATCH", b"HEAD"])
    hs = [(rng.choice([b"Host", b"X-A", b"x-b", b"Accept"]), bytes(rng.choice(b"abcdef 123:;=") for _ in range(rng.randrange(1, 40))) or b"v")
          for _ in range(rng.randrange(0, 4))]
    if rng.random() < .15:
        hs.append((b"X-Long", b"l" * rng.choice([1900, 1990, 2000, 2010, 2020, 2030, 4000, 6000])))
    rng.shuffle(hs)
    b = body(rng) if rng.random() < .55 else None
    r = http.request(m, b"/%d%s" % (i, rng.choice([b"", b"/x", b"?q=1"])), hs, b)
    return r


def rnd(rng, i):
    ms = [msg(rng, k) for k in range(rng.randrange(1, 6))]
    fin = rng.choice(["eof", "eof", "rst", "silent"])
    if rng.random() < .2:
        m = ms[-1]
        m.cut = rng.randrange(0, len(m.wire))
    n = sum(len(m.wire) for m in ms)
    cuts = list(http.cuts_of(rng, n))
    if rng.random() < .5:        # at and around the ends of heads and bodies
        p = 0
        for m in ms:
            for e in (p + len(m.head), p + len(m.wire)):
                if rng.random() < .6:
                    cuts.append(e + rng.choice([-3, -2, -1, -1, 0, 0, 1, 2]))
            p += len(m.wire)
        if rng.random() < .5:
            cuts = cuts[-8:]
    return http.Case(ms, cuts, [http.hand(body=rng.choice([b"", b"r%d" % k])) for k in range(len(ms))], fin=fin,
                     reuse=True, compress=False, threads=rng.random() < .3, seed=i)


def big(rng, i):
    n = rng.choice([65535, 65536, 65537, 131072, 200000, 131073])
    ms = [http.request(b"POST", b"/big", [], rng.randbytes(n)), http.request(target=b"/after")]
    return http.Case(ms, [rng.randrange(1, n) for _ in range(rng.randrange(9))], [], compress=False, seed=i)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    for bug in ("readfirst", "oneread"):
        if not ctx.model("HttpConn", "HttpConn_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    keys, edges = http.graph_cases(ctx, ctx.n(1500, 100000))
    cases = [http.concrete(ctx.rng, *k) for k in keys]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(1500, 20000))]
    cases += [big(ctx.rng, i) for i in range(ctx.n(20, 200))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), events=sum(len(t["ev"]) for t in tr))
    return ctx.finish()
