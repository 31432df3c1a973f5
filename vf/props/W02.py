"""W02: websocket messages."""
from .. import core, ws


def rnd(rng, i):
    fs = ws.stream(rng, rng.randrange(1, 9), stop=rng.choice([None, None, "close"]))
    prog = ["drain"]
    if rng.random() < .25:
        prog = [rng.choice(["get", "spin"]) for f in range(sum(f.op in (0, 1, 2) and f.masked for f in fs))] + ["drain"]
        if any(f.op == 8 for f in fs):
            prog = ["drain"]
    return ws.Case(fs, ws.cuts(rng, fs), prog, fin=rng.choice(["eof", "eof", "rst"]), rng=rng, gate=rng.choice([0, .5, 1]),
                   threads=rng.random() < .3, seed=i, perturb=rng.random() < .2)


def big(rng, i):
    n = rng.choice([65534, 65535, 65536, 65537, 70000, 131072, 200000])
    fs = ws.stream(rng, rng.randrange(1, 4), big=n)
    fs.append(ws.Frame(2, rng.randbytes(n), mask=ws.mask(rng)))
    return ws.Case(fs, [rng.randrange(1, n) for _ in range(rng.randrange(6))], rng=rng, seed=i)


def limit(rng, i):
    mx = rng.choice([400, 1000, 70000])
    n = rng.choice([mx - 14, mx - 15, mx // 2])
    fs = [ws.Frame(1, ws.payload(rng, n), mask=ws.mask(rng)), ws.Frame(2, b"small", mask=ws.mask(rng)), ws.Frame(1, ws.payload(rng, n), mask=ws.mask(rng))]
    return ws.Case(fs, ws.cuts(rng, fs), max=mx, rng=rng, gate=rng.choice([0, 1]), seed=i)


def run(ctx):
    exe = core.build("wsdrv", ["wsdrv.cpp"], link=("-lz",))
    ctx.model("WsConn", "WsConn_quick" if ctx.quick else "WsConn", timeout=3000, mem="12g")
    for bug in ("partial", "ctxreset", "waitmore", "getfirst"):
        if not ctx.model("WsConn", "WsConn_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cases = [ws.concrete(ctx.rng, k, c, i) for i, (k, c) in enumerate(ws.graph_cases(ctx, ctx.n(500, 20000)))]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(700, 15000))]
    cases += [big(ctx.rng, i) for i in range(ctx.n(16, 200))]
    cases += [ws.Case([ws.Frame(9, b"a")] * (i % 2), prog=["empty", "drain"], rng=ctx.rng) for i in range(4)]
    cases += [limit(ctx.rng, i) for i in range(ctx.n(16, 300))]
    tr = ws.judge(ctx, exe, cases)
    ctx.notes.update(sessions=len(cases), events=sum(len(t["ev"]) for t in tr))
    return ctx.finish()
