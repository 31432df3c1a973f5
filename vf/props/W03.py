"""W03: websocket control frames and violations."""
from .. import core, ws


def rnd(rng, i):
    mx = rng.choice([1100, 1500, 1 << 20])
    stop = rng.choice(ws.STOPS + [None])
    fs = ws.stream(rng, rng.randrange(0, 6), stop=stop, mx=mx)
    if rng.random() < .3:
        fs[:0] = [ws.Frame(9, ws.payload(rng, rng.choice([0, 1, 125])), mask=ws.mask(rng)) for _ in range(rng.randrange(1, 6))]
    fin = rng.choice(["eof", "rst"]) if stop is None else rng.choice(["held", "held", "eof", "rst"])
    return ws.Case(fs, ws.cuts(rng, fs), fin=fin, max=mx, rng=rng, gate=rng.choice([0, .5, 1]), threads=rng.random() < .3, seed=i,
                   perturb=rng.random() < .2)


def partial_stop(rng, i):
    """a violation that shows in the header, with nothing (or not everything) after it"""
    mx = 1100
    fs = ws.stream(rng, rng.randrange(0, 3), mx=mx)
    f = ws.stopper(rng, "large", bool(fs) and not [x for x in fs if x.op < 3][-1].fin, mx)
    f.wire = f.wire[:len(f.head) + rng.randrange(3)]
    return ws.Case(fs + [f], ws.cuts(rng, fs + [f]), fin="held", max=mx, rng=rng, gate=rng.choice([0, 1]), seed=i)


def run(ctx):
    exe = core.build("wsdrv", ["wsdrv.cpp"], link=("-lz",))
    asan = core.build("wsdrv", ["wsdrv.cpp"], variant="asan", link=("-lz",))
    ctx.model("WsConn", "WsConn_all", timeout=3000, mem="12g")
    for bug in ("getfirst", "nocheck", "waitmore"):
        if not ctx.model("WsConn", "WsConn_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cases = [ws.concrete(ctx.rng, k, c, i) for i, (k, c) in enumerate(ws.graph_cases(ctx, ctx.n(400, 20000)))]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(700, 15000))]
    cases += [partial_stop(ctx.rng, i) for i in range(ctx.n(60, 1500))]
    tr = ws.judge(ctx, exe, cases)
    more = [rnd(ctx.rng, i) for i in range(ctx.n(150, 3000))] + [partial_stop(ctx.rng, i) for i in range(ctx.n(50, 1000))]
    tr += ws.judge(ctx, asan, more, "session (address sanitizer)")
    ctx.notes.update(sessions=len(cases) + len(more), events=sum(len(t["ev"]) for t in tr))
    return ctx.finish()
