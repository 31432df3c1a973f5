"""E01: event streams."""
from .. import core, sse


def rnd(rng, i):
    ops = []
    for _ in range(rng.randrange(1, 9)):
        r = rng.random()
        ops.append(sse.msg(rng) if r < .75 else sse.msg(rng, bad=True) if r < .82 else "ask" if r < .95 else
                   "fail:%d:%s" % (rng.randrange(0, 60), rng.choice(["pipe", "reset", "time"])))
    if rng.random() < .5:
        ops.append("close")
        for _ in range(rng.randrange(3)):
            ops.append(rng.choice([sse.msg(rng), "ask", "close"]))
    if rng.random() < .1:
        ops.append("throw")
    hs = b"".join(rng.choice([b"", b"Origin: http://x.example\r\n", b"Connection: close\r\n", b"Connection: keep-alive\r\n", b"Accept-Encoding: br, gzip\r\n",
                              b"Last-Event-ID: 7\r\n"]) for _ in range(2))
    return sse.Case(ops, b"GET /e HTTP/1.1\r\nHost: a\r\n" + hs + b"\r\n", part=rng.choice([0, 0, 1, 3, 50]), seed=i, threads=rng.random() < .5)


def run(ctx):
    exe = core.build("ssedrv", ["ssedrv.cpp"])
    ctx.model("SseConn", "SseConn" if ctx.quick else "SseConn_deep", timeout=3000)
    for bug in ("afterclose", "framing", "keepopen", "noend"):
        if not ctx.model("SseConn", "SseConn_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cases = [sse.Case(sse.concrete(ctx.rng, h), part=ctx.rng.choice([0, 0, 2, 30]), seed=i, threads=ctx.rng.random() < .5)
             for i, h in enumerate(sse.histories(ctx, ctx.n(600, 30000)))]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(1500, 20000))]
    cases += [sse.Case([sse.msg(ctx.rng, big=True), sse.msg(ctx.rng), "close"], part=ctx.rng.choice([0, 999]), seed=i) for i in range(ctx.n(16, 200))]
    tr = sse.judge(ctx, exe, cases)
    ctx.notes.update(sessions=len(cases), pushes=sum(len(t["msgs"]) for t in tr))
    return ctx.finish()
