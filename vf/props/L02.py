"""L02: the connection limit."""
from .. import core, srv
from ..drive import hx


def kinds(rng):
    """ways for a served connection to end: (commands, waits)"""
    def keep(s, c):
        s.served(c)
        s.op("bye", c, rng.choice(["close", "rst"]))

    def half(s, c):
        s.served(c)
        s.op("bye", c, "half")
        s.wait(f"eof {c}")

    def close(s, c):
        t = s.ask(c, "/echo", kind="end", extra=b"Connection: close\r\n")
        s.wait(f"eof {c}")

    def bad(s, c):
        s.ask(c, kind="end", code=400, named=False, runs=False, raw=lambda t: b"GET / HTTP/1.1\r\nnocolon\r\n\r\n")
        s.wait(f"eof {c}")

    def throw(s, c):
        s.served(c, path="/throw", code=500, named=False)
        s.op("bye", c, "close")

    def sse(s, c):
        s.ask(c, rng.choice(["/sse", "/ssethrow"]), kind="stream")
        s.wait(f"eof {c}")

    def ws(s, c):
        s.ask(c, rng.choice(["/wsdrop", "/wsthrow"]), kind="stream", extra=srv.WS)
        s.wait(f"eof {c}")

    def wsleft(s, c):
        s.ask(c, "/ws", kind="stream", extra=srv.WS)
        s.wait(f"stream {c}")
        s.op("bye", c, rng.choice(["close", "rst"]))

    def sseleft(s, c):
        s.ask(c, "/sseloop", kind="stream")
        s.wait(f"stream {c}")
        s.op("bye", c, rng.choice(["close", "rst"]))

    def half_request(s, c):
        s.op("tx", c, hx(b"GET / HTTP/1.1\r\nHos"))
        # connections are taken in order: it has been when a later one is served
        s.open(c + "p")
        s.served(c + "p")
        s.op("bye", c + "p", "close")
        s.op("bye", c, rng.choice(["close", "rst"]))
    return [keep, half, close, bad, throw, sse, ws, wsleft, sseleft, half_request]


def refill(rng, max, rounds, only=None):
    """fills the server, has everything end in some way, and fills it again"""
    s = srv.Script()
    s.new("a", list=1, max=max, rto=20000, fast=1)
    s.op("fresh")
    n = 0
    for r in range(rounds):
        ks = kinds(rng)
        for i in range(max):
            n += 1
            s.open(f"c{n}")
            f = only or rng.choice(ks)
            f = next(k for k in ks if k.__name__ == getattr(f, "__name__", f))
            f(s, f"c{n}")
            if i % 7 == 0:
                s.op("settle", 0)
        s.op("settle", 0)
    full = []
    for i in range(max):
        n += 1
        s.open(f"c{n}")
        s.served(f"c{n}")
        full.append(f"c{n}")
    for _ in range(rng.randrange(1, 5)):
        n += 1
        s.open(f"c{n}")
        if rng.random() < .5:
            s.ask(f"c{n}", "/echo")
        s.wait(f"eof c{n}")
    for _ in range(rng.randrange(3, 12)):
        k = rng.randrange(1, 4)
        for c in rng.sample(full, k):
            full.remove(c)
            s.op("bye", c, rng.choice(["close", "rst"]))
        s.op("settle", len(full))
        for _ in range(k):
            n += 1
            s.open(f"c{n}")
            s.served(f"c{n}")
            full.append(f"c{n}")
        n += 1
        s.open(f"c{n}")
        s.wait(f"eof c{n}")
    for c in full:
        s.op("bye", c, "close")
    s.op("kill", "a")
    s.wait("killx a")
    return s


def faults(rng, max):
    """slots of connections whose thread could not be started are not lost"""
    s = srv.Script()
    s.new("a", list=1, max=max, rto=20000, fast=1)
    s.op("fresh")
    n, full = 0, []
    for _ in range(3):
        k = rng.randrange(1, max + 9)
        s.lines.append(f"failthread {k}")
        for _ in range(k):
            n += 1
            s.open(f"c{n}")
            s.wait(f"eof c{n}")
        for _ in range(rng.randrange(1, 12)):
            n += 1
            s.open(f"c{n}")
            s.served(f"c{n}")
            full.append(f"c{n}")
    while len(full) < max:
        n += 1
        s.open(f"c{n}")
        s.served(f"c{n}")
        full.append(f"c{n}")
    n += 1
    s.open(f"c{n}")
    s.wait(f"eof c{n}")
    for c in full:
        s.op("bye", c, "close")
    s.op("kill", "a")
    s.wait("killx a")
    return s


def crowd(rng, max, n):
    """all at once: what is let in stays within the limit; gates keep them inside"""
    s = srv.Script()
    s.new("a", list=1, max=max, rto=20000, fast=1)
    s.op("fresh")
    ts = []
    for i in range(n):
        s.open(f"c{i}")
        ts.append((f"c{i}", s.ask(f"c{i}", "/gate")))
    for c, t in ts:
        s.wait(f"enter {t}", f"eof {c}")
    for c, t in ts:
        s.op("rel", t)
    for c, t in ts:
        s.wait(f"resp {c} 200 {t}", f"eof {c}")
    for c, t in ts:
        s.op("bye", c, "close")
    s.op("settle", 0)
    for i in range(min(n, 60)):
        s.open(f"d{i}")
        if max and i >= max:
            s.wait(f"eof d{i}")
        else:
            s.served(f"d{i}")
    for i in range(min(n, 60)):
        s.op("bye", f"d{i}", "close")
    s.op("kill", "a")
    s.wait("killx a")
    return s


def construct():
    s = srv.Script()
    for i, m in enumerate([1, 2, 3, 10, 25, 48, 49, 50, 51, 52, 0, 100, 500, 65536]):
        s.new(f"s{i}", list=1, max=m, fast=1)
    return s


def run(ctx):
    exe = core.build("srvdrv", ["srvdrv.cpp"], link=["-ldl"])
    ctx.model("Server", "Server", timeout=3000)
    ctx.model("Server", "Server_one", timeout=3000)
    ctx.model("Server", "Server_unlimited", timeout=3000)
    for bug in ("offbyone", "nogc", "threadfatal", "nolock"):
        if not ctx.model("Server", "Server_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    hs = srv.behaviours(ctx, "ServerGen", ctx.n(120, 2000), True, 14, 30)
    hs = ctx.rng.sample(hs, min(len(hs), ctx.n(90, 2000)))
    cases = [srv.Play(ctx.rng, h, ballast=48, max=50, shut="kill").s for h in hs]
    cases.append(construct())
    for k in kinds(ctx.rng):
        cases.append(refill(ctx.rng, 50, 1, k))
    cases += [refill(ctx.rng, ctx.rng.choice([50, 51, 57]), 2) for _ in range(ctx.n(4, 60))]
    cases += [faults(ctx.rng, ctx.rng.choice([50, 55])) for _ in range(ctx.n(4, 60))]
    cases += [crowd(ctx.rng, m, n) for m, n in [(50, 51), (50, 80), (51, 60), (0, 120)] * ctx.n(1, 10)]
    srv.judge(ctx, exe, cases, per=4)
    ctx.notes.update(scripts=len(cases))
    return ctx.finish()
