"""L03: connections are isolated and released."""
from .. import core, srv
from ..drive import hx

FRAME = bytes([0x81, 0x85, 1, 2, 3, 4]) + bytes(b ^ k for b, k in zip(b"hello", (1, 2, 3, 4, 1)))


def server(rng, lst, rto=15000, sto=15000):
    s = srv.Script()
    o = dict(list=lst, rto=rto, sto=sto)
    if lst:
        o.update(max=rng.choice([0, 50]), fast=1)
    s.new("a", **o)
    # what comes up with the first request is there
    s.open("w")
    s.served("w")
    s.op("bye", "w", "half")
    s.wait("eof w")
    s.op("live", 1)
    s.op("bye", "w", "close")
    s.op("sleep", 2000)
    s.op("fresh")
    s.op("seed", rng.randrange(1, 1 << 40))
    return s


def over(s, lst):
    for c in list(s.conns):
        s.op("bye", c, "close") if c != "w" else None
    s.op("fds", 0)
    if lst:
        s.op("kill", "a")
        s.wait("killx a")
    return s


def stuck(rng, s, c):
    """leaves the connection in the middle of something; -> what lets it go on"""
    k = rng.randrange(11)
    if k == 0:
        s.open(c)
        t = s.ask(c, "/gate")
        s.wait(f"enter {t}")
        return lambda: (s.op("rel", t), s.wait(f"resp {c} 200 {t}"))
    if k == 1:
        s.open(c)
        s.op("tx", c, hx(b"GET /echo HTTP/1.1\r\nHost: a\r\nX-Slow"))
        return None
    if k == 2:
        s.open(c)
        s.op("tx", c, hx(b"POST /echo HTTP/1.1\r\nHost: a\r\nContent-Length: 100\r\n\r\nabc"))
        return None
    if k == 3:
        # does not read what it asked for
        s.open(c, "a", "mute=1", "small=1")
        t = s.ask(c, "/big", v=rng.choice([8000000, 20000000]))
        s.wait(f"leave {t}")
        return lambda: (s.op("unmute", c), s.wait(f"resp {c} 200 {t}")) if rng.random() < .5 else None
    if k == 4:
        s.open(c)
        s.ask(c, "/ws", kind="stream", extra=srv.WS)
        s.wait(f"stream {c}")
        return lambda: s.op("tx", c, hx(FRAME))
    if k == 5:
        s.open(c)
        s.ask(c, "/sseloop", kind="stream")
        s.wait(f"stream {c}")
        return None
    if k == 6:
        s.open(c)
        t = s.ask(c, "/wsgate", kind="stream", extra=srv.WS)
        s.wait(f"stream {c}")
        return lambda: s.op("rel", t)
    if k == 7:
        s.open(c)
        t = s.ask(c, "/ssegate", kind="stream")
        s.wait(f"stream {c}")
        return lambda: s.op("rel", t)
    if k == 8:
        s.open(c)
        return lambda: s.served(c)
    if k == 9:
        # a listener that does not read its events
        s.open(c, "a", "mute=1", "small=1")
        t = s.ask(c, "/sseloop", kind="stream")
        s.wait(f"enter {t}")
        return None
    s.open(c)
    s.served(c, path="/throw", code=500, named=False)
    t = s.ask(c, "/gate")
    s.wait(f"enter {t}")
    return lambda: (s.op("rel", t), s.wait(f"resp {c} 200 {t}"))


def isolation(rng, lst):
    s = server(rng, lst)
    s.what = "isolation"
    # one that was there before and one for each probe
    s.open("p")
    s.served("p")
    frees, mine = [], []
    for i in range(rng.randrange(2, 9)):
        frees.append(stuck(rng, s, f"c{i}"))
        s.served("p")
        s.open(f"q{i}")
        s.served(f"q{i}", path=rng.choice(["/echo", "/nap"]), v=500)
        if rng.random() < .3:
            t = [s.ask("p", "/nap", v=rng.randrange(2000)) for _ in range(3)]
            s.wait(f"resp p 200 {t[-1]}")
    rng.shuffle(frees)
    for f in frees:
        if f and rng.random() < .7:
            f()
        s.served("p")
    # those that are still inside are let go before their clients are gone
    for t in s.reqs:
        s.op("rel", t)
    for c in list(s.conns):
        if c != "w":
            s.op("bye", c, rng.choice(["close", "rst"]))
    s.op("fds", 0)
    if lst:
        s.op("kill", "a")
        s.wait("killx a")
    return s


def endings(rng):
    """every way a connection can end, by the name of it"""
    def raw(code, b):
        return lambda s, c: (s.ask(c, kind="end", code=code, named=False, runs=False, raw=lambda t: b), s.wait(f"eof {c}"))

    def half_idle(s, c):
        s.served(c)
        s.op("bye", c, "half")
        s.wait(f"eof {c}")

    def half_fresh(s, c):
        s.op("bye", c, "half")
        s.wait(f"eof {c}")

    def half_header(s, c):
        s.op("tx", c, hx(b"GET / HTTP/1.1\r\nHo"))
        s.op("bye", c, "half")
        s.wait(f"eof {c}")

    def half_body(s, c):
        s.op("tx", c, hx(b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 9\r\n\r\nabc"))
        s.op("bye", c, "half")
        s.wait(f"eof {c}")

    def half_busy(s, c):
        t = s.ask(c, "/gate")
        s.wait(f"enter {t}")
        s.op("bye", c, "half")
        s.op("rel", t)
        s.wait(f"resp {c} 200 {t}")
        s.wait(f"eof {c}")

    def closing(s, c):
        t = s.ask(c, "/echo", kind="end", extra=b"Connection: close\r\n")
        s.wait(f"resp {c} 200 {t}")
        s.wait(f"eof {c}")

    def handler_closes(s, c):
        t = s.ask(c, "/close", kind="end")
        s.wait(f"resp {c} 200 {t}")
        s.wait(f"eof {c}")

    def gone(how, mid):
        def f(s, c):
            if mid == "busy":
                t = s.ask(c, "/gate")
                s.wait(f"enter {t}")
                s.op("bye", c, how)
                s.op("rel", t)
                s.wait(f"leave {t}")
                return
            if mid == "big":
                t = s.ask(c, "/big", v=9000000)
                s.wait(f"leave {t}")
            elif mid == "header":
                s.op("tx", c, hx(b"GET / HT"))
            elif mid == "body":
                s.op("tx", c, hx(b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 99999\r\n\r\nabc"))
            elif mid == "idle":
                s.served(c)
            s.op("bye", c, how)
        return f

    def stream(path, ws=False, how=None, what=None):
        def f(s, c):
            t = s.ask(c, path, kind="stream", extra=srv.WS if ws else b"")
            s.wait(f"stream {c}")
            if what == "rel":
                if how:
                    s.op("bye", c, how)
                s.op("rel", t)
            elif isinstance(what, bytes):
                s.op("tx", c, hx(what))
            if how and what != "rel":
                s.op("bye", c, how)
            if how in (None, "half"):
                s.wait(f"eof {c}")
            s.wait(f"leave {t}")
        return f

    def noupgrade(s, c):
        s.ask(c, "/ws", kind="end", code=400, named=False)
        s.wait(f"eof {c}")
    masked = bytes([0x88, 0x80, 1, 2, 3, 4])
    e = dict(half_idle=half_idle, half_fresh=half_fresh, half_header=half_header, half_body=half_body, half_busy=half_busy, closing=closing,
             handler_closes=handler_closes, noupgrade=noupgrade,
             bad_header=raw(400, b"GET / HTTP/1.1\r\nnocolon\r\n\r\n"), coding=raw(501, b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"),
             huge=raw(413, b"POST / HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n"),
             sse_returns=stream("/sse"), sse_throws=stream("/ssethrow"), ws_returns=stream("/wsdrop", True), ws_throws=stream("/wsthrow", True),
             ws_close=stream("/ws", True, what=masked), ws_bad=stream("/ws", True, what=b"\x81\x02hi"), ws_bad2=stream("/ws", True, what=bytes([0x83, 0x80, 0, 0, 0, 0])),
             ws_half=stream("/ws", True, "half"), ws_cut=stream("/ws", True, "half", FRAME[:4]))
    for how in ("close", "rst"):
        for mid in ("fresh", "idle", "header", "body", "busy", "big"):
            e[f"{mid}_{how}"] = gone(how, mid)
        e[f"sseloop_{how}"] = stream("/sseloop", how=how)
        e[f"ws_{how}"] = stream("/ws", True, how)
        e[f"wsgate_{how}"] = stream("/wsgate", True, how, "rel")
        e[f"ssegate_{how}"] = stream("/ssegate", False, how, "rel")
        e[f"wsframe_{how}"] = stream("/ws", True, how, FRAME)
    return e


def ended(rng, lst, names):
    s = server(rng, lst)
    s.what = "endings " + " ".join(names)
    e = endings(rng)
    s.open("p")
    for i, n in enumerate(names):
        s.open(f"c{i}")
        e[n](s, f"c{i}")
        if rng.random() < .3:
            s.served("p")
    # clients that have only seen the end keep their own descriptor
    for c in list(s.conns):
        if c != "w":
            s.op("bye", c, "close")
    s.op("fds", 0)
    s.open("z")
    s.served("z")
    s.op("bye", "z", "close")
    if lst:
        s.op("kill", "a")
        s.wait("killx a")
    return s


def timeouts(rng, lst):
    """idle and half sent requests run into the receive timeout; readers that never read into the send timeout"""
    s = server(rng, lst, 400, 500)
    s.lax = True
    cs = []
    for i in range(rng.randrange(1, 5)):
        c = f"c{i}"
        k = rng.randrange(5)
        if k == 4:
            s.open(c, "a", "mute=1", "small=1")
            s.ask(c, "/big", v=20000000)
            continue
        s.open(c)
        cs.append(c)
        if k == 1:
            s.ask(c, "/echo")
        elif k == 2:
            s.op("tx", c, hx(b"GET /echo HTTP/1.1\r\nHo"))
        elif k == 3:
            s.op("tx", c, hx(b"POST /echo HTTP/1.1\r\nHost: a\r\nContent-Length: 100\r\n\r\nabc"))
    for c in cs:
        s.wait(f"eof {c}")
    # the descriptors of the clients are still there
    s.op("fds", len([c for c in s.conns if c != "w"]))
    s.op("live", 0)
    return over(s, lst)


def threads(rng, lst):
    """connections for which the system has no thread"""
    s = server(rng, lst)
    s.open("p")
    s.served("p")
    n = 0
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(1, 6)
        s.op("failthread", k)
        for _ in range(k):
            n += 1
            s.open(f"c{n}")
            s.wait(f"eof c{n}")
        s.served("p")
        n += 1
        s.open(f"c{n}")
        s.served(f"c{n}")
    return over(s, lst)


def storm(rng, lst):
    s = server(rng, lst)
    s.op("storm", "a", rng.randrange(2, 24), rng.choice([30, 100]), rng.randrange(1 << 30))
    s.open("z")
    s.served("z")
    return over(s, lst)


def run(ctx):
    rng = ctx.rng
    exe = core.build("srvdrv", ["srvdrv.cpp"], link=["-ldl"])
    shaky = core.build("srvdrv-p", ["srvdrv.cpp"], link=["-ldl"], defines=["DRV_PERTURB"])
    ctx.model("Server", "Server", timeout=3000)
    for bug in ("threadfatal", "nogc"):
        if not ctx.model("Server", "Server_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    names = sorted(endings(rng))
    total = 0
    for lst in (1, 0):
        cases = [isolation(rng, lst) for _ in range(ctx.n(24, 600))] + [timeouts(rng, lst) for _ in range(ctx.n(6, 60))]
        cases += [threads(rng, lst) for _ in range(ctx.n(6, 60))]
        # each ending on its own and mixed with others
        cases += [ended(rng, lst, [n] * rng.randrange(1, 4)) for n in names]
        cases += [ended(rng, lst, [rng.choice(names) for _ in range(rng.randrange(3, 10))]) for _ in range(ctx.n(20, 500))]
        cases += [storm(rng, lst) for _ in range(ctx.n(6, 60))]
        srv.judge(ctx, exe, cases, "server" if lst else "detached server")
        more = [storm(rng, lst) for _ in range(ctx.n(8, 100))] + [isolation(rng, lst) for _ in range(ctx.n(8, 200))] + \
               [ended(rng, lst, [rng.choice(names) for _ in range(6)]) for _ in range(ctx.n(8, 200))]
        srv.judge(ctx, shaky, more, "server with delays" if lst else "detached server with delays")
        total += len(cases) + len(more)
    ctx.notes.update(scripts=total, endings=names)
    return ctx.finish()
