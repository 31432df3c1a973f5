"""L01: servers start, stop and restart cleanly."""
from .. import core, srv
from ..drive import hx


def rest(rng, s, n=5000):
    if rng.random() < .6:
        s.op("sleep", rng.choice([0, 20, 100, 300, 1000, n]))


def stop(rng, s, a="a"):
    """-> the calls that were made and what has to be waited for"""
    k = rng.randrange(7)
    if k == 0:
        s.op("kill", a)
    elif k == 1:
        s.op("shut", a, "here=1")
        rest(rng, s)
        s.op("kill", a)
    elif k == 2:
        s.op("shut", a, "1")
        s.op("shut", a, "2")
        return [f"shutx_{a}_1", f"shutx_{a}_2"]
    elif k == 3:
        s.op("await", a)
        rest(rng, s)
        s.op("shut", a)
        return [f"shutx_{a}", f"awaitx_{a}"]
    elif k == 4:
        s.op("shut", a)
        return [f"shutx_{a}"]
    elif k == 5:
        s.op("shut", a, "here=1")
        s.op("shut", a, "again", "here=1")
        s.op("await", a)
        return [f"awaitx_{a}"]
    else:
        s.op("shut", a)
        rest(rng, s)
        s.op("shut", a, "again")
        return [f"shutx_{a}", f"shutx_{a}_again"]
    return []


def gone(s, waits, a="a"):
    for w in waits:
        s.op("wait", w)
    if f'kill {a}' not in s.lines:
        s.op("kill", a)
    s.wait(f"killx {a}")


def again(rng, s, fast=1):
    """the port is free and a new server works on it"""
    s.new("b", list=1, max=0, rto=500, port="a", fast=fast)
    s.open("z", "b")
    s.served("z")
    s.op("bye", "z", "close")
    s.op("kill", "b")
    s.wait("killx b")


def walk(rng, h):
    p = srv.Play(rng, h, max=rng.choice([0, 50]), lax=True, rto=700)
    s = p.s
    for c in {c for a, c in h if a == "open"} - {c for a, c in h if a == "leave"}:
        s.wait(f"eof c{c}", f"noconn c{c}")
    if rng.random() < .4:
        again(rng, s)
    return s


def empty(rng):
    """shut down at once, without any connection"""
    s = srv.Script(lax=True)
    s.new("a", list=1, max=rng.choice([0, 50]), rto=300)
    s.op("seed", rng.randrange(1, 1 << 40))
    rest(rng, s, 2000)
    gone(s, stop(rng, s))
    again(rng, s, fast=0)
    return s


def busy(rng):
    """shutdown in the middle of all kinds of activity"""
    s = srv.Script(lax=True)
    s.new("a", list=1, max=rng.choice([0, 50]), rto=rng.choice([200, 400]), fast=1)
    s.op("seed", rng.randrange(1, 1 << 40))
    gates, ends = [], []
    for i in range(rng.randrange(1, 9)):
        c = f"c{i}"
        s.open(c)
        k = rng.randrange(12)
        if k == 0:
            pass
        elif k == 1:
            s.served(c)
        elif k == 2:
            t = s.ask(c, "/gate")
            s.wait(f"enter {t}")
            gates.append((c, t))
        elif k == 3:
            t = s.ask(c, "/gate")
            s.wait(f"enter {t}")
            gates.append((c, t))
            for _ in range(rng.randrange(1, 4)):
                s.ask(c, "/echo")
        elif k == 4:
            s.ask(c, "/nap", v=rng.randrange(3000))
        elif k == 5:
            s.ask(c, "/sseloop", kind="stream")
            s.wait(f"stream {c}")
        elif k == 6:
            s.ask(c, "/ws", kind="stream", extra=srv.WS)
            s.wait(f"stream {c}")
        elif k == 7:
            s.op("tx", c, hx(b"GET /echo HTTP/1.1\r\nHo"))
        elif k == 8:
            t = s.ask(c, "/ssegate", kind="stream")
            s.wait(f"stream {c}")
            gates.append((c, t))
        elif k == 9:
            t = s.ask(c, "/wsgate", kind="stream", extra=srv.WS)
            s.wait(f"stream {c}")
            gates.append((c, t))
        elif k == 10:
            for _ in range(rng.randrange(2, 30)):
                s.ask(c, "/echo")
        else:
            s.served(c)
            s.op("bye", c, rng.choice(["close", "rst", "half"]))
            ends.append(c)
        rest(rng, s, 2000)
    waits = stop(rng, s)
    for i in range(rng.randrange(0, 3)):
        s.open(f"d{i}")
        s.ask(f"d{i}", "/echo")
    rest(rng, s)
    if rng.random() < .5 and waits:
        for w in waits:
            if w.startswith("shutx"):
                s.op("wait", w)
        for i in range(rng.randrange(0, 3)):
            s.open(f"e{i}")
            s.ask(f"e{i}", "/echo")
        for c, _ in gates:
            s.ask(c, "/echo")
    rng.shuffle(gates)
    for c, t in gates:
        s.op("rel", t)
        rest(rng, s, 500)
    gone(s, waits)
    for c in s.conns:
        if c not in ends:
            s.wait(f"eof {c}", f"noconn {c}")
    if rng.random() < .5:
        again(rng, s)
    return s


def quit(rng):
    """the handler of a request shuts the server down"""
    s = srv.Script(lax=True)
    s.new("a", list=1, max=rng.choice([0, 50]), rto=300, fast=1)
    s.op("seed", rng.randrange(1, 1 << 40))
    s.open("o")
    s.served("o")
    waiting = rng.random() < .5
    if waiting:
        s.op("await", "a")
    # the calls of the handler are not on the record: the reply tells
    s.open("c")
    t = s.ask("c", "/quit", v="a")
    s.wait(f"resp c 200 {t}")
    s.wait("eof c")
    s.op("shut", "a", "here=1")
    gone(s, ["awaitx_a"] if waiting else [])
    s.wait("eof o")
    again(rng, s)
    return s


def cycle(rng):
    """many servers one after the other"""
    s = srv.Script(lax=True)
    names = ["a"] + [f"s{i}" for i in range(rng.randrange(3, 8))]
    for i, n in enumerate(names):
        s.new(n, list=1, max=0, rto=200, fast=1, **(dict(port=names[i - 1]) if i else {}))
        for k in range(rng.randrange(0, 4)):
            c = f"{n}c{k}"
            s.open(c, n)
            rng.choice([lambda: s.served(c), lambda: s.ask(c, "/nap", v=500), lambda: None, lambda: s.op("bye", c, "rst")])()
        gone(s, stop(rng, s, n), n)
    return s


def storm(rng):
    """shutdown under load"""
    s = srv.Script(lax=True, lossy=True)
    s.new("a", list=1, max=rng.choice([0, 50, 60]), rto=250, fast=1)
    s.op("seed", rng.randrange(1, 1 << 40))
    s.op("storming", "a", rng.randrange(2, 70), 400, rng.randrange(1 << 30))
    s.op("sleep", rng.randrange(60000))
    gone(s, stop(rng, s))
    s.wait("stormed*")
    again(rng, s)
    return s


def run(ctx):
    rng = ctx.rng
    exe = core.build("srvdrv", ["srvdrv.cpp"], link=["-ldl"])
    shaky = core.build("srvdrv-p", ["srvdrv.cpp"], link=["-ldl"], defines=["DRV_PERTURB"])
    asan = core.build("srvdrv-p", ["srvdrv.cpp"], "asan", link=["-ldl"], defines=["DRV_PERTURB"])
    ctx.model("Server", "Server", timeout=3000)
    ctx.model("Server", "Server_unlimited", timeout=3000)
    for bug in ("notcheck", "nojoin", "nolock"):
        if not ctx.model("Server", "Server_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    hs = srv.behaviours(ctx, "ServerGen_free", ctx.n(400, 4000), False, rng.choice([2, 5, 8]), 22)
    hs += srv.behaviours(ctx, "ServerGen_free", ctx.n(150, 2000), True, 6, 22)
    hs = rng.sample(hs, min(len(hs), ctx.n(130, 4000)))
    kinds = lambda k: [walk(rng, h) for h in rng.sample(hs, min(len(hs), 3 * k))] + [f(rng) for f in (empty, busy, busy, busy, quit, cycle, storm) for _ in range(k)]
    env = dict(ASAN_OPTIONS="detect_leaks=0")
    total = 0
    for name, e, k in (("server", exe, ctx.n(18, 400)), ("server with delays", shaky, ctx.n(16, 400)), ("server under a sanitizer", asan, ctx.n(10, 300))):
        cases = kinds(k)
        rng.shuffle(cases)
        srv.judge(ctx, e, cases, name, procs=20, env=env, per=5)
        total += len(cases)
    ctx.notes.update(scripts=total)
    return ctx.finish()
