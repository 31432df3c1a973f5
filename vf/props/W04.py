"""W04: outgoing websocket frames."""
from .. import core, ws
from ..drive import hx

SZ = [0, 1, 2, 124, 125, 126, 127, 128, 255, 256, 1000]


def quiet(rng, i):
    """one message after the other, fragments, control frames of the client in between"""
    prog, opened = [], False
    for _ in range(rng.randrange(1, 8)):
        n = rng.choice(SZ + ([65534, 65535, 65536, 65537, 70000] if rng.random() < .15 else []))
        part = rng.random() < .35
        prog.append(f"send:{rng.choice('TB')}:{int(part)}:{hx(ws.payload(rng, n))}")
    if rng.random() < .3:
        prog.append("close:%d" % rng.choice([1000, 1001, 1003, 1011]))
        prog.append("send:T:0:" + hx(b"too late"))
        if rng.random() < .5:
            prog.append("close:1000")
    prog.append(rng.choice(["drain", "drain", "throw", "sleep:1"]))
    fs = ws.stream(rng, rng.randrange(0, 4))
    end = prog[-1] != "drain" or any(p.startswith("close") for p in prog)
    return ws.Case(fs, ws.cuts(rng, fs), prog, fin="held" if end else rng.choice(["eof", "rst"]), part=rng.choice([0, 0, 1, 7, 100, 3000] if len(''.join(prog)) < 6000 else [0, 5000]),
                   rng=rng, gate=rng.choice([0, 1]), seed=i, threads=rng.random() < .3)


def race(rng, i):
    """threads of the application send while the reader answers"""
    n = rng.randrange(1, 4)
    c = rng.randrange(4, 14)
    fs = [ws.Frame(9, ws.payload(rng, rng.choice([0, 1, 5, 60, 125])), mask=ws.mask(rng)) for _ in range(rng.randrange(5, 25))]
    end = rng.choice([None, "close", "opcode", "app"])
    if end in ("close", "opcode"):
        fs.insert(rng.randrange(len(fs) // 2, len(fs) + 1), ws.stopper(rng, end, False, 1 << 20))
        fs += [ws.Frame(9, b"after")] * 3
    z = rng.choice([0, 1, 100, 126, 300, 2000])
    prog = [f"burst:{n}:{c}:{z}"]
    if end == "app":
        prog += [rng.choice(["close:1000", "sleep:1"])]
    else:
        prog += ["drain"]
    k = 0
    cuts = []
    for f in fs:
        k += len(f.wire)
        if rng.random() < .7:
            cuts.append(k)
    return ws.Case(fs, cuts, prog, fin="held" if end else "eof", part=rng.choice([0, 0, 5, 50] if z < 130 else [0, 0, 700]), jitter=rng.choice([30, 100, 300]),
                   perturb=True, rng=rng, gate=rng.choice([0, 0, .5]), seed=rng.randrange(1 << 30), threads=rng.random() < .3)


def run(ctx):
    exe = core.build("wsdrv", ["wsdrv.cpp"], link=("-lz",))
    ctx.model("WsConn", "WsConn_quick" if ctx.quick else "WsConn", timeout=3000, mem="12g")
    for bug in ("nolock", "nocheck"):
        if not ctx.model("WsConn", "WsConn_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cases = [quiet(ctx.rng, i) for i in range(ctx.n(400, 8000))]
    cases += [race(ctx.rng, i) for i in range(ctx.n(500, 10000))]
    tr = ws.judge(ctx, exe, cases)
    tsan = core.build("wsdrv", ["wsdrv.cpp"], variant="tsan", link=("-lz",)) if not ctx.quick else None
    if tsan:
        tr += ws.judge(ctx, tsan, [race(ctx.rng, i) for i in range(500)], "session (thread sanitizer)")
    ctx.notes.update(sessions=len(cases), events=sum(len(t["ev"]) for t in tr))
    return ctx.finish()
