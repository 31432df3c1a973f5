"""W05: the end of websocket sessions."""
from .. import core, drive, http, ws
from ..drive import hx


def plan(rng, i, kind):
    p = dict(id=i, answers=-1, prog=["drain"], ops=[], own=0, limit=9000, frames=0, code=0)
    at = rng.choice([0, 20, 100, 150, 300, 1000, 2000])

    def data(n, t):
        p["frames"] += n
        b = b"".join(ws.Frame(1, b"m%d" % k).wire for k in range(n))
        if rng.random() < .3 and n:
            b += ws.Frame(2, b"never complete").wire[:-3]
        p["ops"].append((t, "bytes", b))
    if kind == "silent":
        p.update(answers=0, limit=50000)
    elif kind == "tired":
        p.update(answers=rng.choice([1, 2]), limit=60000)
    elif kind == "awake":
        p["ops"].append((rng.choice([23000, 26000]), "eof"))
        p["limit"] = 60000
    elif kind in ("eof", "rst"):
        if rng.random() < .7:
            data(rng.randrange(0, 30), at + 60)
        p["ops"].append((at + 60, kind))
        if kind == "eof" and rng.random() < .3:
            p["prog"] = ["sleep:%d" % rng.choice([100, 300, 1000]), "drain"]
    elif kind == "leave":
        p["prog"] = ["sleep:%d" % at] + rng.choice([[], ["throw"]])
    elif kind == "close":
        p["code"] = rng.choice([1000, 1001, 1011, 1008])
        p["prog"] = ["sleep:%d" % at, "close:%d" % p["code"]] + rng.choice([[], ["drain"]])
    elif kind == "shutdown":
        p["own"] = 1
        if rng.random() < .5:
            data(rng.randrange(1, 9), at)
        p["ops"].append((at + rng.choice([80, 90, 150, 300]), "shutdown"))
        p["prog"] = rng.choice([["drain"], ["drain"], ["sleep:300", "drain"]])
    p["kind"] = kind
    return p


def line(p):
    ops = ",".join(":".join([str(o[0]), o[1]] + ([hx(o[2])] if len(o) > 2 else [])) for o in p["ops"]) or "none"
    return f"live id={p['id']} answers={p['answers']} prog={','.join(p['prog'])} ops={ops} own={p['own']} limit={p['limit']}"


def traces(plans, outs):
    ev = {p["id"]: [] for p in plans}
    for ln in outs:
        w = ln.split(" ")
        if not w[0].startswith("L") or not w[0][1:].isdigit():
            continue
        e = dict(t=int(w[1]), e=w[2])
        if w[2] == "close":
            e["code"] = int(w[3])
        if w[2] == "op":
            e["what"] = w[3]
        ev[int(w[0][1:])].append(e)
    return [dict(frames=p["frames"], answers=p["answers"], code=p["code"], ev=ev[p["id"]]) for p in plans]


KINDS = ["silent", "silent", "tired", "awake", "awake", "eof", "rst", "leave", "close", "shutdown"]


def play(exe, plans):
    outs, rc, err = drive.batch(exe, [line(p) for p in plans], timeout=200)
    tr = traces(plans, outs)
    if rc == 9:
        raise core.CheckError("driver could not set up: " + err[-300:])
    for p, t in zip(plans, tr):
        p["why"] = f"rc={rc} {err[-300:]}" if not t["ev"] or t["ev"][-1]["e"] != "done" else ""
        if p["why"]:
            t["ev"].append(dict(t=t["ev"][-1]["t"] if t["ev"] else 0, e="died"))
    return tr


def moments(rng, i):
    """the client goes away at any point of the byte stream"""
    fs = ws.stream(rng, rng.randrange(1, 6))
    n = sum(len(f.wire) for f in fs)
    c = ws.Case(fs, ws.cuts(rng, fs), fin=rng.choice(["eof", "rst"]), rng=rng, gate=rng.choice([0, 1]), seed=i, threads=rng.random() < .5,
                perturb=rng.random() < .5)
    keep = rng.randrange(0, n)
    left, steps = keep, []
    mean = [e for e, k in ws.meaning(fs, c.max, 0) if k == "msg"]
    for m, p, b in c.steps:
        if left <= 0:
            break
        steps.append((m, p, b[:left]))
        left -= len(b)
    c.steps = steps
    c.endm, c.endp = (sum(e <= keep for e in mean) if rng.random() < .5 else 0), 0
    return c


def run(ctx):
    exe = core.build("wsdrv", ["wsdrv.cpp"], link=("-lz",))
    ctx.model("WsPing")
    ctx.model("WsConn", "WsConn_live", timeout=3000)
    for bug in ("never", "flood", "deaf", "silentend"):
        if not ctx.model("WsPing", "WsPing_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cases = [moments(ctx.rng, i) for i in range(ctx.n(400, 10000))]
    tr = ws.judge(ctx, exe, cases)
    live = 0
    for rnd in range(ctx.n(1, 12)):
        plans = [plan(ctx.rng, i, KINDS[i % len(KINDS)]) for i in range(60)]
        tr = play(exe, plans)
        live += len(tr)
        bad = ctx.validate("WsLive", tr)
        again = []
        if bad:
            ps = [plans[j] for j in bad]
            tr2 = play(exe, ps)
            again = [(ps[k], tr2[k]) for k in ctx.validate("WsLive", tr2)]
            if not again:
                ctx.notes["not_reproduced"] = ctx.notes.get("not_reproduced", 0) + len(bad)
        for p, t in again[:3]:
            at, exp = ctx.explain("WsLive", t)
            e = t["ev"][at - 1] if at <= len(t["ev"]) else "end of trace"
            ctx.violation(f"live session ({p['kind']}): event {at} is not allowed: {e} {str(exp)[:300]} {p['why']}", dict(line=line(p), at=at, events=t["ev"]))
    ctx.notes.update(sessions=len(cases), live_sessions=live)
    return ctx.finish()
