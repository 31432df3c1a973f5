"""O03: every response can be traced to its connection and request, and says when it was made."""
from .. import core, pure
from . import O02


def case(ctx):
    c, rng = O02.case(ctx), ctx.rng
    for x in c["conns"]:
        for st in x["steps"]:
            if rng.random() < .3:
                st["own"] = rng.choice([b"X-Request-ID", b"x-request-id", b"Date", b"DATE"])
            if rng.random() < .2:
                st["xid"] = rng.choice([b"00000000-00000000", b"z" * 40, b"-", b"1, 2"])
            st["n"] = 0
    # time passes on some
    x = [c for c in c["conns"] if len(c["steps"]) > 1 and not c["pipe"]]
    if x and rng.random() < .15:
        rng.choice(x)["steps"][-1]["pause"] = 3.2
    return c


def record(exe):
    f = O02.record(exe)

    def g(cs):
        tr = f(cs)
        return [dict(alive=t["alive"], conns=[dict(host=c["host"], port=c["port"], last=c["last"], k=[s["v"] for s in c["steps"]],
                steps=[dict(told=s["told"], resp=s["resp"]) for s in c["steps"]]) for c in t["conns"]]) for t in tr]
    return g


def show(c, t, at):
    i = (at or 1) - 1
    if i < len(t["conns"]):
        return f"options {c['o']}, client {c['conns'][i]!r:.300}: {t['conns'][i]!r:.700}"
    return f"options {c['o']}: alive {t['alive']}, names {[s['told'] for x in t['conns'] for s in x['steps']]!r:.500}"


def run(ctx):
    exe = core.build("logdrv", ["logdrv.cpp"])
    ctx.model("IdentMC", "IdentMC" if ctx.quick else "IdentMC_deep", timeout=2400)
    for bug in ("once", "global", "fresh", "own"):
        if not ctx.model("IdentMC", "IdentMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = [case(ctx) for _ in range(ctx.n(160, 1500))]
    tr = pure.judge(ctx, "IdentTrace", cs, record(exe), None, show)
    ctx.sample(tr[0])
    ctx.notes["connections"] = sum(len(t["conns"]) for t in tr)
    ctx.notes["responses"] = sum(len(s["resp"]) for t in tr for x in t["conns"] for s in x["steps"]) + sum(len(x["last"]) for t in tr for x in t["conns"])
    return ctx.finish()
