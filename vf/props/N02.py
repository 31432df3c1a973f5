"""N02: listening sockets."""
import errno

from .. import core, net, pure, sess


def lifecycle(ctx):
    """every call in every state of the model"""
    walks, edges = sess.generated(ctx, "ListenGen", 30)
    rng, out = ctx.rng, []
    for w in walks:
        c = net.Listen(rng)
        for e in w:
            op, s, o = e["op"], e["s"], e["o"]
            if op == "lopen":
                c.lopen(s, e["n"], True, rng.choice([30, 1020]), rng.choice([700, 1500]))
            elif op == "dial":
                c.dial(e["n"])
            elif op == "accept":
                c.accept(s)
            elif op == "baccept":
                c.late(s)
            elif op == "conf":
                c.conf(s)
            elif op in ("lmove", "lassign"):
                c.take(op, s, o)
            else:
                c.ends(op, s)
        c.fds()
        out.append(c)
    return out, len(walks), edges


def session(ctx):
    rng = ctx.rng
    c = net.Listen(rng)
    for _ in range(rng.randrange(5, 20)):
        s = rng.choice("lm")
        o = "m" if s == "l" else "l"
        at = c.at.get(s, ["none", 0, 0])[0]
        if at == "none":
            c.lopen(s, rng.choice([1, 2]), rng.random() < .5, rng.choice([30, 60, 150, 300]), rng.choice([100, 1500, 2750]))
            continue
        op = rng.choice(["dial"] * 5 + ["accept"] * 6 + ["active", "stop", "ldrop", "move", "assign", "late", "trouble", "timeout", "conf", "gone", "dialany", "fds"])
        x = c.at[s]
        if op == "dial" and at == "open":
            for _ in range(rng.choice([1, 1, 2, 3, 12])):
                c.dial(x[1])
        elif op == "dialany":
            c.dial(rng.choice([1, 2]))
        elif op == "accept" and (at == "shut" or x[2]):
            c.accept(s)
        elif op == "late" and at == "open" and not x[2]:
            c.late(s)
        elif op == "timeout" and at == "open" and x[2]:
            c.accept(s, t=True)
        elif op == "trouble" and at == "open":
            # errors that pass: interruptions, clients that gave up, a process that ran out of handles for a while
            c.inject("accept", rng.choice([errno.EINTR, errno.ECONNABORTED, errno.EMFILE]), rng.randrange(1, 6))
            if x[2]:
                c.accept(s)
            else:
                c.late(s)
            c.inject("accept", 0, 0)
        elif op in ("active", "ldrop"):
            c.ends(op, s)
        elif op == "stop":
            c.ends(rng.choice(["stop", "saccept"]) if at == "open" and not x[2] else "stop", s)
        elif op == "move" and c.at.get(o, ["none"])[0] == "none":
            c.take("lmove", o, s)
            c.at[s] = ["shut", 0, 0]
        elif op == "assign":
            c.take("lassign", s, rng.choice([s, o]) if c.at.get(o, ["none"])[0] != "none" else s)
        elif op == "conf" and at == "open":
            c.conf(s)
        elif op == "fds":
            c.fds()
    c.fds()
    return c


def several(ctx):
    rng, out = ctx.rng, []
    for _ in range(ctx.n(30, 200)):
        c = net.Listen(rng)
        c.lopen("l", 1)
        c.lopen("m", 2)
        kind = rng.choice(["crowd", "lsteal", "saccept"])
        if kind == "crowd":
            c.ends("crowd", "l", rng.choice([1, 2, 4]), rng.choice([1, 5, 30, 60]), 1)
        else:
            c.ends(kind, "l")
        c.accept("l")
        c.ends("active", "l")
        c.dial(1)
        c.dial(2)
        c.accept("m")
        if rng.random() < .5:
            c.ends("ldrop", "l")
            c.lopen("l", 1)
            c.late("l")
        c.fds()
        out.append(c)
    # more clients than anybody takes at once
    for n in (20, 60):
        c = net.Listen(rng)
        c.lopen("l", 1)
        for _ in range(n):
            c.dial(1)
        for _ in range(n):
            c.accept("l")
        c.late("l")
        c.fds()
        out.append(c)
    return out


def describe(c, t, at):
    at = min(at or 1, len(t))
    e = t[at - 1]
    brief = lambda x: "%s %s -> %s" % (x["op"], " ".join(str(x[k]) for k in ("s", "o", "k", "n") if k in x), x["r"])
    return "listening sockets: after " + "; ".join(brief(x) for x in t[max(0, at - 8):at - 1]) + ": " + str(e)


def run(ctx):
    exe = core.build("netdrv", ["netdrv.cpp"], variant="asan", link=["-ldl"])
    ctx.model("ListenConc")
    for bug in ("rawclose", "noshutdown", "swallow", "giveup"):
        if not ctx.model("ListenConc", "ListenConc_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    walks, nw, edges = lifecycle(ctx)
    cases = walks + [session(ctx) for _ in range(ctx.n(300, 3000))] + several(ctx)
    ctx.rng.shuffle(cases)
    tr = pure.judge(ctx, "ListenTrace", cases, net.record(exe, net.listen_event), None, describe)
    ctx.sample(tr[0])
    ctx.notes.update(walks=nw, edges=edges, sessions=len(cases) - nw, calls=sum(len(t) for t in tr))
    return ctx.finish()
