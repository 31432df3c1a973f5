"""N01: TCP connections."""
import errno

from .. import core, net, pure, sess


def lifecycle(ctx):
    """every call in every state of the model"""
    walks, edges = sess.generated(ctx, "ConnGen" if ctx.quick else "ConnGen_deep", 40)
    rng = ctx.rng
    out = []
    for w in walks:
        c = net.Conn(rng)
        for e in w:
            op, s, o = e["op"], e["s"], e["o"]
            if op == "conn":
                c.conn(s, e["ct"], e["td"])
            elif op == "psend":
                c.peer("psend", s, 100)
            elif op in ("peof", "prst"):
                c.peer(op, s)
            elif op == "read":
                # the model reads a hundred at a time
                c.read(s, 100)
            elif op == "write":
                c.write(s, rng.choice([1, 10, 1000]))
            elif op == "look":
                c.look(c.k[s], 20)
            elif op in ("move", "assign"):
                c.take(op, s, o)
            else:
                c.one(op, s)
        for k in range(1, c.n + 1):
            c.look(k, 40)
        c.fds()
        out.append(c)
    return out, len(walks), edges


def session(ctx):
    rng = ctx.rng
    c = net.Conn(rng, rcv=rng.choice([40, 80, 150]), snd=6000)
    held = {}     # slot -> what is known of it
    for _ in range(rng.randrange(6, 28)):
        s = rng.choice("pq")
        o = "q" if s == "p" else "p"
        x = held.get(s)
        if x is None:
            if rng.random() < .8 or held.get(o) is None:
                ct, td = rng.random() < .5, rng.random() < .5
                c.conn(s, ct, td)
                held[s] = dict(fin=False, a=0, bad=False)
            else:
                c.take("move", s, o)
                held[s] = held[o]
                held[o] = dict(fin=True, a=0, bad=True)
            continue
        if x["bad"]:
            op = rng.choice(["end", "drop", "assigned", "drop"])
        else:
            op = rng.choice(["psend"] * 6 + ["read"] * 8 + ["write"] * 4 + ["peof", "prst", "end", "drop", "assigned", "flags", "tmo", "info", "open", "look", "rfault", "wfault", "short", "ends", "big", "eintr"])
        if op == "psend" and not x["fin"]:
            n = rng.choice([1, 2, 7, 100, 2047, 2048, 2049, 5000, rng.randrange(1, 60000)])
            c.peer("psend", s, n)
            x["a"] += n
        elif op == "read":
            c.read(s, rng.choice([0, 1, 2, 100, 2048, 4096, 100000]))
        elif op == "write" and not x["fin"]:
            c.write(s, rng.choice([0, 1, 2, 100, 2048, 70000]))
        elif op == "big" and not x["fin"]:
            if rng.random() < .5:
                c.short(rng.choice([1000, 50000]))
            c.write(s, rng.randrange(100000, 1500000))
            c.short(0)
        elif op == "peof" and not x["fin"]:
            c.peer("peof", s)
            x["fin"] = True
        elif op == "prst" and not x["fin"]:
            c.peer("prst", s)
            x.update(fin=True, bad=rng.random() < .3)
        elif op in ("end", "drop", "ends"):
            c.one(op, s)
            if op == "drop":
                held[s] = None
            else:
                x["bad"] = rng.random() < .5
        elif op == "assigned" and held.get(o) and not held[o]["bad"]:
            c.take("assign", s, o)
            held[s], held[o] = held[o], dict(fin=True, a=0, bad=True)
        elif op == "flags":
            ct, td = rng.random() < .5, rng.random() < .5
            c.add(f"flags {s} {int(ct)} {int(td)}", op="flags", s=s, ct=ct, td=td)
        elif op == "look":
            c.look(c.k[s], 15)
        elif op == "eintr":
            c.inject("recv", errno.EINTR, rng.randrange(1, 5))
            if x["a"] or x["fin"]:
                c.read(s, 100)
            c.inject("send", errno.EINTR, rng.randrange(1, 5))
            if not x["fin"]:
                c.write(s, 50)
            c.inject("recv", 0, 0)
            c.inject("send", 0, 0)
        elif op == "rfault":
            err = rng.choice([errno.EIO, errno.ENOMEM, errno.ECONNRESET])
            c.inject("recv", err, 1)
            c.read(s, 100, want=err)
            x["bad"] = True
        elif op == "wfault" and not x["fin"]:
            c.inject("send", rng.choice([errno.EIO, errno.EPIPE, errno.ENOBUFS, errno.EAGAIN]), 1)
            c.write(s, rng.randrange(1, 500))
            x["bad"] = True
        elif op == "short":
            c.short(rng.choice([0, 1, 3, 100]))
    c.short(0)
    for k in range(1, c.n + 1):
        if rng.random() < .5:
            c.look(k, 40)
    c.fds()
    return c


def others(ctx):
    """timeouts of their own length, writes nobody takes, and several threads"""
    rng, out = ctx.rng, []
    for ms, d in [(250, "r"), (1200, "r"), (1050, "b"), (700, "x"), (2100, "r")]:
        c = net.Conn(rng, rcv=100, snd=100)
        c.conn("p", False, True)
        c.read("p", 10)
        c.add(f"tmo p {ms} {d}", op="tmo", s="p", n=ms, dir=d)
        c.read("p", 10)
        c.one("info", "p")
        c.conn("q", True, True)
        c.read("q", 10)
        c.one("open", "q")
        c.read("p", 10)
        c.peer("psend", "p", 10)
        c.read("p", 100)
        c.fds()
        out.append(c)
    for ms, d in [(150, "s"), (1300, "s"), (900, "b")]:
        c = net.Conn(rng, rcv=100, snd=3000)
        c.conn("p", True, True)
        c.add(f"tmo p {ms} {d}", op="tmo", s="p", n=ms, dir=d)
        c.one("info", "p")
        c.write("p", 40 << 20, full=True)
        c.one("drop", "p")
        c.fds()
        out.append(c)
    for _ in range(ctx.n(12, 60)):
        c = net.Conn(rng, rcv=20000, snd=20000)
        for s in "pq":
            c.conn(s, rng.random() < .5, rng.random() < .5)
        op = rng.choice(["unblock", "unblockw"])
        c.add(f"{op} p {rng.choice([0, 100, 20000])}", op=op, s="p")
        c.read("p", 10)
        c.one("open", "p")
        if op == "unblock":
            c.look(c.k["p"], 2000)
        c.add("duplex q 30000", op="duplex", s="q", want=20000)
        c.one("ends", "q")
        c.look(c.k["q"], 2000)
        c.fds()
        out.append(c)
    for _ in range(ctx.n(16, 120)):
        c = net.Conn(rng, rcv=3000, snd=6000)
        c.conn("p", True, True)
        t, n = rng.choice([2, 3, 4]), rng.choice([5, 20])
        size = rng.choice([2, 100, 3000, 40000])
        c.short(rng.choice([0, 1 + size // 3, 7]) if size < 5000 else rng.choice([0, size // 2]))
        c.add(f"writers p {t} {n} {size}", op="writers", s="p")
        c.short(0)
        c.one("end", "p")
        c.fds()
        out.append(c)
    for _ in range(ctx.n(16, 80)):
        c = net.Conn(rng, rcv=3000, snd=3000)
        c.conn("p", True, True)
        c.add(f"steal p {rng.choice([1, 2])}", op="steal", s="p")
        c.one("open", "p")
        c.fds()
        out.append(c)
    return out


def describe(c, t, at):
    at = min(at or 1, len(t))
    e = t[at - 1]
    brief = lambda x: "%s %s -> %s" % (x["op"], " ".join(str(x[k]) for k in ("s", "o", "k", "n") if k in x), x["r"])
    return "connections: after " + "; ".join(brief(x) for x in t[max(0, at - 8):at - 1]) + ": " + str(e)


def run(ctx):
    exe = core.build("netdrv", ["netdrv.cpp"], variant="asan", link=["-ldl"])
    ctx.model("ConnConc")
    for bug in ("rawclose", "halflock", "noexchange", "noshutdown"):
        if not ctx.model("ConnConc", "ConnConc_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    walks, nw, edges = lifecycle(ctx)
    cases = walks + [session(ctx) for _ in range(ctx.n(300, 3000))] + others(ctx)
    ctx.rng.shuffle(cases)
    tr = pure.judge(ctx, "ConnTrace", cases, net.record(exe, net.conn_event), None, describe)
    ctx.sample(tr[0])
    ctx.notes.update(walks=nw, edges=edges, sessions=len(cases) - nw, calls=sum(len(t) for t in tr))
    return ctx.finish()
