"""K05: refused writes (ENOSPC) at every place of a session, against KVTrace."""
from .. import core, kv


class FSession(kv.Session):
    def fail(self, on):
        self.cmds.append(f"fail {1 if on else 0}")
        self.mk.append(("skip",))

    def faulty(self, op, k=b"", v=b""):
        """an operation issued while writes are refused"""
        if k not in self.keys:
            self.keys.append(k)
        self.cmds.append(kv.cmd(op, k, v))
        self.mk.append(("op", kv.orec(op, k, v)))


def convert(trace):
    """a refused mutation is the event `failed`; a session after one may have lost or kept it"""
    out, failed = [], False
    for e in trace:
        if e["e"] == "op" and e["res"] == "refused" and e["o"]["klen"] <= 65535 and e["o"]["op"] in ("set", "remove", "clear"):
            failed = True
            out.append(dict(e="failed", o=e["o"]))
        elif e["e"] == "contents" and failed and out and out[-1]["e"] == "reopen":
            out.append(dict(e="contentsany", m=e["m"]))
            failed = False
        else:
            out.append(e)
    return out


def session(rng, i):
    s = FSession(b"f%d.db" % i)
    pool = [b"a", b"b", b"", b"key-3"]
    vals = [b"", b"1", b"value", b"x" * 1100, b"y" * 9000]
    for _ in range(rng.randrange(0, 6)):
        s.op(rng.choice(["set", "set", "remove"]), rng.choice(pool), rng.choice(vals))
    for _ in range(rng.randrange(1, 3)):
        s.fail(True)
        for _ in range(rng.randrange(1, 4)):
            s.faulty(rng.choice(["set", "set", "remove", "clear", "get", "has", "size"]), rng.choice(pool), rng.choice(vals))
        s.contents()
        s.fail(False)
        for _ in range(rng.randrange(0, 4)):
            s.op(rng.choice(["set", "remove", "get", "size", "has"]), rng.choice(pool), rng.choice(vals))
        s.contents()
        s.reopen()
        s.contents()
        for _ in range(rng.randrange(0, 3)):
            s.op("set", rng.choice(pool), rng.choice(vals))
    s.contents()
    s.reopen()
    s.contents()
    s.end()
    return s


def run(ctx):
    exe = core.build("kvdrv", ["kvdrv.cpp"])
    ctx.model("KVStore", "KVStore")
    sess = [session(ctx.rng, i) for i in range(ctx.n(500, 8000))]
    # each single mutation refused, after each small state
    n = len(sess)
    for pre in ([], [("set", b"a", b"1")], [("set", b"a", b"1"), ("remove", b"a", b"")]):
        for f in (("set", b"a", b"2"), ("set", b"b", b"z" * 9000), ("remove", b"a", b""), ("clear", b"", b"")):
            for after in ([], [("set", b"c", b"3")], [("remove", b"a", b"")], [("get", b"a", b"")]):
                s = FSession(b"e%d.db" % n)
                n += 1
                for o in pre:
                    s.op(*o)
                s.fail(True)
                s.faulty(*f)
                s.contents()
                s.fail(False)
                for o in after:
                    s.op(*o)
                s.contents()
                s.reopen()
                s.contents()
                s.end()
                sess.append(s)
    traces = [convert(t) for t in kv.run_sessions(ctx, exe, sess)]
    nf = sum(1 for t in traces for e in t if e["e"] == "failed")
    ctx.notes.update(sessions=len(sess), refused_writes=nf)
    ctx.sample(traces[0][:15])
    for i in ctx.validate("KVTrace", [dict(ev=t) for t in traces])[:3]:
        t2 = convert(kv.run_sessions(ctx, exe, [sess[i]])[0])
        if ctx.validate("KVTrace", [dict(ev=t2)]):
            at, exp = ctx.explain("KVTrace", dict(ev=t2))
            ctx.violation(f"event {at} is not allowed: {str(t2[at - 1] if at <= len(t2) else t2[-1])[:300] if at else ''} {exp or ''}",
                          dict(commands=sess[i].cmds, trace=t2, at=at))
    return ctx.finish()
