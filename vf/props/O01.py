"""O01: lines written through syncout are whole, in order, and say what was given."""
from .. import core, drive, pure


def cases(ctx):
    rng, out = ctx.rng, []
    t = lambda n: bytes(rng.choice(b"ab \n\t%s\xc3\xa90") for _ in range(rng.randrange(n)))
    ints = dict(uch=(0, 255), i16=(-2**15, 2**15 - 1), u16=(0, 2**16 - 1), i32=(-2**31, 2**31 - 1), u32=(0, 2**32 - 1),
                l=(-2**63, 2**63 - 1), ll=(-2**63, 2**63 - 1), ul=(0, 2**64 - 1), ull=(0, 2**64 - 1))

    def item():
        k = rng.choice(["s", "s", "s", "c", "b", "ch", "null", *ints])
        if k in ints:
            lo, hi = ints[k]
            v = rng.choice([lo, hi, 0, 1, 7, 10, rng.randrange(lo, hi + 1)])
            return k, str(v).encode(), str(v).encode()
        if k == "b":
            v = rng.randrange(2)
            return k, b"%d" % v, b"true" if v else b"false"
        if k == "ch":
            v = bytes([rng.choice(b"a \n0%\xff")])
            return k, v, v
        if k == "null":
            return k, b"", b""
        v = rng.choice([b"", b" ", t(4), t(20), t(9000) if rng.random() < .1 else b"x"])
        return k, v, v
    for op in ("say", "cry"):
        out += [[(op, form, [i])] for form in ("one", "list") for i in (("s", b"", b""), ("c", b"", b""), ("null", b"", b""), ("s", b" ", b" "), ("s", b"\n", b"\n"), ("s", b"a\0b", b"a\0b"))]
        out.append([(op, "list", [])])
        for _ in range(ctx.n(200, 3000)):
            out.append([(op, "list", [item() for _ in range(rng.randrange(5))]), (op, "one", [item()])])
    for _ in range(ctx.n(24, 200)):
        out.append([("chorus", rng.choice([2, 3, 5, 8]), rng.choice([3, 40, 150]), rng.choice([1, 60, 1000, 5000]), rng.randrange(2))])
    return out


def lines(s):
    r = []
    for c in s:
        if c[0] == "chorus":
            r.append(" ".join(map(str, c)))
        else:
            r.append(" ".join([c[0], c[1]] + [f"{k} {drive.hx(x)}" for k, x, _ in c[2]]))
    return r


def event(c, x):
    w = x.split(" ")
    o, e = (drive.unhx(w[1]), drive.unhx(w[2])) if len(w) == 3 and w[0] == "l" else (b"", b"")
    r = w[0] if len(w) == 3 else "bad"
    if c[0] != "chorus":
        return dict(op=c[0], r=r, items=[list(y) for _, _, y in c[2]], out=list(o), err=list(e))
    known = {b"t%d %s n%d" % (t, bytes([97 + t]) * c[3], i): [t, i] for t in range(c[1]) for i in range(c[2])}
    cut = lambda s: [known.get(ln, [-1, 0]) for ln in (s[:-1].split(b"\n") if s.endswith(b"\n") else (s + b"\n?").split(b"\n") if s else [])]
    return dict(op="chorus", r=r, th=c[1], n=c[2], out=cut(o), err=cut(e))


def record(exe):
    return lambda cs: [[event(c, o) for c, o in zip(s, os)] for s, os in zip(cs, pure.run(exe, [lines(s) for s in cs]))]


def run(ctx):
    exe = core.build("miscdrv", ["miscdrv.cpp"], "asan")
    ctx.model("SayMC")
    for bug in ("nolock", "early"):
        if not ctx.model("SayMC", "SayMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)
    rec = record(exe)
    # what a race breaks need not break again at once
    tr = pure.judge(ctx, "SayTrace", cs, rec, lambda p: rec([c * 6 if c[0][0] == "chorus" else c for c in p]),
                    lambda c, t, at: f"{c[:2]!r:.200}: {t[min(at or 1, len(t)) - 1]!r:.400}")
    ctx.sample(tr[0])
    ctx.notes["calls"] = {k: sum(x[0] == k for c in cs for x in c) for k in ("say", "cry", "chorus")}
    return ctx.finish()
