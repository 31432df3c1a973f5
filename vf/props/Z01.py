"""Z01: string helpers."""
import itertools

from .. import core, drive, pure

A = b" -aB"


def cases(ctx):
    rng, out = ctx.rng, []
    texts = lambda al, n: [bytes(x) for k in range(n + 1) for x in itertools.product(al, repeat=k)]
    for op in ("lower", "upper", "title"):
        out += [(op, x) for x in texts(A + b"1", 3)] + [(op, bytes([b])) for b in range(256)] + [(op, b"a" + bytes([b]) + b"aA") for b in range(256)]
    out += [("trim", x) for x in texts(b" \t\n\ra\0\x0b", ctx.n(3, 5))] + [("trim", bytes([b]) + b"x" + bytes([b])) for b in range(256)] + [("trim", b" " * n) for n in (4, 5, 50)]
    seps = [b"", b"a", b"aa", b"ab", b"aba", b" "]
    for op, n in (("split", 5), ("incl", 4), ("starts", 3), ("ends", 3)):
        out += [(op, x, s) for x in texts(b"ab ", n) for s in seps + [b"ba", b"bab"] if rng.random() < ctx.n(.5, 1)]
    out += [("repl", x, s, r) for x in texts(b"ab", 4) for s in seps[1:5] for r in (b"", b"a", b"ab", b"aab")]
    out += [("replall", x, s, r) for x in texts(b"ab", 5) for s in seps[1:5] for r in (b"", b"a", b"b", b"ab", b"aab") if rng.random() < ctx.n(.5, 1)]
    out += [("join", s, *ps) for s in (b"", b",", b", ") for n in range(4) for ps in itertools.product((b"", b"a", b",", b"bb"), repeat=n)]
    rb = lambda al, n: bytes(rng.choice(al) for _ in range(n))
    for _ in range(ctx.n(1200, 20000)):
        al = rng.choice([b"ab", b"abc -", bytes(range(256)), b"aAzZ@[`{", b" \r\n\tx", b"\0a\xff"])
        x = rb(al, rng.choice([rng.randrange(12), rng.randrange(80), rng.randrange(200)]))
        k = rng.randrange(len(x) + 1)
        s = rng.choice([x[k:k + rng.randrange(1, 5)], rb(al, rng.randrange(1, 4)), x[k:], x, x + b"a"]) or b"a"
        op = rng.choice(["lower", "upper", "title", "trim", "split", "incl", "inclany", "starts", "ends", "repl", "replall", "join"])
        if op in ("lower", "upper", "title", "trim"):
            out.append((op, x))
        elif op in ("repl", "replall"):
            out.append((op, x, s, rng.choice([b"", s, s + s, rb(al, rng.randrange(9)), b"x" + s + b"y"])))
        elif op == "join":
            out.append((op, rng.choice([b"", b",", b"--", b"\x80"]), *[rb(al, rng.randrange(6)) for _ in range(rng.randrange(8))]))
        elif op == "inclany":
            out.append((op, x, *[rng.choice([rb(al, rng.randrange(1, 6)), x[k:k + 2] or b"q", b"qq"]) for _ in range(rng.randrange(4))]))
        else:
            out.append((op, x, s))
    # pieces that are as long as a text gets in practice
    for n in ctx.n([400], [400, 900]):
        x = rb(b"ab,", n)
        out += [("split", x, b","), ("replall", x, b",", b",,"), ("replall", x, b"a", b""), ("title", x), ("trim", b" " * n + x + b"\n" * n)]
    return list(dict.fromkeys(out))


def record(exe):
    def f(cs):
        outs = pure.run(exe, [[" ".join([c[0], *(drive.hx(x) for x in c[1:])])] for c in cs])
        tr = []
        for c, o in zip(cs, outs):
            x = o[-1]
            r = pure.res(x) if not x.startswith("l") else dict(k="l", v=[])
            r["l"] = [list(drive.unhx(y)) for y in x.split(" ")[1:]] if x.startswith("l") else []
            tr.append(dict(op=c[0], a=[list(y) for y in c[1:]], out=r))
        return tr
    return f


def run(ctx):
    exe = core.build("miscdrv", ["miscdrv.cpp"], "asan")
    ctx.model("StrMC")
    for bug in ("rescan", "oneoff", "emptylast", "onebyte", "keepone", "sticky"):
        if not ctx.model("StrMC", "StrMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)
    # nothing to search for: all there is to see is whether the call ends; one that does not takes its time
    cs += [(op, x, b"", r) for op in ("repl", "replall") for x in (b"", b"ab") for r in (b"x",)]
    tr = pure.judge(ctx, "StrTrace", list(dict.fromkeys(cs)), record(exe), None,
                    lambda c, t, at: f"{c[0]} of {c[1:]!r:.150}: {t['out']['k']} {bytes(t['out']['v'])!r:.80} {[bytes(x) for x in t['out']['l']]!r:.80}")
    ctx.sample(tr[len(tr) // 2])
    ctx.notes["calls"] = {k: sum(c[0] == k for c in cs) for k in {c[0] for c in cs}}
    return ctx.finish()
