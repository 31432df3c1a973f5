"""X01: base64, hex and percent codecs, SHA-1."""
import hashlib
import itertools

from .. import core, pure, drive

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def cases(ctx):
    rng, out = ctx.rng, []
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    for op in ("b64e", "hexe", "urle"):
        out += [(op, bytes(x)) for n in range(3) for x in itertools.product([0, 1, 37, 65, 127, 128, 255], repeat=n)]
        out += [(op, bytes([b])) for b in range(256)]
        out += [(op, bytes([b, b2])) for b in range(0, 256, 5) for b2 in (0, 3, 15, 16, 63, 64, 255)] if op == "b64e" else []
        out += [(op, rb(rng.randrange(3, 90))) for _ in range(ctx.n(150, 3000))]
    # decoding: every short string over a small alphabet, encodings, and damaged encodings
    out += [("b64d", bytes(x)) for n in range(ctx.n(5, 6)) for x in itertools.product(b"A9/=", repeat=n)]
    out += [("b64d", bytes([a]) * k + B64[5:5 + 4 - k]) for a in range(256) for k in (1, 2)]
    out += [("b64d", b"QUJD" + bytes(x)) for n in range(1, 5) for x in itertools.product(b"Qg=", repeat=n)]
    import base64
    for _ in range(ctx.n(400, 8000)):
        e = bytearray(base64.b64encode(rb(rng.randrange(0, 70))))
        r = rng.random()
        if e and r < .2:
            e[rng.randrange(len(e))] = rng.choice([61, 10, 32, 45, 95, 0, 200, 46, rng.randrange(256)])
        elif r < .3:
            e = e.rstrip(b"=")
        elif r < .35:
            e += b"="
        elif r < .45 and e:
            del e[rng.randrange(len(e))]
        out.append(("b64d", bytes(e)))
    out += [("hexd", bytes(x)) for n in range(4) for x in itertools.product(b"09aFg:@`/G", repeat=n)]
    out += [("hexd", bytes([b, 48])) for b in range(256)] + [("hexd", bytes([48, b])) for b in range(256)]
    for _ in range(ctx.n(150, 3000)):
        e = rb(rng.randrange(0, 40)).hex()
        e = bytearray((e.upper() if rng.random() < .4 else e).encode())
        if e and rng.random() < .3:
            e[rng.randrange(len(e))] = rng.randrange(256)
        out.append(("hexd", bytes(e)))
    out += [("urld", bytes(x)) for n in range(ctx.n(5, 6)) for x in itertools.product(b"%4aZ", repeat=n)]
    out += [("urld", b"%" + bytes([b]) + b"1") for b in range(256)] + [("urld", b"%1" + bytes([b])) for b in range(256)]
    for _ in range(ctx.n(150, 3000)):
        out.append(("urld", b"".join(rng.choice([b"%" + bytes([rng.randrange(256)]).hex().encode(), rb(1), b"%2F", b"%c3%a9", b"+", b"%%", b"a"])
                                     for _ in range(rng.randrange(12)))))
    # SHA-1: lengths around the block and length-field boundaries, every chunking position
    for n in [*range(0, 131)] + ([] if ctx.quick else [*range(131, 260)]):
        m = rb(n)
        out.append(("sha", m, sorted(rng.randrange(n + 1) for _ in range(rng.randrange(4))), rng.random() < .5, rng.random() < .5))
    for n in ctx.n([1000, 8191, 8192], [1000, 4096, 8191, 8192, 8200, 16384, 33000]):
        out.append(("sha", rb(n), sorted(rng.randrange(n + 1) for _ in range(9)), True, False))
    for n, c in ctx.n([(1 << 21, 1), (3 << 20, 7)], [(1 << 21, 1), (3 << 20, 7), ((1 << 21) - 9, 3), (40 << 20, 2), (536870912, 64)]):
        out.append(("shabig", n, c))
    return out


def lines(c):
    if c[0] == "sha":
        _, m, cuts, s, again = c
        cuts = [0, *cuts, len(m)]
        r = ["new"] + (["upd 616263", "digest", "reset"] if again else [])
        return r + [f"{'upds' if s else 'upd'} {drive.hx(m[a:b])}" for a, b in zip(cuts, cuts[1:])] + ["digest"]
    if c[0] == "shabig":
        return ["new"] + [f"fill {65 + i % 26:02x} {c[1] // c[2]}" for i in range(c[2])] + ["digest"]
    return [f"{c[0]} {drive.hx(c[1])}"]


def record(exe):
    def f(cs):
        tr = []
        for c, o in zip(cs, pure.run(exe, [lines(c) for c in cs])):
            x = dict(op=c[0], out=pure.res(o[-1]))
            if c[0] == "sha":
                cuts = [0, *c[2], len(c[1])]
                x["in"] = [list(c[1][a:b]) for a, b in zip(cuts, cuts[1:])]
            elif c[0] == "shabig":
                h = hashlib.sha1()
                for i in range(c[2]):
                    h.update(bytes([65 + i % 26]) * (c[1] // c[2]))
                x["ref"] = list(h.digest())
            else:
                x["in"] = list(c[1])
            tr.append(x)
        return tr
    return f


def run(ctx):
    exe = core.build("codecdrv", ["codecdrv.cpp"], "asan")
    ctx.model("CodecMC")
    for bug in ("nopad", "lenlost", "bound", "swallow"):
        if not ctx.model("CodecMC", "CodecMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = list({(c if isinstance(c[1], int) else (c[0], c[1], *map(str, c[2:]))): c for c in cases(ctx)}.values())
    tr = pure.judge(ctx, "CodecTrace", cs, record(exe), None,
                    lambda c, t, at: f"{c[0]} of {c[1]!r:.80}: {t['out']['k']} {bytes(t['out']['v'])!r:.80}")
    ctx.sample(tr[len(tr) // 2])
    ctx.notes["calls"] = {k: sum(c[0] == k for c in cs) for k in {c[0] for c in cs}}
    return ctx.finish()
