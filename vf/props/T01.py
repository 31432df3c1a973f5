"""T01: template rendering."""
import itertools

from .. import core, drive, pure


def cases(ctx):
    rng = ctx.rng
    sets = [[(b"a", b"{{a}}"), (b"aa", b"{")], [(b"a", b"}}"), (b"aa", b"")], [(b"a", b"V")], []]
    out = [(bytes(x), sets[i % len(sets)]) for n in range(ctx.n(7, 9)) for i, x in enumerate(itertools.product(b"{}a ", repeat=n))]
    bits = [b"{{", b"}}", b"{", b"}", b" ", b"\t", b"a", b"name", b"B_2", b"{{name}}", b"{{ a }}", b"{{\tB_2  }}", b"{{no}}", b"{{ }}", b"{{a b}}", b"{{a-b}}",
            b"{{\na}}", b"\r\n", b"<div>", b"\xc3\xa9", b"{{\xe9}}", b"\0", b"{{{a}}}", b"{ {a} }", b"{{a}", b"{a}}", b"$1", b"&", b"%s", b"\\"]
    pad = lambda: bytes(rng.choice(b"  \t") for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 7])))
    name = lambda: rng.choice([b"a", b"name", b"B_2", b"zz", b"n" * rng.randrange(1, 40), b"_", b"0", b"a0_Z"])
    hole = lambda: b"{{" + pad() + name() + pad() + b"}}"
    for _ in range(ctx.n(3500, 40000)):
        t = b"".join(rng.choice(bits) if rng.random() < .7 else hole() for _ in range(rng.randrange(1, 14)))
        ps = {}
        for n in rng.sample([b"a", b"name", b"B_2", b"zz", b"Name", b"", b"a b", b"\xe9"], rng.randrange(6)):
            ps[n] = b"".join(rng.choice(bits) for _ in range(rng.randrange(0, 5)))
        out.append((t, sorted(ps.items())))
    for _ in range(ctx.n(10, 60)):
        v = b"{{a}}" * rng.randrange(200)
        out.append((b"x" * rng.randrange(100) + b"{{a}}" * rng.randrange(50) + b"{{b}}", [(b"a", v), (b"b", b"{{a}}")]))
    return out


def record(exe):
    def f(cs):
        ls = [[" ".join(["tpl", drive.hx(t)] + [drive.hx(x) for p in ps for x in p])] for t, ps in cs]
        return [dict(tpl=list(t), props=[[list(k), list(v)] for k, v in ps], out=pure.res(o[0])) for (t, ps), o in zip(cs, pure.run(exe, ls))]
    return f


def run(ctx):
    exe = core.build("pagedrv", ["pagedrv.cpp"], link=["-ldl"])
    ctx.model("TemplateMC", "TemplateMC" if ctx.quick else "TemplateMC_deep", timeout=2400)
    for bug in ("skipclose", "rescan"):
        if not ctx.model("TemplateMC", "TemplateMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)
    tr = pure.judge(ctx, "TemplateTrace", cs, record(exe), None,
                    lambda c, t, at: f"template {c[0]!r:.100} with {c[1]!r:.100}: {t['out']['k']} {bytes(t['out']['v'])!r:.100}")
    ctx.sample(tr[len(tr) // 2])
    ctx.notes["templates"] = len(cs)
    return ctx.finish()
