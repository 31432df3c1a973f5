"""S01: the static server never leaves its root and never fails."""
from .. import core, static


def run(ctx):
    exe = core.build("pagedrv", ["pagedrv.cpp"], link=["-ldl"])
    ctx.model("StaticMC", "StaticMC" if ctx.quick else "StaticMC_deep", timeout=2400)
    for bug in ("empty", "backslash", "last"):
        if not ctx.model("StaticMC", "StaticMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    trees = [static.SMALL] + [static.rtree(ctx.rng) for _ in range(ctx.n(25, 200))]
    w = static.World(trees)
    try:
        ps = static.exhaustive(ctx.n(6, 8))
        cases = [(0, b"", ps[i:i + 25]) for i in range(0, len(ps), 25)]
        # everything of two dots, slashes and a name that lies next to the root
        import itertools
        bits = [b"..", b".", b"/", b"\\", b"secret.txt", b"a"]
        ps = [b"/" + b"".join(x) for k in range(2, ctx.n(5, 7)) for x in itertools.product(bits, repeat=k)]
        cases += [(0, b"", ps[i:i + 25]) for i in range(0, len(ps), 25)]
        for i in range(1, len(trees)):
            for _ in range(ctx.n(4, 12)):
                cases.append((i, ctx.rng.choice([b"", b"/"]), static.wild(ctx.rng, trees[i], ctx.n(40, 80), w.outside(i)) + static.paths(ctx.rng, trees[i], 10)))
        static.judge(ctx, exe, w, cases)
    finally:
        w.close()
    return ctx.finish()
