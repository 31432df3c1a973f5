"""S02: the static server finds the right file and type."""
from .. import core, static


def run(ctx):
    exe = core.build("pagedrv", ["pagedrv.cpp"], link=["-ldl"])
    ctx.model("StaticMC", "StaticMC" if ctx.quick else "StaticMC_deep", timeout=2400)
    for bug in ("empty", "backslash", "last"):
        if not ctx.model("StaticMC", "StaticMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    trees = [static.SMALL] + [static.rtree(ctx.rng) for _ in range(ctx.n(40, 400))]
    w = static.World(trees)
    try:
        ps = static.exhaustive(ctx.n(6, 8))
        cases = [(0, b"", ps[i:i + 25]) for i in range(0, len(ps), 25)]
        for i in range(1, len(trees)):
            tail = ctx.rng.choice([b"", b"", b"/"])
            for _ in range(ctx.n(3, 6)):
                cases.append((i, tail, static.paths(ctx.rng, trees[i], ctx.n(25, 60))))
        static.judge(ctx, exe, w, cases)
    finally:
        w.close()
    return ctx.finish()
