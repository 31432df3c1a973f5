"""V02: statistics after every operation, snapshot loads included."""
from .. import core, vfs
from . import V01


def rnd(rng, i):
    s = vfs.Session()
    pool = [vfs.name(rng) for _ in range(4)] + [b"a", b"A"]
    saved = []
    for _ in range(rng.randrange(5, 30)):
        p, q = rng.choice(pool), rng.choice(pool)
        x = rng.random()
        if x < .35:
            s.write(p, vfs.content(rng))
        elif x < .5:
            s.remove(p)
        elif x < .75:
            s.move(p, q)
        elif x < .82:
            path = b"s%d%s" % (len(saved), rng.choice([b".tar", b".tgz", b".tar.gz"]))
            s.save(path)
            saved.append(path)
        elif x < .92 and saved:
            s.load(rng.choice(saved))
        elif x < .95:
            s.load(b"missing.tar")
        elif x < .97:
            s.fresh()
        s.list()
        s.stats()
    return s


def run(ctx):
    exe = core.build("vfsdrv", ["vfsdrv.cpp"])
    ctx.model("VFSModel")
    for c in ("replaced", "failedmove", "load"):
        r = ctx.model("VFSModel", "VFSModel_" + c, expect_ok=False)
        if not r.violation:
            raise core.CheckError("the accounting mistake " + c + " was not refuted")
    g, edges = V01.gen(ctx, "VFSGenSnap")
    sess = [V01.replay(ctx.rng, ops, i) for i, ops in enumerate(g)]
    sess += [rnd(ctx.rng, i) for i in range(ctx.n(300, 5000))]
    vfs.judge(ctx, exe, sess)
    ctx.notes.update(spec_edges_replayed=edges, sessions=len(sess))
    return ctx.finish()
