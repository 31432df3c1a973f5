"""V01: filesystem sessions without snapshots against VFSOps."""
import shutil

from .. import core, tlaval, vfs


def gen(ctx, cfg="VFSGen", maxlen=40):
    import os
    d = core.scratch("gen-")
    dot = os.path.join(d, "g.dot")
    ctx.model("VFSModel", cfg, workers=1, extra=("-dump", "dot,actionlabels", dot))
    st, ed, init = tlaval.graph(dot)
    shutil.rmtree(d, ignore_errors=True)
    memo, out = {}, []
    for w in tlaval.walks(st, ed, init, ctx.rng, maxlen):
        ops = []
        for _, sid in w:
            if sid not in memo:
                memo[sid] = tlaval.parse(st[sid]["last"])
            ops.append(memo[sid])
        out.append(ops)
    return out, sum(len(e) for e in ed.values())


def observe(s, names, rng=None):
    for n in names:
        s.read(n)
        s.info(n)
    s.list()
    s.stats()


def replay(rng, ops, i, stats=True):
    s = vfs.Session()
    names = [b"A", b"a", b"ab"]
    for o in ops:
        if rng.random() < .3:
            s.clock(s.now + 1)
        p, q, c = bytes(o["p"]), bytes(o["q"]), o["c"].encode()
        if o["op"] == "write":
            s.write(p, c)
        elif o["op"] == "remove":
            s.remove(p)
        elif o["op"] == "move":
            s.move(p, q)
        elif o["op"] == "tick":
            s.clock(s.now + 1)
        elif o["op"] == "save":
            s.nsave += 1
            s.save(b"g%d.tar" % s.nsave)
        elif o["op"] == "load":
            s.load(b"g%d.tar" % s.nsave)
        for n in names[1:]:
            s.info(n)
        s.list()
        if stats:
            s.stats()
    for n in names:
        s.read(n)
    return s


def rnd(rng, i, stats=False):
    s = vfs.Session()
    pool = [vfs.name(rng) for _ in range(rng.randrange(2, 6))] + rng.choice([[b"a", b"A", b"b"], [b"", b"z\0y", b"Z\0Y"], []])
    for _ in range(rng.randrange(5, 40)):
        p, q = rng.choice(pool), rng.choice(pool)
        if rng.random() < .2:
            p = p.swapcase()
        x = rng.random()
        if x < .35:
            s.write(p, vfs.content(rng), rng.random() < .5)
        elif x < .45:
            s.remove(p)
        elif x < .62:
            s.move(p, q)
        elif x < .74:
            s.read(p)
        elif x < .84:
            s.info(p)
        elif x < .9:
            s.list()
        elif x < .94 and stats:
            s.stats()
        else:
            s.clock(s.now + rng.choice([1, 1, 60, 100000]))
    for p in dict.fromkeys(pool):
        s.read(p)
        s.info(p)
    s.list()
    if stats:
        s.stats()
    return s


def run(ctx):
    exe = core.build("vfsdrv", ["vfsdrv.cpp"])
    ctx.model("VFSModel")
    g, edges = gen(ctx)
    sess = [replay(ctx.rng, ops, i, stats=False) for i, ops in enumerate(g)]
    sess += [rnd(ctx.rng, i) for i in range(ctx.n(400, 6000))]
    traces = vfs.judge(ctx, exe, sess)
    ctx.notes.update(spec_edges_replayed=edges, sessions=len(sess), events=sum(len(t) for t in traces))
    return ctx.finish()
