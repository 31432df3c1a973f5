from .. import core, kv


def run(ctx):
    exe = core.build("kvdrv", ["kvdrv.cpp"])
    ctx.model("KVStore", "KVStore")
    bad = ctx.model("KVStore", "KVStore_inplace", expect_ok=False)
    ctx.notes["spec_mutation_detected"] = bad.violation
    gen, edges = kv.gen_sessions(ctx)
    sess = []
    for i, ops in enumerate(gen):
        s = kv.Session(b"g%d.db" % i)
        for op, k, v in ops:
            s.op(op, k, v)
        s.contents()
        s.reopen()
        s.contents()
        s.end()
        sess.append(s)
    for i in range(ctx.n(600, 12000)):
        path = None
        if i % 7 == 0:
            path = f"sub{i}/deep/x.ldb"
        elif i % 11 == 0:
            path = f"./dot{i}.db"
        sess.append(kv.rnd_session(ctx.rng, i, path))
    traces = kv.judge(ctx, exe, sess)
    # the default-constructed storage uses a fixed file in the working directory: one per process
    for i in range(ctx.n(3, 12)):
        kv.judge(ctx, exe, [kv.rnd_session(ctx.rng, 0, default=True)], label="default storage")
    ctx.notes.update(spec_edges_replayed=edges, sessions=len(sess), events=sum(len(t) for t in traces))
    return ctx.finish()
