"""V05: perturbed schedules, damaged archives and failing files."""
import os

from .. import core, vfs
from . import V03


def damaged(rng, i):
    """one good archive, damaged in one way; the filesystem must survive the failed load"""
    files = [(b"f%d%s" % (k, b"n" * rng.choice([0, 0, 120])), vfs.content(rng), 1000 + k) for k in range(rng.randrange(1, 5))]
    tar = vfs.archive(rng, files, dirs=False)
    zipped = rng.random() < .5
    how = rng.choice(["cut", "cut", "cutblock", "sum", "magic", "empty", "flip", "zcut", "zflip", "garbage"])
    bad, plain = False, tar
    if how == "cut":
        plain = tar[:rng.randrange(0, len(tar))]
    elif how == "cutblock":
        plain = tar[:512 * rng.randrange(0, len(tar) // 512)]
    elif how == "empty":
        plain = b""
    elif how in ("sum", "magic", "flip"):
        heads = [k for k in range(0, len(tar), 512) if tar[k + 257:k + 263] == b"ustar\0" and tar[k + 148:k + 154].isdigit()]
        k = rng.choice(heads)
        b = bytearray(tar)
        off = {"sum": 148 + rng.randrange(6), "magic": 257 + rng.randrange(5), "flip": rng.choice([0, 1, 50, 101, 125, 130, 140, 156, 200, 300, 346, 511])}[how]
        if how == "sum":
            b[k + off] = 48 + (b[k + off] - 48 + rng.randrange(1, 8)) % 8
        else:
            b[k + off] ^= 1 << rng.randrange(7)
        if how == "flip" and off == 0 and b[k] == 0:
            b[k] = 255
        plain = bytes(b)
    elif how == "garbage":
        plain = b"\x01" + rng.randbytes(rng.choice([10, 511, 512, 2000]))
    data = plain
    if zipped:
        data = vfs.gz(rng, plain)
        if how in ("zcut", "zflip"):
            if how == "zcut":
                data = data[:rng.randrange(0, len(data))]
            else:
                b = bytearray(data)
                k = rng.choice([rng.randrange(10, len(b)), len(b) - rng.randrange(1, 9)])
                b[k] ^= 1 << rng.randrange(8)
                data = bytes(b)
    if zipped:
        un = vfs.gunzip(data)
        bad = un is None
        if not bad:
            plain = un
    return files, data, plain, bad, zipped


def damage_session(rng, i, seed=0):
    s = vfs.Session(seed)
    s.write(b"before", b"kept")
    files, data, plain, bad, zipped = damaged(rng, i)
    s.loadarch(b"d%d" % i + (b".tgz" if zipped else b".tar"), data, plain, bad)
    return s, [b"before"] + [f[0] for f in files]


def finish_damage(s, names, failed):
    if failed:
        s.after(names + [n.lower() for n in names])
    s.write(b"afterwards", b"usable")
    s.read(b"before")
    s.read(b"afterwards")
    s.list()
    s.stats()


def expect_failure(plain, bad):
    """a prediction only used to shape the session; the spec decides"""
    return bad


def run(ctx):
    exe = core.build("vfsdrv", ["vfsdrv.cpp"])
    rng = ctx.rng
    for m in ("save", "load"):
        ctx.model("SnapshotQueue", f"SnapshotQueue_{m}", workers=1)
        r = ctx.model("SnapshotQueue", f"SnapshotQueue_{m}_noclose", workers=1, expect_ok=False)
        if not r.violation:
            raise core.CheckError("a worker that does not close its queue was not refuted")
    # 1. schedules
    sess = [V03.roundtrip(rng, i, seed=rng.randrange(1, 1 << 60), maxfiles=9) for i in range(ctx.n(240, 4000))]
    # 2. places that cannot be written or read
    for i in range(ctx.n(40, 300)):
        s = vfs.Session(rng.randrange(1, 1 << 60) if i % 2 else 0)
        ext = rng.choice([b".tar", b".tgz", b".tar.gz"])
        s.links = [(b"full" + ext, "/dev/full")]
        s.dirs = [b"dir" + ext]
        for k in range(rng.randrange(0, 6)):
            s.write(b"f%d" % k, vfs.content(rng, big=rng.random() < .3))
        s.save(b"nowhere/x" + ext, writable=False)
        s.save(b"full" + ext, writable=False)
        s.save(b"dir" + ext, writable=False)
        s.load(b"missing" + ext)
        s.load(b"dir" + ext)
        s.load(b"nowhere/x" + ext)
        s.list()
        s.save(b"good" + ext)
        s.fresh()
        s.load(b"good" + ext)
        s.list()
        s.stats()
        sess.append(s)
    vfs.judge(ctx, exe, sess, "schedule", repeat=3)
    # 3. damaged archives: first run tells which loads threw, so that the rest of the session fits
    dam = [damage_session(rng, i, rng.randrange(1, 1 << 60) if i % 3 == 0 else 0) for i in range(ctx.n(400, 6000))]
    asan = core.build("vfsdrv", ["vfsdrv.cpp"], "asan")
    first = vfs.run_sessions(asan, [s for s, _ in dam])
    for (s, names), t in zip(dam, first):
        failed = t[-1].get("e") == "loadarch" and not t[-1]["ok"]
        finish_damage(s, names, failed)
    vfs.judge(ctx, asan, [s for s, _ in dam], "damaged archive", repeat=3)
    ctx.notes.update(perturbed=len(sess), damaged=len(dam))
    return ctx.finish()
