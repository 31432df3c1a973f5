"""V03: snapshots round-trip; V03 sessions are also the base of V04 and V05."""
from .. import core, vfs

EXTS = [b".tar", b".tar.gz", b".tgz", b".TAR", b".Tar.GZ", b".TGZ"]
BADEXT = [b".zip", b".txt", b"", b".gz", b".tar.", b".tar.bz2", b".tarx", b".taz", b".tgz.bak", b"tar", b".tar.xz", b".7z"]


def roundtrip(rng, i, seed=0, arch=False, big=False, bad=0.05, maxfiles=7):
    s = vfs.Session(seed)
    names, keep = [], []
    for _ in range(rng.randrange(0, maxfiles)):
        n = vfs.name(rng)
        names.append(n)
        s.clock(s.now + rng.choice([0, 1, 1000, 8 ** 9]) if s.now < 10 ** 9 else s.now)
        s.write(n, vfs.content(rng, big and rng.random() < .5))
    if rng.random() < bad:
        odd = rng.choice([b"", b"a\0b", b"\0"])     # cannot be stored: saving throws
        s.write(odd, b"content")
        s.save(b"odd" + rng.choice(EXTS))
        s.remove(odd)
    if rng.random() < .2 and names:
        q = vfs.name(rng)
        s.move(rng.choice(names), q)
        names.append(q)
    s.list()
    path = b"s%d" % i + rng.choice(EXTS)
    if rng.random() < .2:
        s.save(path)       # an older snapshot to overwrite
        s.write(b"later", b"added")
        names.append(b"later")
    s.save(path, arch=arch)
    if rng.random() < .5:
        s.fresh()
    else:
        s.fresh()
        for _ in range(rng.randrange(1, 4)):
            n = rng.choice(names) if names and rng.random() < .5 else vfs.name(rng)
            keep.append(n)
            s.clock(s.now + 5)
            s.write(n, vfs.content(rng))
    s.clock(s.now + 100)
    s.load(path)
    s.list()
    for n in dict.fromkeys(names + keep):
        s.read(n)
        s.info(n)
    s.stats()
    if rng.random() < .3:       # and once more through another snapshot
        p2 = b"t%d" % i + rng.choice(EXTS)
        s.save(p2, arch=arch)
        s.fresh()
        s.load(p2)
        s.list()
        for n in dict.fromkeys(names):
            s.read(n)
    return s


def badext(rng, i):
    s = vfs.Session()
    s.write(b"file", b"content")
    base = b"u%d" % i
    for e in rng.sample(BADEXT, 4):
        s.save(base + e)
        s.load(base + e)
    s.save(base + b".tar")
    s.fresh()
    s.load(base + b".tar")
    s.read(b"file")
    s.list()
    return s


def run(ctx):
    exe = core.build("vfsdrv", ["vfsdrv.cpp"])
    ctx.model("VFSModel")
    rng = ctx.rng
    sess = [roundtrip(rng, i) for i in range(ctx.n(260, 4000))]
    sess += [roundtrip(rng, i, big=True, maxfiles=3) for i in range(ctx.n(50, 600))]
    sess += [badext(rng, i) for i in range(ctx.n(20, 100))]
    # every size around the block and chunk boundaries, in every format, alone and followed by another file
    k = 0
    for size in [0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 5120, 130047, 130048, 130560, 131072, 131073]:
        for ext in EXTS[:3]:
            for body in (b"x", None):
                s = vfs.Session()
                data = body * size if body else rng.randbytes(size)
                s.write(b"only", data)
                s.save(b"z%d" % k + ext)
                s.write(b"second", b"more")
                s.save(b"y%d" % k + ext)
                s.fresh()
                s.load(b"z%d" % k + ext)
                s.list()
                s.read(b"only")
                s.fresh()
                s.load(b"y%d" % k + ext)
                s.read(b"only")
                s.read(b"second")
                s.list()
                sess.append(s)
                k += 1
    # name lengths around the field sizes
    for n in list(range(95, 106)) + [154, 155, 156, 255, 256, 257, 511, 512, 513, 1000, 1024]:
        s = vfs.Session()
        a, b = b"n" * n, b"d/" * (n // 2) + b"f"
        s.write(a, b"first")
        s.write(b, b"second")
        s.write(b"third", b"3")
        p = b"n%d" % n + EXTS[n % 3]
        s.save(p)
        s.fresh()
        s.load(p)
        s.list()
        s.read(a)
        s.read(b)
        s.read(b"third")
        sess.append(s)
    traces = vfs.judge(ctx, exe, sess, "snapshot")
    ctx.notes.update(sessions=len(sess), events=sum(len(t) for t in traces))
    return ctx.finish()
