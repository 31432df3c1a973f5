"""V04: what is saved is a well-formed archive (spec Tar); archives made elsewhere load."""
import io
import subprocess
import tarfile
import os
import shutil

from .. import core, vfs
from . import V03


def names_for(rng, n):
    out = []
    for _ in range(n):
        x = vfs.name(rng)
        if b"\0" in x or not x or x.endswith(b"/"):
            x = b"plain%d" % rng.randrange(99)
        out.append(x)
    return out


def foreign(rng, i):
    """an archive assembled here, in the varieties other tools write"""
    files = [(n, vfs.content(rng), rng.choice([0, 1, 1234567890, 2 ** 31 - 1, 8 ** 7])) for n in names_for(rng, rng.randrange(0, 6))]
    if files and rng.random() < .2:       # the same name again: the later one counts
        files.append((files[0][0], b"newer", 5))
    return files, vfs.archive(rng, files)


def by_tarfile(rng, i):
    files = []
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w", format=tarfile.USTAR_FORMAT) as t:
        for n in names_for(rng, rng.randrange(1, 6)):
            try:
                nm = n.decode("latin-1")
                ti = tarfile.TarInfo(nm)
                ti.size = len(c := vfs.content(rng))
                ti.mtime = rng.randrange(2 ** 31 - 1)
                t.addfile(ti, io.BytesIO(c))
            except ValueError:      # ustar cannot hold this name
                continue
            files.append((n, c, 0))
    return files, b.getvalue()


def by_tar(rng, i):
    """the system's tar program"""
    d = core.scratch("tar-")
    try:
        files = []
        for k in range(rng.randrange(1, 6)):
            p = rng.choice(["f%d", "sub/f%d", "deep/er/" + "q" * 60 + "/f%d", "L" * 120 + "/" + "m" * 60 + "%d"]) % k
            fp = os.path.join(d, "src", p)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, "wb") as f:
                f.write(vfs.content(rng))
            os.utime(fp, (1, rng.randrange(2 ** 31 - 1)))
            files.append(p)
        out = os.path.join(d, "o.tar")
        subprocess.run(["tar", "--format=ustar", "-cf", out, "-C", os.path.join(d, "src")] + files, check=True, capture_output=True)
        return [(f.encode(), b"", 0) for f in files], core.read(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    exe = core.build("vfsdrv", ["vfsdrv.cpp"])
    ctx.model("VFSModel")
    rng = ctx.rng
    sess = [V03.roundtrip(rng, i, arch=True, bad=0) for i in range(ctx.n(200, 3000))]
    for i in range(ctx.n(240, 3000)):
        files, tar = rng.choice([foreign, foreign, foreign, by_tarfile, by_tar])(rng, i)
        s = vfs.Session()
        if rng.random() < .3:
            s.write(rng.choice(files)[0] if files else b"q", b"already here")
            s.write(b"other", b"stays")
        zipped = rng.random() < .5
        path = b"f%d" % i + (rng.choice([b".tgz", b".tar.gz", b".TGZ"]) if zipped else rng.choice([b".tar", b".TAR"]))
        s.loadarch(path, vfs.gz(rng, tar) if zipped else tar, tar)
        s.list()
        for n, _, _ in files:
            s.read(n)
            s.info(n)
        s.stats()
        sess.append(s)
    traces = vfs.judge(ctx, exe, sess, "archive")
    ctx.notes.update(sessions=len(sess), archives_parsed_by_spec=sum(1 for t in traces for e in t if "arch" in e))
    return ctx.finish()
