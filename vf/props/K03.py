"""Database files: every truncation and many corruptions of small databases, foreign files, and records
concatenated by the format's rules; the verdict is KVFormat.tla's Decode."""
import os
import shutil
import struct

from .. import core, drive

HDR = b"mlkvdb\x03\x00"


def rec(t, k=b"", v=b"", ks=None, vs=None):
    return struct.pack("<HHI", t, len(k) if ks is None else ks, len(v) if vs is None else vs) + k + v


def cases(rng, n, deep):
    strs = [b"", b"a", b"A", b"ab", b"\0", b"\x02\0", b"mlkvdb", b"\xff\xfe", b"key", b"value\n"]
    out = [b"", b"m", b"mlkvdb", HDR[:7], HDR, HDR + b"\0", b"SQLite format 3\0", b"mlkvdc\x03\0", b"Mlkvdb\x03\0",
           b"mlkvdb\x02\0", b"mlkvdb\x04\0", b"mlkvdb\0\x03", b"mlkvdb\x03\x01", b"mlkvdb\0\0", HDR[:6] + b"\xff\xff",
           HDR + rec(2, b"k"), HDR + rec(2, b"", b"v"), HDR + rec(2, b"k", b"v"), HDR + rec(1, b"k", b"v"),
           HDR + rec(1, b"", b""), HDR + rec(1, b"zz"), HDR + rec(3), HDR + rec(256), HDR + rec(0xffff, b"k", b"v"),
           HDR + rec(0, b"k", b"v") + b"\0" * 7, HDR + rec(0, b"k", b"v") + HDR, HDR + HDR, b"\0" * 64, b"\0" * 8,
           HDR + rec(0, b"k", b"v", vs=70000), HDR + rec(0, b"k", b"v", ks=9), HDR + rec(1, b"k", ks=3), HDR + rec(2, ks=1), HDR + rec(2, vs=1),
           HDR + rec(0, b"k" * 300, b"v" * 700), HDR + rec(0, b"k", b"v" * 3000) + rec(1, b"k")]
    for _ in range(n):
        f = HDR
        for _ in range(rng.randrange(0, 6)):
            t = rng.choice([0, 0, 0, 1, 2])
            k, v = rng.choice(strs), rng.choice(strs)
            f += rec(0, k, v) if t == 0 else rec(1, k) if t == 1 else rec(2)
        out.append(f)
        cuts = range(len(f)) if deep else rng.sample(range(len(f)), min(len(f), 12))
        for c in cuts:
            out.append(f[:c])
        for _ in range(40 if deep else 14):
            i = rng.randrange(len(f))
            x = rng.choice([0, 1, 2, 3, 4, f[i] ^ 1, f[i] ^ 0x20, 255, f[i] ^ 0x80, rng.randrange(256)])
            g = f[:i] + bytes([x & 255]) + f[i + 1:]
            out.append(g)
        out.append(f + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 12))))
        if len(f) > 10:
            i = rng.randrange(8, len(f))
            out.append(f[:i] + bytes([rng.choice([0, 1, 65])]) + f[i:])
            out.append(f[:i] + f[i + 1:])
    # sizes in records must stay small enough to allocate
    ok, seen = [], set()
    for f in out:
        if f not in seen and sane(f):
            seen.add(f)
            ok.append(f)
    return ok


def sane(f):
    i = 8
    while i + 8 <= len(f):
        t, ks, vs = struct.unpack("<HHI", f[i:i + 8])
        if vs >= 1 << 22:
            return False
        if t > 2:
            return True
        i += 8 + ks + (vs if t == 0 else 0)
    return True


def keys_in(f):
    """candidate keys to ask for (a superset; the spec decides)"""
    ks, i = {b"", b"a", b"k"}, 8
    while i + 8 <= len(f) and len(ks) < 12:
        t, kl, vl = struct.unpack("<HHI", f[i:i + 8])
        ks.add(f[i + 8:i + 8 + kl])
        i += 8 + kl + vl
    return sorted(ks)


def execute(exe, files):
    wd = core.scratch("fm-")
    try:
        lines, plan = [], []
        for i, f in enumerate(files):
            with open(os.path.join(wd, f"f{i}.db"), "wb") as h:
                h.write(f)
            ks = keys_in(f)
            lines.append("open " + drive.hx(b"f%d.db" % i))
            for k in ks:
                lines += ["has " + drive.hx(k), "get " + drive.hx(k)]
            lines += ["size", "close"]
            plan.append(ks)
        outs, rc, err = drive.batch(exe, lines, cwd=wd, timeout=300)
        pos, res = 0, []
        for i, (f, ks) in enumerate(zip(files, plan)):
            part = outs[pos:pos + 3 + 2 * len(ks)]
            pos += 3 + 2 * len(ks)
            after = open(os.path.join(wd, f"f{i}.db"), "rb").read()
            if len(part) < 3 + 2 * len(ks):
                res.append(dict(before=list(f), after=list(after), outcome="died", m=[], size=-1))
                rest = execute(exe, files[i + 1:]) if i + 1 < len(files) else []
                return res + rest
            c = dict(before=list(f), after=list(after))
            if part[0] == "opened":
                m = [dict(k=list(k), v=list(drive.unhx(part[2 + 2 * j][2:]))) for j, k in enumerate(ks) if part[1 + 2 * j] == "true"]
                c.update(outcome="opened", m=m, size=int(part[-2]) if part[-2].isdigit() else -1)
            else:
                c.update(outcome="refused", m=[], size=-1)
            res.append(c)
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(ctx):
    exe = core.build("kvdrv", ["kvdrv.cpp"])
    ctx.model("KVFormatMC")
    files = cases(ctx.rng, ctx.n(60, 900), not ctx.quick)
    res = execute(exe, files)
    ctx.sample(dict(before=res[20]["before"], outcome=res[20]["outcome"]))
    rej = ctx.validate("KVFormatTrace", res)
    if rej:
        again = execute(exe, [files[i] for i in rej[:20]])
        for j in ctx.validate("KVFormatTrace", again)[:3]:
            c = again[j]
            ctx.violation(f"database file {bytes(c['before'])[:60]!r}: {c['outcome']}, contents {c['m'][:4]}, "
                          f"file {'unchanged' if c['after'] == c['before'] else 'changed'}", c)
    ctx.notes.update(files=len(files), refused=sum(c["outcome"] == "refused" for c in res), accepted=sum(c["outcome"] == "opened" for c in res))
    return ctx.finish()
