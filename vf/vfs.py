"""Virtual filesystem sessions: commands, archives, traces."""
import concurrent.futures as cf
import gzip
import hashlib
import io
import os
import shutil
import tarfile
import zlib

from . import core, drive

BS = 512


def ints(b):
    return list(b)


def toks(b):
    """content token: one per zero-padded 512-byte block"""
    out = []
    for i in range(0, len(b), BS):
        blk = b[i:i + BS].ljust(BS, b"\0")
        out.append(hashlib.sha1(blk).hexdigest()[:10])
    return out


def blocks(data):
    """an archive as the specification takes it; bytes are given for every block that may be read as
    a header or a long name"""
    out, prevlong = [], 0
    for i in range(0, len(data), BS):
        blk = data[i:i + BS]
        part = len(blk) < BS
        z = not part and blk == bytes(BS)
        full = part or blk[257:262] == b"ustar" or prevlong > 0 or z
        out.append(dict(i=list(blk) if full and (not z or prevlong > 0) else [], t=toks(blk)[0], z=z, part=part))
        if prevlong > 0:
            prevlong -= 1
        elif not part and blk[257:262] == b"ustar" and blk[156:157] == b"L":
            try:
                prevlong = (int(blk[124:136].rstrip(b"\0 ") or b"0", 8) + BS - 1) // BS
            except ValueError:
                pass
    return out


def gunzip(data):
    """strict: one complete gzip stream; None when damaged"""
    d = zlib.decompressobj(31)
    try:
        out = d.decompress(data)
        out += d.flush()
        if not d.eof or d.unused_data:
            return None
        return out
    except zlib.error:
        return None


class Session:
    def __init__(self, seed=0):
        self.cmds, self.mk, self.files = [], [], {}
        self.now = 1000000
        self.nsave = 0
        self.cmds.append(f"clock {self.now}")
        self.mk.append(("skip",))
        if seed:
            self.cmds.append(f"perturb {seed}")
            self.mk.append(("skip",))
        self.dirs, self.links = [], []
        self.fresh()

    def add(self, cmd, mk):
        self.cmds.append(cmd)
        self.mk.append(mk)

    def fresh(self):
        self.add("fresh", ("fresh",))

    def clock(self, n):
        self.now = n
        self.add(f"clock {n}", ("skip",))

    def write(self, p, c, vec=False):
        self.add(f"write{'v' if vec else ''} {drive.hx(p)} {drive.hx(c)}", ("write", p, c, self.now))

    def remove(self, p):
        self.add(f"remove {drive.hx(p)}", ("remove", p))

    def move(self, p, q):
        self.add(f"move {drive.hx(p)} {drive.hx(q)}", ("move", p, q))

    def read(self, p):
        self.add(f"read {drive.hx(p)}", ("read", p))

    def info(self, p):
        self.add(f"info {drive.hx(p)}", ("info", p))

    def list(self, kind="list"):
        self.add("list", (kind,))

    def stats(self):
        self.add("stats", ("stats",))

    def save(self, path, writable=True, arch=False):
        self.add(f"save {drive.hx(path)}", ("save", path, writable, arch))

    def load(self, path):
        self.add(f"load {drive.hx(path)}", ("load", path))

    def loadarch(self, path, data, plain, damaged=False):
        """data: file bytes; plain: the tar bytes inside; damaged: the compressed stream is broken"""
        self.files[path] = data
        self.add(f"load {drive.hx(path)}", ("loadarch", path, plain, damaged))

    def after(self, names):
        """contents after a failed load: list, then each file read"""
        self.add("list", ("after0",))
        for n in names:
            self.add(f"read {drive.hx(n)}", ("after1",))
        self.mk.append(("after2",))

    def prepare(self, d):
        for p, b in self.files.items():
            with open(os.path.join(d, os.fsdecode(p)), "wb") as f:
                f.write(b)
        for p in self.dirs:
            os.makedirs(os.path.join(d, os.fsdecode(p)), exist_ok=True)
        for p, to in self.links:
            os.symlink(to, os.path.join(d, os.fsdecode(p)))

    def trace(self, outs, d):
        ev, i = [], 0
        pend = None
        cap = lambda s: int(s) if int(s) < 2 ** 31 else -2
        for m in self.mk:
            k = m[0]
            if k == "after2":
                ev.append(pend)
                continue
            if i >= len(outs):
                ev.append(dict(e="died"))
                return ev
            o = outs[i]
            i += 1
            if k == "skip":
                continue
            if k == "fresh":
                ev.append(dict(e="fresh"))
            elif k == "write":
                ev.append(dict(e="write", p=ints(m[1]), c=toks(m[2]), n=len(m[2]), now=m[3]))
            elif k == "remove":
                ev.append(dict(e="remove", p=ints(m[1])))
            elif k == "move":
                ev.append(dict(e="move", p=ints(m[1]), q=ints(m[2]), ok=o == "ok"))
            elif k in ("read", "info"):
                r = []
                if o != "none":
                    w = o.split(" ")
                    if w[0] == "file":
                        b = drive.unhx(w[4])
                        r = [dict(name=ints(drive.unhx(w[1])), cr=cap(w[2]), mo=cap(w[3]), n=len(b), c=toks(b))]
                    elif w[0] == "info":
                        r = [dict(name=ints(drive.unhx(w[1])), cr=cap(w[2]), mo=cap(w[3]), n=cap(w[4]))]
                    else:
                        r = [1, 2]
                ev.append(dict(e=k, p=ints(m[1]), r=r))
            elif k in ("list", "after0"):
                r = []
                for x in o.split(" ")[1:]:
                    w = x.split(",")
                    r.append(dict(name=ints(drive.unhx(w[0])), cr=cap(w[1]), mo=cap(w[2]), n=cap(w[3])))
                if k == "list":
                    ev.append(dict(e="list", r=r))
                else:
                    pend = dict(e="after", r=r)
            elif k == "after1":
                if o != "none":
                    w = o.split(" ")
                    b = drive.unhx(w[4])
                    for x in pend["r"]:
                        if x["name"] == ints(drive.unhx(w[1])) and x["n"] == len(b):
                            x["c"] = toks(b)
            elif k == "stats":
                w = o.split(" ")
                ev.append(dict(e="stats", files=cap(w[0]), size=cap(w[1])))
            elif k == "save":
                w = o.split(" ")
                e = dict(e="save", path=ints(m[1]), ok=w[0] == "ok", writable=m[2], created=w[1] == "created")
                if w[0] not in ("ok", "threw"):
                    e["e"] = "odd"
                if m[3] and e["ok"]:
                    try:
                        raw = core.read(os.path.join(d, os.fsdecode(m[1])))
                        if m[1].lower().endswith(b"gz"):
                            raw = gunzip(raw)
                        e["arch"] = blocks(raw) if raw is not None else [dict(i=[1], t="", z=False, part=True)]
                    except OSError:
                        e["arch"] = []
                ev.append(e)
            elif k == "load":
                ev.append(dict(e="load" if o in ("ok", "threw") else "odd", path=ints(m[1]), ok=o == "ok"))
            elif k == "loadarch":
                ev.append(dict(e="loadarch" if o in ("ok", "threw") else "odd", path=ints(m[1]), ok=o == "ok",
                               arch=blocks(m[2]), damaged=m[3]))
        for e in ev:
            if e and e["e"] == "after":
                for x in e["r"]:
                    x.setdefault("c", ["?"])
        return ev


def run_sessions(exe, sessions, env=None):
    d = core.scratch("vfs-")
    try:
        def one(j):
            wd = os.path.join(d, str(j))
            os.makedirs(wd)
            s = sessions[j]
            s.prepare(wd)
            outs, rc, err = drive.batch(exe, s.cmds, timeout=240, cwd=wd, env=env)
            t = s.trace(outs, wd)
            if t and t[-1].get("e") == "died":
                t[-1].update(rc=rc, err=err[-400:])
            shutil.rmtree(wd, ignore_errors=True)
            return t
        with cf.ThreadPoolExecutor(core.CPUS) as ex:
            return list(ex.map(one, range(len(sessions))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, exe, sessions, label="session", env=None, repeat=1):
    traces = run_sessions(exe, sessions, env)
    bad = ctx.validate("VFSTrace", [dict(ev=t) for t in traces], mem="3g")
    ctx.sample([{k: v for k, v in e.items() if k != "arch"} for e in traces[0][:10]])
    for i in bad[:4]:
        rej = None
        for _ in range(repeat):
            t2 = run_sessions(exe, [sessions[i]], env)[0]
            if ctx.validate("VFSTrace", [dict(ev=t2)]):
                rej = t2
                break
        if rej is None:
            ctx.log("not reproduced:", label, i)
            ctx.notes["not_reproduced"] = ctx.notes.get("not_reproduced", 0) + 1
            if repeat > 1:     # schedule dependent: the recorded run is the evidence
                rej = traces[i]
            else:
                continue
        at, exp = ctx.explain("VFSTrace", dict(ev=rej))
        e = rej[at - 1] if at and at <= len(rej) else rej[0]
        ctx.violation(f"{label}: event {at} is not allowed: {str({k: v for k, v in e.items() if k != 'arch'})[:400]} {str(exp)[:300]}",
                      dict(commands=[c[:300] for c in sessions[i].cmds], at=at, event=str(e)[:3000]))
    return traces


# ------------------------------------------------------------ generators

def content(rng, big=False):
    n = rng.choice([0, 0, 1, 5, 100, 511, 512, 513, 1000, 1023, 1024, 1025, 1536, 2048, 4096])
    if big:
        n = rng.choice([0, 512, 1024, 65535, 65536, 130048, 131071, 131072, 131073, 131072 - 512, 131072 - 1024, 262144, 300001])
    k = rng.randrange(5)
    if k == 0:
        return bytes(n)
    if k == 1:
        return rng.randbytes(n)
    if k == 2:
        return (b"ustar\0 00 text \r\n" * (n // 16 + 1))[:n]
    if k == 3:
        return bytes([rng.choice([255, 26, 65])]) * n
    return (rng.randbytes(n // 2) + b"x" * n)[:n]


NAMES = [b"a", b"A", b"b.txt", b"B.TXT", b"dir/c", b"Dir/C", b"index.html", b"x" * 99, b"x" * 100, b"x" * 101,
         b"y/" * 60 + b"long", b"caf\xc3\xa9.txt", b"\xff\xfe\x80", b" sp ace ", b"new\nline", b"../up", b"/abs", b"./dot",
         b"p" * 155 + b"/" + b"n" * 99, b"w" * 511, b"w" * 512, b"w" * 513, b"x" * 98 + b"/"]


def name(rng):
    if rng.random() < .75:
        return rng.choice(NAMES)
    if rng.random() < .5:
        n = rng.choice([1, 2, 20, 98, 99, 100, 101, 150, 255, 256, 511, 512, 600])
        return bytes(rng.choice(b"abcXYZ09-_./ \xe9\x01") for _ in range(n))
    return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 30)))


def octal(n, w, style=0):
    if style == 0:
        return b"%0*o\0" % (w - 1, n)
    if style == 1:
        return b"%0*o " % (w - 1, n)
    if style == 2:
        return b"%*o\0" % (w - 1, n)       # space padded
    r = b"%0*o \0" % (w - 2, n)
    return r if len(r) == w else octal(n, w)


def header(nm, size, mtime, typ=b"0", style=0, prefix=b"", mode=0o644):
    h = bytearray(BS)
    h[0:len(nm)] = nm
    h[100:108] = octal(mode, 8, style)
    h[108:116] = octal(1000, 8, style)
    h[116:124] = octal(1000, 8, style)
    h[124:136] = octal(size, 12, style)
    h[136:148] = octal(mtime, 12, style)
    h[156:157] = typ
    h[257:263] = b"ustar\0"
    h[263:265] = b"00"
    h[265:269] = b"user"
    h[297:302] = b"group"
    h[329:337] = octal(0, 8)
    h[337:345] = octal(0, 8)
    h[345:345 + len(prefix)] = prefix
    h[148:156] = b" " * 8
    h[148:156] = (b"%06o\0 " if style != 1 else b"%07o\0") % sum(h)
    return bytes(h)


def pad(b):
    return b + bytes(-len(b) % BS)


def entry(rng, nm, data, mtime):
    """one regular file the way some tool writes it"""
    st = rng.randrange(4)
    out = b""
    if len(nm) > 100 or (len(nm) == 100 and rng.random() < .5):
        cut = nm.rfind(b"/", max(0, len(nm) - 101), 156)
        if cut > 0 and cut <= 155 and len(nm) - cut - 1 <= 100 and rng.random() < .6 and nm[cut + 1:]:
            return header(nm[cut + 1:], len(data), mtime, style=st, prefix=nm[:cut]) + pad(data)
        ln = nm + b"\0"
        out = header(b"././@LongLink", len(ln), 0, b"L", st) + pad(ln)
        return out + header(nm[:rng.choice([99, 100])], len(data), mtime, style=st) + pad(data)
    return header(nm, len(data), mtime, style=st) + pad(data)


def directory(rng, nm):
    return header(nm[:90] + b"/", 0, 1234567, b"5", mode=0o755)


def archive(rng, files, dirs=True):
    out = b""
    for nm, data, mt in files:
        if dirs and rng.random() < .2:
            out += directory(rng, b"some/dir%d" % rng.randrange(9))
        out += entry(rng, nm, data, mt)
    out += bytes(2 * BS)
    if rng.random() < .3:      # tools pad to a record of 20 blocks
        out += bytes(-len(out) % (20 * BS))
    return out


def gz(rng, data):
    k = rng.randrange(4)
    if k == 0:
        return gzip.compress(data, rng.choice([1, 6, 9]))
    if k == 1:
        c = zlib.compressobj(0, zlib.DEFLATED, 31)
        return c.compress(data) + c.flush()
    if k == 2:   # many flush points
        c = zlib.compressobj(6, zlib.DEFLATED, 31)
        out, i = b"", 0
        while i < len(data):
            n = rng.choice([100, 512, 5000])
            out += c.compress(data[i:i + n]) + c.flush(zlib.Z_SYNC_FLUSH)
            i += n
        return out + c.flush()
    b = io.BytesIO()
    with gzip.GzipFile(filename="snapshot.tar", mode="wb", fileobj=b, mtime=1) as f:
        f.write(data)
    return b.getvalue()
