"""The static file server: trees on disk, requests, traces."""
import hashlib
import itertools
import os
import shutil

from . import core, drive, pure

TYPES = dict(html="text/html", htm="text/html", txt="text/plain", json="application/json", css="text/css", js="application/javascript", png="image/png",
             svg="image/svg+xml", gz="application/gzip", pdf="application/pdf")


def tok(b):
    return hashlib.sha1(b).hexdigest()[:16]


def mtype(name):
    """expected type; '?' where the name leaves it open"""
    stem, dot, ext = name.rpartition(b".")
    if not dot:
        return "application/octet-stream"
    if not stem or not ext or b"." in (stem[:1], ) or stem.endswith(b"."):
        return "?"
    e = ext.decode("latin-1")
    if e in TYPES:
        return TYPES[e]
    return "application/octet-stream" if e.startswith("zq") else "?"


class Tree:
    """entries: {path bytes without leading slash: content | None (directory) | ("link", target)}"""

    def __init__(self, entries):
        self.e = dict(entries)

    def write(self, root):
        os.makedirs(root)
        for p, c in self.e.items():
            full = os.path.join(os.fsencode(root), p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if c is None:
                os.makedirs(full, exist_ok=True)
            elif isinstance(c, tuple):
                os.symlink(c[1], full)
            else:
                with open(full, "wb") as f:
                    f.write(c)

    def spec(self):
        out, dirs = [], set()
        for p, c in self.e.items():
            segs = p.split(b"/")
            for i in range(1, len(segs)):
                dirs.add(tuple(segs[:i]))
            if c is None:
                dirs.add(tuple(segs))
            else:
                f = not isinstance(c, tuple)
                out.append(dict(segs=[list(s) for s in segs], kind="file" if f else "other", body=tok(c) if f else "-",
                                type=list(mtype(segs[-1]).encode()), locked=b"locked" in p))
        return out + [dict(segs=[list(s) for s in d], kind="dir", body="-", type=[63], locked=False) for d in sorted(dirs)]


def uniq(tag, n=40):
    return (hashlib.sha1(tag).hexdigest().encode() * (n // 40 + 1))[:n]


SMALL = Tree({b"index.html": uniq(b"root"), b"a/index.htm": uniq(b"a/"), b"a/a": uniq(b"a/a"), b"a/aa": None, b"aa": uniq(b"aa"), b"a.a": uniq(b"a.a"),
              b"..a": uniq(b"..a"), b"a..": uniq(b"a.."), b"...": None, b".../index.html": uniq(b"..."), b".a": uniq(b".a"), b"aaa/aa": uniq(b"aaa/aa"),
              b"aaa/index.html": None, b"aaa/index.htm": uniq(b"aaa.htm")})


def rtree(rng):
    e = {b"only.txt": uniq(b"only"), b"locked.txt": uniq(b"locked", 99)}
    dirs = [b""]
    names = [b"a", b"docs", b"assets", b"v1.2", b"long-name_%d" % rng.randrange(99), b"x..y", b"caf\xc3\xa9", b"a b", b"~", b"%41", b"_.b"]
    for _ in range(rng.randrange(1, 6)):
        d = rng.choice(dirs) + rng.choice(names) + b"/"
        if d not in dirs:
            dirs.append(d)
    k = 0
    for d in dirs:
        if d and d[:-1] in e:
            continue
        for _ in range(rng.randrange(0, 5)):
            k += 1
            nm = rng.choice([b"index.html", b"index.htm", b"index.html", b"app.js", b"style.css", b"data.json", b"img.png", b"pic.svg", b"archive.tar.gz", b"README",
                             b"file.zq%d" % k, b"notes.txt", b"page.html", b"index", b"index.js", b"index.html.txt", b"a.b.c.css", b"Makefile", b"x.zqx"])
            n = rng.choice([1, 10, 40, 500, 5000, 70000])
            if any(x.startswith(d + nm + b"/") for x in e) or d + nm in [y[:-1] for y in dirs]:
                continue
            e[d + nm] = rng.choice([uniq(d + nm + b"%d" % k, n), bytes((i * 7 + k) % 256 for i in range(n)), uniq(b"z" + d + nm, n)[:-1] + b"\0"])
        if rng.random() < .15:
            e.setdefault(d + b"device", ("link", "/dev/null"))
            e.setdefault(d + b"broken.txt", ("link", "/nonexistent/x"))
        if rng.random() < .2 and d + b"index.html" not in e:
            e[d + b"index.html"] = None
    for d in dirs[1:]:
        e.setdefault(d[:-1], None)
        if e[d[:-1]] is not None:
            del e[d[:-1]]
            e[d[:-1]] = None
    bodies = {}
    for p, c in list(e.items()):
        # contents tell files apart; empty files too, at most one of them
        if isinstance(c, bytes):
            if c in bodies:
                e[p] = c + p
            bodies[e[p]] = p
    return Tree(e)


def respell(rng, p):
    """another spelling of an absolute path"""
    segs = p.split(b"/")
    out = []
    for i, s in enumerate(segs):
        out.append(s)
        if i < len(segs) - 1:
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                out += rng.choice([[b"."], [b""], [b"zz", b".."], [b"x.html", b".."], [b"..x", b".", b".."], [b"q", b"r", b"..", b".."], [b"...", b".."]])
    sep = lambda: b"\\" if rng.random() < .1 else b"/"
    r = out[0]
    for s in out[1:]:
        r += sep() + s
    if rng.random() < .15:
        r = rng.choice([b"/..", b"/../..", b"/.", b"/./../."]) + r
    return r


def paths(rng, tree, n):
    known = [b"/" + p for p in tree.e]
    out = []
    for _ in range(n):
        p = rng.choice(known)
        r = rng.random()
        if r < .15:
            pass
        elif r < .25:
            p += rng.choice([b"/", b"/.", b"/..", b"//", b"/index.html", b"x", b".html", b"/nope", b".", b"/../", b"/x/.."])
        elif r < .32:
            p = p[:rng.randrange(len(p) + 1)]
        elif r < .36:
            p = rng.choice([b"/nothing", b"/nope.html", b"/", b"", b"//", b"/.", b"/..", b"/nope/", b"/a/b/c/d"])
        else:
            p = respell(rng, p)
        out.append(p)
    return out


def wild(rng, tree, n, outside):
    known = [b"/" + p for p in tree.e]
    bits = [b"..", b".", b"/", b"\\", b"../", b"..\\", b"/..", b"//", b"%2e%2e", b"%2f", b"\0", b"\x01", b"\xff", b"\xc0\xae", b"\n", b" ", b"a", b"index.html",
            b"....//", b"..;/", b"~", b":", b"*", b"?", b"#", b"C:", b"etc/passwd", b"secret.txt", b"x" * 255, b"y" * 256, b"./" * 50, b"../" * 20, *outside]
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .5:
            p = b"".join(rng.choice(bits) for _ in range(rng.randrange(1, 9)))
        elif r < .7:
            up = b"".join(rng.choice([b"../", b"..\\", b"./", b"a/../", b"..//", b"/", b"docs/../", b".../", b"zz/.."]) for _ in range(rng.randrange(1, 12)))
            p = b"/" + up + rng.choice([b"secret.txt", b"etc/passwd", b"proc/self/status", *outside])
        elif r < .8:
            p = rng.choice(known) + rng.choice([b"\0", b"\0.html", b"/" * 300, b"\xff", b"/..", b"/../../secret.txt", b"/../../secret.txt\0.html", b"x" * 5000])
        elif r < .87:
            p = b"/" + b"/".join(b"n" * rng.choice([10, 254, 255, 256, 300]) for _ in range(rng.choice([1, 2, 20])))
        elif r < .9:
            p = b"/" + b"d/" * rng.choice([100, 2050, 5000])
        else:
            p = bytes(rng.randrange(256) for _ in range(rng.randrange(30)))
        if rng.random() < .8 and not p.startswith(b"/"):
            p = b"/" + p
        out.append(p)
    return out


class World:
    """scratch area with the roots of all trees and things next to them that must never be served"""

    def __init__(self, trees):
        self.dir = core.scratch("ss-")
        self.trees, self.roots = trees, []
        for i, t in enumerate(trees):
            base = os.path.join(self.dir, f"w{i}")
            root = os.path.join(base, "site")
            t.write(root)
            for d in (base, os.path.join(base, "site2"), os.path.join(base, "siteindex")):
                os.makedirs(d, exist_ok=True)
                for n in ("secret.txt", "index.html", "index.htm", "a", "only.txt"):
                    with open(os.path.join(d, n), "w") as f:
                        f.write("OUTSIDE " + d + n)
            self.roots.append(os.fsencode(root))

    def outside(self, i):
        b = os.fsencode(os.path.join(self.dir, f"w{i}"))
        return [b"site2/secret.txt", b + b"/secret.txt", b[1:] + b"/secret.txt", b"../site2/a", b"../site/only.txt", b"../secret.txt"]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def record(exe, world):
    def f(cs):
        ls = [[f"ss {drive.hx(world.roots[i] + tail)} {drive.hx(p)}" for p in ps] for i, tail, ps in cs]
        tr = []
        for (i, tail, ps), outs in zip(cs, pure.run(exe, ls, cwd=world.dir)):
            req = []
            for p, o in zip(ps, outs):
                w = o.split(" ")
                if w[0] == "unasked":
                    continue
                if w[0] == "r":
                    req.append(dict(path=list(p), code=int(w[1]), ctype=list(drive.unhx(w[2])), body=tok(drive.unhx(w[3]))))
                else:
                    req.append(dict(path=list(p), code=-1, ctype=[], body=o))
            tr.append(dict(tree=world.trees[i].spec(), req=req))
        return tr
    return f


def describe(c, t, at):
    q = t["req"][at - 1]
    return f"path {bytes(q['path'])!r:.120}: {q['code'] if q['code'] >= 0 else q['body']} {bytes(q['ctype'])!r} body {q['body']}"


def judge(ctx, exe, world, cases):
    tr = pure.judge(ctx, "StaticTrace", cases, record(exe, world), None, describe, extra={"PROP": ctx.prop})
    ctx.sample(dict(paths=[core.b2s(bytes(q["path"])) for q in tr[-1]["req"][:5]], codes=[q["code"] for q in tr[-1]["req"][:5]]))
    ctx.notes.update(requests=sum(len(t["req"]) for t in tr), served=sum(q["code"] == 200 for t in tr for q in t["req"]), trees=len(world.trees))
    return tr


def exhaustive(n):
    return [b"/" + bytes(x) for k in range(n) for x in itertools.product(b"/.a\\", repeat=k)]
