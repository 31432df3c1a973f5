"""M01: error and service pages show their message as data."""
import itertools
import os
import shutil

from .. import core, drive, http, pure

MARK = b"Qx7marker7xQ"
FMTS = ["html", "json", "plain"]
LETTERS = [b"<", b">", b"&", b'"', b"'", b"{", b"}", b"\\", b";", b"a", b"/", b"\n"]
WORDS = [b"{{svcpage_message_text}}", b"{{svcpage_statuscode}}", b"${svcpage_statuscode}", b"%svcpage_statustext%", b"</html>", b"</p>", b"<script>alert(1)</script>",
         b"&lt;", b"&amp;", b"&amp;lt;", b"&#60;", b"&#x3c;", b"&", b"<!--", b"-->", b"\\u003c", b"\\n", b"\\", b"\\\\", b'"', b'","ok":true,"x":"', b"\t", b"\r\n", b"\x01", b"\x1f", b"\x7f",
         "é".encode(), "漢字".encode(), "😀".encode(), b"%s%n", b"{}", b"{{", b"}}", b"message", b" ", b"  ", b"$1", b"'", b"=", b"]]>", b"null", b"0"]


def messages(ctx):
    out = [b"".join(x) for n in range(1, ctx.n(3, 4)) for x in itertools.product(LETTERS, repeat=n)]
    out += [b"", b"a" * 2000, b"<" * 900, b'"' * 900] + WORDS + [a + b for a in WORDS for b in WORDS if ctx.rng.random() < ctx.n(.4, 2)]
    for _ in range(ctx.n(600, 6000)):
        out.append(b"".join(ctx.rng.choice(WORDS + LETTERS) for _ in range(ctx.rng.randrange(2, 12))))
    for n in range(1, 128):
        out.append(b"x%cy" % n)
    return out


# ways of being refused by the server itself
BAD = [(b"GET / HTTP/1.1\r\nbad header\r\n\r\n", 400), (b"POST / HTTP/1.1\r\nContent-Length: <b>\r\n\r\n", 400), (b"<script> / HTTP/1.1\r\n\r\n", 400),
       (b"POST / HTTP/1.1\r\nContent-Length: 99999999\r\n\r\n", 413), (b'GET /"<b> HTTP/1.1\r\n"<b>\r\n\r\n', 400)]


def page(fmt, msg, known, want, parts, resp=None):
    r = dict(fmt=fmt, msg=list(msg), known=known, want=want, parts=[list(p) for p in parts], out="none", code=0, ctype=[], clen=0, body=[])
    if resp:
        r.update(out="page", code=resp[0], ctype=list(resp[1].lower()), clen=resp[2], body=list(resp[3]))
    return r


def parse(raw):
    """bytes of a connection -> (code, content type, content length, body); the body is all that follows the head"""
    head, sep, body = raw.partition(b"\r\n\r\n")
    ls = head.split(b"\r\n")
    w = ls[0].split(b" ")
    if not sep or len(w) < 2 or w[0] != b"HTTP/1.1" or not w[1].isdigit():
        return None
    hs = {n.strip().lower(): v.strip() for n, _, v in (l.partition(b":") for l in ls[1:])}
    n = hs.get(b"content-length", b"x")
    body = http.decode(body, hs.get(b"content-encoding", b"")) or b""
    return int(w[1]), hs.get(b"content-type", b""), (int(n) if b"content-encoding" not in hs else len(body)) if n.isdigit() else -1, body


def served(exe, cases):
    """cases: (fmt, message or None, wire)"""
    cs = []
    for fmt, msg, wire in cases:
        m = http.request() if wire is None else http.Msg(wire)
        cs.append(http.Case([m], [], [http.hand("std", 200, text=msg or b"")], err=fmt, compress=False, max=100000))
    out = []
    for ls in http.run_cases(exe, cs):
        raw = b"".join(drive.unhx(l[2:]) for l in ls or [] if l.startswith("s "))
        out.append(parse(raw))
    return out


class Bench:
    def __init__(self, hexe, pexe):
        self.hexe, self.pexe = hexe, pexe
        self.dir = core.scratch("page-")
        os.makedirs(os.path.join(self.dir, "root"))
        self.root = drive.hx(os.path.join(self.dir, "root").encode())
        ref = served(hexe, [(f, MARK, None) for f in FMTS])
        self.parts = {f: r[3].split(MARK) if r else [b""] for f, r in zip(FMTS, ref)}
        r = self.lost([b"/" + MARK])[0]
        self.sparts = r[3].split(b"/" + MARK) if r else [b""]

    def lost(self, paths):
        rs = pure.run(self.pexe, [[f"ss {self.root} {drive.hx(p)}"] for p in paths])
        out = []
        for (l,) in rs:
            w = l.split(" ")
            b = drive.unhx(w[3]) if len(w) == 4 else b""
            out.append((int(w[1]), drive.unhx(w[2]) or b"text/html", len(b), b) if w[0] == "r" else None)
        return out

    def record(self, cases):
        """cases: ("error", fmt, msg) | ("lost", path) | ("bad", fmt, k)"""
        rs = [None] * len(cases)
        web = [(i, c) for i, c in enumerate(cases) if c[0] != "lost"]
        for (i, _), r in zip(web, served(self.hexe, [(c[1], c[2], None) if c[0] == "error" else (c[1], None, BAD[c[2]][0]) for _, c in web])):
            rs[i] = r
        st = [(i, c) for i, c in enumerate(cases) if c[0] == "lost"]
        for (i, _), r in zip(st, self.lost([c[1] for _, c in st])):
            rs[i] = r
        tr = []
        for c, r in zip(cases, rs):
            if c[0] == "error":
                tr.append(page(c[1], c[2], c[2] != b"", 500, self.parts[c[1]], r))
            elif c[0] == "bad":
                tr.append(page(c[1], b"", False, BAD[c[2]][1], self.parts[c[1]], r))
            else:
                tr.append(page("html", c[1], True, 404, self.sparts, r))
        return tr


def run(ctx):
    hexe = core.build("httpdrv", ["httpdrv.cpp"])
    pexe = core.build("pagedrv", ["pagedrv.cpp"], link=["-ldl"])
    ctx.model("PageMC", "PageMC")
    for bug in ("rawamp", "rawless", "twice"):
        if not ctx.model("PageMC", "PageMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    b = Bench(hexe, pexe)
    try:
        ms = messages(ctx)
        cs = [("bad", f, k) for f in FMTS for k in range(len(BAD))]
        for i, m in enumerate(ms):
            cs += [("error", f, m) for f in (FMTS if i % 8 == 0 or not ctx.quick else [FMTS[i % 3]])]
        cs += [("lost", b"/" + m) for m in ms if len(m) < 200 and b"\\" not in m and b"/" not in m]
        tr = pure.judge(ctx, "PageTrace", cs, b.record, None, lambda c, t, at: "%s: %s %s, type %s, length %d: %r" % (
            c, t["out"], t["code"], bytes(t["ctype"]), t["clen"], bytes(t["body"])[:300]))
        ctx.sample({k: tr[-1][k] for k in ("fmt", "code", "out")})
        ctx.notes["pages"] = len(cs)
    finally:
        shutil.rmtree(b.dir, ignore_errors=True)
    return ctx.finish()
