"""Websocket session cases: generation, running, recording, validation against WsTrace."""
import base64
import os
import shutil
import zlib

from . import core, drive, http, tlaval
from .drive import hx, unhx

ints = list
CAP = 12000      # largest segment that is fed at once


def tok(b):
    return f"{len(b)}.{zlib.crc32(b):08x}"


class Frame:
    def __init__(self, op, payload=b"", fin=True, masked=True, mask=b"\1\2\3\4", size=None, known=None):
        """size: payload length announced (default: the real one); known: bytes actually sent after the header"""
        n = len(payload) if size is None else size
        if n < 126:
            ln = bytes([n | (128 if masked else 0)])
        elif n < 65536:
            ln = bytes([126 | (128 if masked else 0)]) + n.to_bytes(2, "big")
        else:
            ln = bytes([127 | (128 if masked else 0)]) + n.to_bytes(8, "big")
        self.head = bytes([(128 if fin else 0) | op]) + ln + (mask if masked else b"")
        self.body = bytes(c ^ mask[i & 3] for i, c in enumerate(payload)) if masked and mask != b"\0\0\0\0" else payload
        self.op, self.fin, self.masked, self.payload, self.n = op, fin, masked, payload, n
        self.wire = self.head + self.body

    def json(self):
        return dict(op=self.op, fin=self.fin, masked=self.masked, len=min(self.n, 1 << 30), hlen=len(self.head), tok=tok(self.payload))


def meaning(frames, mx, base):
    """how many messages and pongs the client may wait for: [(end offset, kind)]; only paces the client"""
    r, pos, opened = [], base, False
    for f in frames:
        if f.op not in (0, 1, 2, 8, 9, 10) or not f.masked or f.n > mx or (f.op == 0 and not opened) or f.op == 8:
            r.append((pos + len(f.wire), "stop"))
            break
        pos += len(f.wire)
        if f.op == 9:
            r.append((pos, "pong"))
        elif f.op in (0, 1, 2):
            opened = not f.fin
            r.append((pos, "msg"))
    return r


KEY = b"dGhlIHNhbXBsZSBub25jZQ=="


def handshake(method=b"GET", upgrade=b"websocket", key=KEY, extra=(), body=None, path=b"/ws"):
    hs = [(b"Host", b"a"), (b"Connection", b"Upgrade")]
    if upgrade is not None:
        hs.append((b"Upgrade", upgrade))
    if key is not None:
        hs.append((b"Sec-WebSocket-Key", key))
    hs += list(extra)
    if body is not None:
        hs.append((b"Content-Length", b"%d" % len(body)))
    return method + b" " + path + b" HTTP/1.1\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in hs) + b"\r\n"


class Case:
    def __init__(self, frames=(), cuts=(), prog=("drain",), head=None, headcuts=(), early=0, max=1 << 20, threads=False, fin="eof",
                 part=0, jitter=0, perturb=False, catch=False, gate=.5, rng=None, seed=1):
        self.frames, self.prog, self.head = list(frames), list(prog), head or handshake()
        self.max, self.threads, self.fin, self.part, self.jitter = max, threads, fin, part, jitter
        self.perturb, self.catch, self.seed = perturb, catch, seed
        stream = b"".join(f.wire for f in self.frames)
        hc = sorted({c for c in headcuts if 0 < c < len(self.head)})
        segs = [self.head[a:b] for a, b in zip([0] + hc, hc + [len(self.head)])]
        self.extra = early > 0
        segs[-1] += stream[:early]
        self.segs = segs
        cuts = sorted({c for c in cuts if early < c < len(stream)} | set(range(early + CAP, len(stream), CAP)))
        base = len(self.head)
        mean = meaning(self.frames, max, base)
        self.steps = []
        have = early
        for a, b in zip([early] + cuts, cuts + [len(stream)]):
            if a == b:
                continue
            g = rng is not None and rng.random() < gate
            m = sum(1 for e, k in mean if k == "msg" and e <= base + have) if g and self.drains else 0
            p = sum(1 for e, k in mean if k == "pong" and e <= base + have) if g else 0
            self.steps.append((m, p, stream[a:b]))
            have = b
        ends = self.fin == "held"
        self.endm = sum(1 for e, k in mean if k == "msg") if self.drains and not ends else 0
        self.endp = sum(1 for e, k in mean if k == "pong") if not ends else 0
        self.sends = []
        for o in self.prog:
            p = o.split(":")
            if p[0] == "send":
                d = unhx(p[3])
                self.sends.append(dict(tok=tok(d), bin=p[1] == "B", partial=p[2] == "1"))
            elif p[0] == "burst":
                for _ in range(int(p[1]) * int(p[2])):
                    i = len(self.sends)
                    d = b"#%d;" % i
                    d += bytes((i * 7 + k) & 255 for k in range(len(d), int(p[3])))
                    self.sends.append(dict(tok=tok(d), bin=i % 2 == 1, partial=False))

    @property
    def drains(self):
        return self.prog[-1:] == ["drain"]

    def line(self):
        return ("case segs=%s steps=%s endm=%d endp=%d prog=%s catch=%d fin=%s part=%d jit=%d pert=%d max=%d list=%d seed=%d" % (
            ".".join(s.hex() for s in self.segs), ",".join(f"{m}:{p}:{b.hex()}" for m, p, b in self.steps) or "none",
            self.endm, self.endp, ",".join(self.prog) or "none", self.catch, self.fin, self.part, self.jitter, self.perturb,
            self.max, self.threads, self.seed))

    def trace(self, lines):
        return dict(head=ints(self.head), extra=self.extra, max=self.max, frames=[f.json() for f in self.frames], sends=self.sends,
                    catch=self.catch, drains=self.drains, fin=self.fin, ev=events(lines))


def events(lines):
    ev, out, marks = [], b"", []
    for ln in lines:
        w = ln.split(" ")
        if w[0] == "s":
            out += unhx(w[1])
            marks.append((len(out), len(ev)))
        elif w[0] == "feed":
            ev.append(dict(e="feed", n=int(w[1])))
        elif w[0] == "msg":
            ev.append(dict(e="msg", tok=w[1], bin=w[2] == "1", partial=w[3] == "1"))
        elif w[0] in ("snd", "sok", "sex"):
            ev.append(dict(e=w[0], i=int(w[1])))
        elif w[0] == "cls":
            ev.append(dict(e="cls", code=int(w[1])))
        elif w[0] != "lost":
            ev.append(dict(e=w[0]))
    place = []

    def at(n):
        return next(i for k, i in marks if k >= n)
    if out:
        e = out.find(b"\r\n\r\n")
        ok = e >= 0
        o = len(out)
        if ok:
            ls = out[:e].split(b"\r\n")
            first = ls[0].split(b" ", 2)
            ok = len(first) == 3 and first[0] == b"HTTP/1.1" and first[1].isdigit()
            hs = [[ints(k.lower()), ints(v.strip())] for k, _, v in (x.partition(b":") for x in ls[1:])]
            if ok:
                code = int(first[1])
                place.append((at(e + 4), dict(e="resp", code=code, hdrs=hs)))
                o = e + 4 if code == 101 else len(out)
        if not ok:
            place.append((marks[-1][1], dict(e="junk")))
        while o < len(out):
            b = out[o:]
            h = 2
            if len(b) < 2:
                n = 1 << 30
            else:
                n, minimal = b[1] & 127, True
                if n == 126:
                    n, h = int.from_bytes(b[2:4], "big"), 4
                    minimal = n > 125
                elif n == 127:
                    n, h = int.from_bytes(b[2:10], "big"), 10
                    minimal = n > 65535
            if len(b) >= 2 and b[1] & 128:
                h += 4
            if len(b) < h + n:
                place.append((marks[-1][1], dict(e="cut")))
                break
            pl = b[h:h + n]
            place.append((at(o + h + n), dict(e="tx", op=b[0] & 15, fin=b[0] >= 128, rsv=(b[0] >> 4) & 7, masked=b[1] >= 128, minimal=minimal,
                                              len=n, tok=tok(pl), code=int.from_bytes(pl[:2], "big"))))
            o += h + n
    # what was sent goes where its last byte was; a cut frame belongs before the end
    for i, x in reversed(place):
        if x["e"] == "cut":
            i = max(i, len(ev) - 1)
        ev.insert(i, x)
    return ev


def judge(ctx, exe, cases, label="session"):
    done = [(c, o) for c, o in zip(cases, http.run_cases(exe, cases)) if o is not None]
    cases = [c for c, _ in done]
    traces = [c.trace(o) for c, o in done]
    ex = {"PROP": ctx.prop}
    for i in range(0, len(cases), 4000):
        bad = ctx.validate("WsTrace", traces[i:i + 4000], mem="3g", extra=ex)
        for j in bad[:3]:
            c = cases[i + j]
            again = None
            for _ in range(12 if c.jitter else 3):         # what depends on timing gets more than one chance
                a = c.trace(http.run_cases(exe, [c])[0])
                if ctx.validate("WsTrace", [a], extra=ex):
                    again = a
                    break
            if again is None:
                ctx.log("not reproduced:", label, i + j)
                ctx.notes["not_reproduced"] = ctx.notes.get("not_reproduced", 0) + 1
                at, _ = ctx.explain("WsTrace", traces[i + j], extra=ex)
                if not c.jitter or at > len(traces[i + j]["ev"]) or traces[i + j]["ev"][at - 1]["e"] != "tx":
                    continue
                again = traces[i + j]         # a wrong frame in a recorded race is evidence enough
            at, exp = ctx.explain("WsTrace", again, extra=ex)
            e = again["ev"][at - 1] if at <= len(again["ev"]) else "end of trace"
            ctx.violation(f"{label}: event {at} is not allowed: {http.show(e)} {str(exp)[:300]} {getattr(c, 'why', '')[:300]}",
                          dict(case=c.line()[:20000], at=at, event=http.show(e), events=[http.show(x) for x in again["ev"]][:400]))
    if traces:
        ctx.sample([http.show(e) for e in traces[0]["ev"]][:12])
    return traces


# ------------------------------------------------------------ generators

SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 100, 124, 125, 126, 127, 128, 250, 256, 257, 300, 1000]


def payload(rng, n=None):
    n = rng.choice(SIZES) if n is None else n
    k = rng.randrange(3)
    return rng.randbytes(n) if k else bytes(rng.choice(b"abc \x00\xff\x81\x88") for _ in range(n))


def mask(rng):
    return rng.choice([rng.randbytes(4), rng.randbytes(4), b"\0\0\0\0", b"\xff\xff\xff\xff", b"\0\0\0\1"])


def stream(rng, n, controls=True, stop=None, big=0, mx=1 << 20):
    """a client's frames: whole and fragmented messages, control frames anywhere in between"""
    fs, opened = [], False

    def ctl():
        if controls and rng.random() < .35:
            op = rng.choice([9, 9, 10])
            pl = payload(rng, rng.choice([0, 1, 4, 20, 124, 125]))
            if op == 10 and rng.random() < .3:
                pl = b"ping/lambda/ws"
            fs.append(Frame(op, pl, mask=mask(rng)))

    while len(fs) < n:
        ctl()
        size = big if big and rng.random() < .3 else None
        if opened:
            end = rng.random() < .5
            fs.append(Frame(0, payload(rng, size), fin=end, mask=mask(rng)))
            opened = not end
        else:
            part = rng.random() < .4
            fs.append(Frame(rng.choice([1, 2]), payload(rng, size), fin=not part, mask=mask(rng)))
            opened = part
    if stop:
        fs.append(stopper(rng, stop, opened, mx))
        if rng.random() < .6:     # none of this may have any effect
            fs.append(Frame(1, payload(rng), mask=mask(rng)))
            fs.append(Frame(9, b"late", mask=mask(rng)))
    return fs


def stopper(rng, what, opened, mx):
    if what == "close":
        return Frame(8, rng.choice([b"", b"\x03\xe8", b"\x03\xe9bye", b"\x0f\xa0"]), mask=mask(rng))
    if what == "opcode":
        return Frame(rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15]), payload(rng, rng.choice([0, 1, 20])), mask=mask(rng))
    if what == "unmasked":
        return Frame(rng.choice([0] if opened else [1, 2, 9, 8, 10]), payload(rng, rng.choice([0, 1, 20, 125])), masked=False)
    if what == "cont":
        if opened:
            return Frame(15, b"x", mask=mask(rng))
        return Frame(0, payload(rng, rng.choice([0, 5, 130])), fin=rng.random() < .5, mask=mask(rng))
    if what == "large":
        n = rng.choice([mx + 1, mx + 2, mx + 100, 65536 + mx, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
                        (1 << 64) - 10, (1 << 64) - 14])
        return Frame(0 if opened else rng.choice([1, 2]), payload(rng, rng.choice([0, 3, 100])), size=n, mask=mask(rng))
    raise ValueError(what)


STOPS = ["close", "opcode", "unmasked", "cont", "large"]


def cuts(rng, fs):
    n = sum(len(f.wire) for f in fs)
    r = list(http.cuts_of(rng, n))
    if rng.random() < .5:       # at and around the borders of headers and frames
        p = 0
        for f in fs:
            for e in (p + 1, p + 2, p + len(f.head), p + len(f.wire)):
                if rng.random() < .4:
                    r.append(e + rng.choice([-1, 0, 0, 0, 1]))
            p += len(f.wire)
    if len(r) > 60:
        r = sorted(rng.sample(r, 60)) if rng.random() < .7 or n > 300 else r
    return r


def graph_cases(ctx, limit):
    """(kinds of frames, cut positions in units) from the state graph of WsConn, a client that waits"""
    d = core.scratch("gen-")
    dot = os.path.join(d, "g.dot")
    ctx.model("WsConn", "WsGen", workers=1, extra=("-dump", "dot,actionlabels", dot))
    st, ed, init = tlaval.graph(dot)
    shutil.rmtree(d, ignore_errors=True)
    out = {}
    for w in tlaval.walks(st, ed, init, ctx.rng, 200, limit * 3):
        kinds, sent, cs = None, 0, []
        for act, sid in w:
            s = st[sid]
            if kinds is None:
                kinds = tuple(tlaval.parse(s["frames"]))
            n = int(s["last"])
            if n:
                sent += n
                cs.append(sent)
        if kinds:
            out[(kinds, tuple(cs))] = 1
    keys = sorted(out)
    ctx.notes["spec_behaviours"] = len(keys)
    return ctx.rng.sample(keys, limit) if len(keys) > limit else keys


def concrete(rng, kinds, cs, i):
    mx = 400
    fs, bounds, opened, pos = [], [0], False, 0
    for k in kinds:
        m = mask(rng)
        f = {"text": lambda: Frame(1, payload(rng, rng.choice([1, 50, 130])), mask=m),
             "textpart": lambda: Frame(1, payload(rng, 5), fin=False, mask=m),
             "binpart": lambda: Frame(2, payload(rng, rng.choice([1, 126])), fin=False, mask=m),
             "cont": lambda: Frame(0, payload(rng, 3), fin=False, mask=m),
             "last": lambda: Frame(0, payload(rng, rng.choice([1, 200])), mask=m),
             "ping": lambda: Frame(9, payload(rng, rng.choice([1, 125])), mask=m),
             "pong": lambda: Frame(10, b"", mask=m),
             "close": lambda: Frame(8, rng.choice([b"", b"\x03\xe8"]), mask=m),
             "bad": lambda: Frame(3, b"", mask=m),
             "unmasked": lambda: Frame(1, payload(rng, 4), masked=False),
             "large": lambda: Frame(1, b"z" * 8, size=mx + rng.choice([1, 70000]), mask=m)}[k]()
        fs.append(f)
        units = {"pong": 1, "close": 1, "bad": 1, "large": 10}.get(k, 2)
        for u in range(1, units + 1):
            if units == 1:
                bounds.append(pos + len(f.wire))
            elif u == 1:
                bounds.append(pos + len(f.head))
            else:
                bounds.append(pos + len(f.head) + len(f.body) * (u - 1) // (units - 1))
        pos += len(f.wire)
    c = [bounds[x] + (rng.choice([-1, 0]) if rng.random() < .1 else 0) for x in cs if x < len(bounds)]
    return Case(fs, c, max=mx, fin=rng.choice(["eof", "eof", "rst"]), rng=rng, gate=1, threads=rng.random() < .3, seed=i)
