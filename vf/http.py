"""HTTP connection cases: generation, running, recording, validation against HttpTrace."""
import base64
import concurrent.futures as cf
import ctypes
import hashlib
import json
import os
import zlib

from . import core, drive, tlaval
from .drive import hx, unhx

ints = list


# ------------------------------------------------------------ decoding

_br = None


def unbrotli(data):
    global _br
    if _br is None:
        _br = ctypes.CDLL("libbrotlidec.so.1")
        _br.BrotliDecoderCreateInstance.restype = ctypes.c_void_p
        _br.BrotliDecoderCreateInstance.argtypes = [ctypes.c_void_p] * 3
        _br.BrotliDecoderDecompressStream.restype = ctypes.c_int
        _br.BrotliDecoderDecompressStream.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 5
        _br.BrotliDecoderDestroyInstance.argtypes = [ctypes.c_void_p]
    st = _br.BrotliDecoderCreateInstance(None, None, None)
    src = ctypes.create_string_buffer(data, len(data))
    out, size = b"", 1 << 16
    buf = ctypes.create_string_buffer(size)
    ain, pin = ctypes.c_size_t(len(data)), ctypes.c_void_p(ctypes.addressof(src))
    try:
        while True:
            aout, pout = ctypes.c_size_t(size), ctypes.c_void_p(ctypes.addressof(buf))
            r = _br.BrotliDecoderDecompressStream(st, ctypes.byref(ain), ctypes.byref(pin), ctypes.byref(aout),
                                                  ctypes.byref(pout), None)
            out += buf.raw[:size - aout.value]
            if r == 1:
                return out if ain.value == 0 else None
            if r != 3:
                return None
    finally:
        _br.BrotliDecoderDestroyInstance(st)


def decode(data, coding):
    """decoded body or None"""
    coding = coding.strip().lower()
    try:
        if coding in (b"", b"identity"):
            return data
        if coding in (b"gzip", b"deflate"):
            d = zlib.decompressobj(31 if coding == b"gzip" else 15)
            out = d.decompress(data) + d.flush()
            return out if d.eof and not d.unused_data else None
        if coding == b"br":
            return unbrotli(data)
    except zlib.error:
        pass
    return None


def tok(b):
    return "bad" if b is None else hashlib.sha1(b).hexdigest()[:12]


# ------------------------------------------------------------ cases

class Msg:
    def __init__(self, head, body=b"", cut=None):
        """cut: number of bytes of the message that are ever sent (None: all)"""
        self.head, self.body, self.cut = head, body, cut

    @property
    def wire(self):
        w = self.head + self.body
        return w if self.cut is None else w[:self.cut]


def request(method=b"GET", target=b"/", headers=(), body=None, version=b"HTTP/1.1", length=True):
    hs = list(headers)
    if body is not None and length:
        hs.append((b"Content-Length", b"%d" % len(body)))
    head = b" ".join([method, target, version]) + b"\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in hs) + b"\r\n"
    return Msg(head, body or b"")


def hand(kind="resp", status=200, text=b"", hdrs=(), body=b"ok"):
    return dict(kind=kind, status=status, text=text, hdrs=list(hdrs), body=body)


class Case:
    def __init__(self, msgs, cuts, hands=(), max=1 << 20, reuse=True, compress=True, err="plain", threads=False, fin="eof",
                 part=0, names=(), params=(), seed=1):
        self.msgs, self.hands = list(msgs), list(hands)
        self.max, self.reuse, self.compress, self.err, self.threads = max, reuse, compress, err, threads
        self.fin, self.part, self.names, self.params, self.seed = fin, part, list(names), list(params), seed
        stream = b"".join(m.wire for m in self.msgs)
        # no body is longer than what the server takes at once for a single feed
        cuts = sorted({c for c in cuts if 0 < c < len(stream)} | set(range(12000, len(stream), 12000)))
        self.segs = [stream[a:b] for a, b in zip([0] + cuts, cuts + [len(stream)])] if stream else []

    def line(self):
        hd = ",".join(":".join([h["kind"], str(h["status"]), hx(h["text"]),
                                ";".join(hx(k) + "=" + hx(v) for k, v in h["hdrs"]) or "none", hx(h["body"])]) for h in self.hands)
        return ("case max=%d reuse=%d comp=%d err=%s list=%d fin=%s part=%d seed=%d segs=%s hand=%s names=%s params=%s" % (
            self.max, self.reuse, self.compress, self.err, self.threads, self.fin, self.part, self.seed,
            ".".join(s.hex() for s in self.segs) or "none", hd or "none",
            ".".join(hx(n) for n in self.names) or "none", ".".join(hx(n) for n in self.params) or "none"))

    def cred(self, m):
        """credentials of a basic authorization header"""
        for ln in m.head.split(b"\r\n")[1:]:
            k, _, v = ln.partition(b":")
            if k.strip().lower() == b"authorization":
                s = v.strip().split(b" ", 1)
                if len(s) == 2 and s[0].lower() == b"basic":
                    try:
                        return [ints(base64.b64decode(s[1].strip(), validate=True))]
                    except ValueError:
                        return []
                return []
        return []

    def trace(self, lines):
        ms = []
        for m in self.msgs:
            whole = m.head.endswith(b"\r\n\r\n") and (m.cut is None or m.cut >= len(m.head))
            head = m.head if whole else m.wire
            bl = len(m.body)
            ms.append(dict(head=ints(head), blen=bl, btok=tok(m.body), whole=whole, cred=self.cred(m)))
        hs = [dict(kind=h["kind"], status=h["status"], text=ints(h["text"]),
                   hdrs=[[ints(k.lower()), ints(v)] for k, v in h["hdrs"]], btok=tok(h["body"]), blen=len(h["body"])) for h in self.hands]
        while len(hs) < len(ms) + 1:
            hs.append(dict(kind="resp", status=200, text=[], hdrs=[], btok=tok(b"default"), blen=7))
        return dict(msgs=ms, hand=hs, max=self.max, reuse=self.reuse, compress=self.compress, errtype=self.err, ev=self.events(lines))

    def events(self, lines):
        def pairs(s):
            return [[ints(unhx(a)) for a in x.split("=")] for x in s.split(";")] if s != "none" else []
        ev, out, handled = [], b"", 0
        marks = []          # (bytes sent so far, index in ev)
        for ln in lines:
            w = ln.split(" ")
            if w[0] == "feed":
                ev.append(dict(e="feed", n=int(w[1])))
            elif w[0] in ("wait", "fin"):
                ev.append(dict(e=w[0]))
            elif w[0] == "req":
                b = unhx(w[11])
                text = unhx(w[12])
                ev.append(dict(e="req", method=ints(unhx(w[1])), path=ints(unhx(w[2])), hdrs=pairs(w[3]), byname=pairs(w[4]),
                               params=pairs(w[5]), host=ints(unhx(w[6])), hostname=ints(unhx(w[7])), port=ints(unhx(w[8])),
                               user=ints(unhx(w[9])), **{"pass": ints(unhx(w[10]))}, blen=len(b), btok=tok(b) if text == b else "differ"))
            elif w[0] == "s":
                out += unhx(w[1])
                marks.append((len(out), len(ev)))
            elif w[0] == "end":
                ev.append(dict(e="end"))
            elif w[0] in ("hang", "died"):
                ev.append(dict(e=w[0]))
        nreq = [0]
        for e in ev:
            nreq.append(nreq[-1] + (e["e"] == "req"))
        place, o, k = [], 0, 0
        while o < len(out):
            r = self.response(out, o, k)
            if r is None:
                place.append((len(ev) - (1 if ev and ev[-1]["e"] in ("end", "died", "hang") else 0), dict(e="junk", at=o)))
                break
            o, resp = r
            at = next(i for n, i in marks if n >= o)
            place.append((at, resp))
            k += 1
        for at, resp in reversed(place):
            ev.insert(at, resp)
        return ev

    def response(self, out, o, k):
        e = out.find(b"\r\n\r\n", o)
        if e < 0:
            return None
        lines = out[o:e].split(b"\r\n")
        first = lines[0].split(b" ", 2)
        if len(first) < 3 or first[0] != b"HTTP/1.1" or not first[1].isdigit() or len(first[1]) != 3:
            return None
        hs = []
        for ln in lines[1:]:
            n, c, v = ln.partition(b":")
            if not c or not n or n != n.strip():
                return None
            hs.append([n.lower(), v.strip()])
        code = int(first[1])
        d = dict(hs)
        o = e + 4
        body = b""
        head = k < len(self.msgs) and self.msgs[k].wire.startswith(b"HEAD ")
        if head and code >= 400 and d.get(b"connection") == b"close" and out[o:] and not out.startswith(b"HTTP/1.1 ", o):
            head = False       # an error page for something that could not be read as a HEAD request
            if len(out) - o != int(d.get(b"content-length", b"0")):
                return None
        if not (head or code in (204, 304) or code // 100 == 1):
            n = d.get(b"content-length", b"")
            if not n.isdigit():
                body = out[o:]
            else:
                if o + int(n) > len(out):
                    return None
                body = out[o:o + int(n)]
        o += len(body)
        dec = decode(body, d.get(b"content-encoding", b""))
        ct = d.get(b"content-type", b"").lower()
        fmt = True
        if dec is not None:
            if ct.startswith(b"application/json"):
                try:
                    fmt = isinstance(json.loads(dec), dict)
                except ValueError:
                    fmt = False
            elif ct.startswith(b"text/html"):
                low = dec.lower()
                fmt = b"<html" in low and b"</html>" in low
            elif ct.startswith(b"text/plain"):
                fmt = b"</html>" not in dec
        return o, dict(e="resp", code=code, text=ints(first[2]), hdrs=[[ints(a), ints(b)] for a, b in hs], n=len(body), rtok=tok(body),
                       dtok=tok(dec), dlen=len(dec or b""), isfmt=fmt)


def run_cases(exe, cases, env=None, timeout=600):
    """-> list of output lines per case; None for cases that were not run because many others had hung or died"""
    res = [None] * len(cases)
    lost = []

    def work(idx):
        todo = list(idx)
        while todo and len(lost) < 8:
            outs, rc, err = drive.batch(exe, [cases[i].line() for i in todo], timeout=timeout, env=env)
            cur, n = None, 0
            for ln in outs:
                if ln == "case":
                    cur = []
                elif ln == "done" and cur is not None:
                    res[todo[n]] = cur
                    n += 1
                    cur = None
                elif cur is not None:
                    cur.append(ln)
            if n < len(todo):
                if cur and cur[-1] == "hang":
                    res[todo[n]] = cur
                elif rc == 9:
                    raise core.CheckError("driver could not set up: " + err[-300:])
                else:
                    res[todo[n]] = (cur or []) + ["died"]
                lost.append(todo[n])
                cases[todo[n]].why = f"rc={rc} {err[-1500:]}"
                n += 1
            todo = todo[n:]
    step = max(1, min(200, -(-len(cases) // core.CPUS)))
    chunks = [range(i, min(i + step, len(cases))) for i in range(0, len(cases), step)]
    with cf.ThreadPoolExecutor(core.CPUS) as ex:
        list(ex.map(work, chunks))
    return res


def judge(ctx, exe, cases, label="connection", prop=None):
    prop = prop or ctx.prop
    done = [(c, o) for c, o in zip(cases, run_cases(exe, cases)) if o is not None]
    cases = [c for c, _ in done]
    traces = [c.trace(o) for c, o in done]
    for i in range(0, len(cases), 4000):
        part = traces[i:i + 4000]
        bad = ctx.validate("HttpTrace", part, mem="3g", extra={"PROP": prop})
        for j in bad[:3]:
            c = cases[i + j]
            again = c.trace(run_cases(exe, [c])[0])
            if not ctx.validate("HttpTrace", [again], extra={"PROP": prop}):
                ctx.log("not reproduced:", label, i + j)
                ctx.notes["not_reproduced"] = ctx.notes.get("not_reproduced", 0) + 1
                continue
            at, exp = ctx.explain("HttpTrace", again, extra={"PROP": prop})
            e = again["ev"][at - 1] if at <= len(again["ev"]) else "end of trace"
            ctx.violation(f"{label}: event {at} is not allowed: {show(e)} {str(exp)[:300]} {getattr(c, 'why', '')[:300]}",
                          dict(case=c.line(), segments=[s.decode("latin-1")[:2000] for s in c.segs], at=at, event=show(e),
                               events=[show(x) for x in again["ev"]]))
    if traces:
        ctx.sample([show(e) for e in traces[0]["ev"]][:8])
    return traces


def show(e):
    if not isinstance(e, dict):
        return str(e)

    def f(v):
        if isinstance(v, list):
            if all(isinstance(x, int) for x in v):
                return bytes(v).decode("latin-1")
            return [f(x) for x in v]
        return v
    return str({k: f(v) for k, v in e.items()})[:1500]


# ------------------------------------------------------------ generators

def cuts_of(rng, n, style=None):
    style = style if style is not None else rng.randrange(6)
    if style == 0:
        return []
    if style == 1 and n <= 400:
        return range(1, n)
    if style == 2:
        return [rng.randrange(1, n)] if n > 1 else []
    if style == 3:
        return range(rng.randrange(1, 60), n, rng.randrange(1, 400))
    return [rng.randrange(1, n) for _ in range(rng.randrange(1, 8))] if n > 1 else []


def graph_cases(ctx, limit):
    """(kinds, cut positions in units) from the state graph of HttpGen"""
    import shutil
    d = core.scratch("gen-")
    dot = os.path.join(d, "g.dot")
    ctx.model("HttpConn", "HttpGen", workers=1, extra=("-dump", "dot,actionlabels", dot))
    st, ed, init = tlaval.graph(dot)
    shutil.rmtree(d, ignore_errors=True)
    out = {}
    for w in tlaval.walks(st, ed, init, ctx.rng, 60):
        kinds, sent = None, 0
        cuts = []
        for act, sid in w:
            s = st[sid]
            if kinds is None:
                kinds = tuple(tlaval.parse(s["msgs"]))
            n = int(s["last"])
            if n:
                sent += n
                cuts.append(sent)
        if kinds:
            out[(kinds, tuple(cuts))] = 1
    keys = sorted(out)
    ctx.notes["spec_behaviours"] = len(keys)
    if len(keys) > limit:
        keys = ctx.rng.sample(keys, limit)
    return keys, sum(len(e) for e in ed.values())


UNITS = {"get": (1, 0), "post": (2, 2), "big": (1, 5), "bad": (1, 0), "close": (1, 0), "zip": (2, 0)}


def concrete(rng, kinds, cuts):
    """a concrete connection for an abstract one: units become byte ranges"""
    mx = 400
    msgs, bounds = [], [0]
    for i, k in enumerate(kinds):
        path = b"/%d" % i
        if k == "get":
            m = request(target=path)
        elif k == "post":
            m = request(b"POST", path, [(b"Host", b"h")], bytes(rng.choice(b"ab\r\n") for _ in range(rng.choice([2, 3, 20, 200]))))
        elif k == "big":
            m = request(b"POST", path, [], b"y" * mx)
        elif k == "bad":
            m = Msg(rng.choice([b"NOSUCH / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nnocolon\r\n\r\n", b"GET /\r\n\r\n",
                                b"GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n"]))
        elif k == "close":
            m = request(target=path, headers=[(b"Connection", b"close")])
        else:
            m = request(target=path, headers=[(b"Accept-Encoding", rng.choice([b"gzip", b"br", b"deflate"]))])
        msgs.append(m)
        h, b = UNITS[k]
        base = bounds[-1]
        hp = sorted(rng.sample(range(1, len(m.head)), h - 1)) + [len(m.head)]
        bp = []
        if b:
            bp = [len(m.head) + x for x in sorted(rng.sample(range(1, len(m.body)), b - 1))] + [len(m.head) + len(m.body)]
        bounds += [base + x for x in hp + bp]
    return Case(msgs, [bounds[c] for c in cuts if c < len(bounds)], [hand(body=rng.choice([b"", b"x", b"hello world " * 9])) for _ in kinds],
                max=mx, fin=rng.choice(["eof", "eof", "silent", "rst"]))
