"""G01: compression codecs."""
import os
import random
import shutil
import zlib

from .. import core, http, pure, sess

CH = 131072


def datas(rng):
    """name -> bytes"""
    R = random.Random(5).randbytes(700000)
    d = {"empty": b"", "one": b"a", "hello": b"hello hello hello", "nul": b"\0", "bytes": bytes(range(256)), "r1000": R[:1000], "r5000": R[:5000], "z9000": b"\0" * 9000,
         "text": b"".join(b"line %d of some text\r\n" % i for i in range(3000)), "rbig": R[:CH + 17], "rbig2": R[:2 * CH], "rbig3": R[:3 * CH + 1],
         "zbig": b"ab" * CH, "zhuge": b"\0" * (8 * CH), "mix": R[:CH] + b"\0" * (5 * CH) + R[:CH], "gz": zlib.compress(R[:3000])}
    for n in (1, 2, 17):
        d[f"r{CH}-{n}"], d[f"r{CH}+{n}"] = R[:CH - n], R[:CH + n]
    d[f"r{CH}"] = R[:CH]
    return d


def refz(data, level, wbits, flushes=(), mode=zlib.Z_SYNC_FLUSH):
    c = zlib.compressobj(level, zlib.DEFLATED, wbits)
    out, last = b"", 0
    for f in sorted(x for x in flushes if x < len(data)):
        out += c.compress(data[last:f]) + c.flush(mode)
        last = f
    return out + c.compress(data[last:]) + c.flush()


def aligned(k, rest, wbits=31):
    """A stream whose first 128K bytes give exactly k*128K bytes of data, and its data."""
    R = random.Random(k).randbytes(CH)
    for n in range(100000, 100060):
        first = R[:n] + b"\0" * (k * CH - n)
        c = zlib.compressobj(6, zlib.DEFLATED, wbits)
        z = c.compress(first) + c.flush(zlib.Z_SYNC_FLUSH)
        pad = CH - len(z)
        if pad >= 0 and pad % 5 == 0:
            # empty stored blocks
            return z + b"\0\0\0\xff\xff" * (pad // 5) + c.compress(rest) + c.flush(), first + rest
    raise core.CheckError("no aligned stream")


class Bench:
    def __init__(self, ctx, exe):
        self.dir = core.scratch("gz-")
        self.ctx, self.exe, self.rng = ctx, exe, ctx.rng
        self.data = datas(ctx.rng)
        for n, b in self.data.items():
            self.write("D" + n, b)
        self.streams, self.k, self.runs = [], 0, 0

    def write(self, name, b):
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(b)

    def stream(self, z, data, bad=False):
        """a compressed stream -> its index"""
        i = len(self.streams)
        self.write(f"S{i}", z)
        self.streams.append((z, data, bad))
        return i

    def out(self):
        self.k += 1
        return f"o{self.k}"

    def record(self, cases):
        """cases: lists of (line, event or None, after)"""
        self.runs += 1
        pre = f"x{self.runs}-"
        cs = [[("reset", None, None)] + c(pre) if callable(c) else [("reset", None, None)] + c for c in cases]
        outs = pure.run(self.exe, [[x[0] for x in c] for c in cs], timeout=600, cwd=self.dir, env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16"})
        tr = []
        for c, o in zip(cs, outs):
            ev, mem = [], {}
            for (line, e, after), r in zip(c, o):
                if e is None:
                    continue
                e = dict(e)
                if e["op"] == "cout":
                    after(e, mem)
                else:
                    w = r.split(" ")
                    e["r"] = w[0]
                    if after:
                        after(e, int(w[1]) if w[0] == "n" else 0, mem)
                ev.append(e)
            tr.append(ev)
        for f in os.listdir(self.dir):
            if f.startswith(pre):
                os.unlink(os.path.join(self.dir, f))
        return tr

    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return b""

    # ---------------------------------------------------------------- one-shot
    def oneshot(self, kind, q, name):
        def make(pre):
            a, b = pre + self.out(), pre + self.out()

            def after(e, n, mem):
                z, x = self.read(a), self.data[name]
                if not x:
                    e["ref"] = z == b""      # nothing stands for nothing, in both directions
                elif kind == "br":
                    e["ref"] = http.unbrotli(z) == x
                else:
                    try:
                        o = zlib.decompressobj({"gzip": 31, "deflate": 15, "raw": -15}[kind])
                        e["ref"] = o.decompress(z) == x and o.eof and not o.unused_data
                    except zlib.error:
                        e["ref"] = False
                e["back"] = "unsupported"
                mem["e"] = e

            def back(e, n, mem):
                e["same"] = self.read(b) == self.data[name]
            c = [(f"comp {kind} {q} D{name} {a}", dict(op="one", s="p", what=f"{kind} level {q} of {name}"), after)]
            if kind != "raw":
                c.append((f"dec {'br' if kind == 'br' else 'z'} {a} {b}", dict(op="undo", s="p", bad=False, what=f"own {kind} level {q} of {name}"), back))
            return c
        return make

    def undo(self, i, br=False):
        z, data, bad = self.streams[i]

        def make(pre):
            b = pre + self.out()

            def after(e, n, mem):
                e["same"] = self.read(b) == data
            return [(f"dec {'br' if br else 'z'} S{i} {b}", dict(op="undo", s="p", bad=bad, what=f"{'damaged ' if bad else ''}stream of {len(z)} for {len(data)} bytes"), after)]
        return make

    # ---------------------------------------------------------------- streams
    def session(self, calls):
        """calls: (op, s, o, fin, how) with how: for feeds the piece size, for new/reset the data or stream to use"""
        def make(pre):
            out = []
            C, D = {}, {}
            for op, s, o, fin, how in calls:
                e = dict(op=op, s=s, o=o)
                if op in ("cnew", "creset"):
                    name, q = how
                    if op == "creset":
                        q = C[s]["q"]
                    C[s] = dict(name=name, q=q, pos=0, file=pre + self.out(), fed=[], ended=False)
                    out.append((f"cnew {s} {q}" if op == "cnew" else f"creset {s}", e, None))
                elif op == "cfeed":
                    x = C[s]
                    n = min(how, len(self.data[x["name"]]) - x["pos"])
                    e.update(n=n, fin=fin)
                    a = x["pos"]
                    if not x["ended"]:
                        x["pos"] += n
                        x["fed"].append((a, a + n))
                    x["ended"] |= fin
                    out.append((f"cfeed {s} D{x['name']} {a} {a + n} {'1' if fin else self.rng.choice('0d')} {x['file']}", e, None))
                elif op == "cend":
                    C[s]["ended"] = True
                    out.append((f"cend {s} {C[s]['file']}", e, None))
                elif op in ("cmove", "cmassign"):
                    C[s] = C.pop(o)
                    out.append((f"{op} {s} {o}", e, None))
                elif op == "cout":
                    x = C[s]
                    file, fed = x["file"], b"".join(self.data[x["name"]][a:b] for a, b in x["fed"])

                    def after(e, mem, file=file, fed=fed):
                        z = self.read(file)
                        try:
                            dz = zlib.decompressobj(31)
                            got = dz.decompress(z)
                            e.update(complete=dz.eof and not dz.unused_data, same=fed.startswith(got), got=len(got))
                        except zlib.error:
                            e.update(complete=False, same=False, got=0)
                    # the output is looked at once the whole case has run: only the last one of a file is telling
                    out.append((f"reset-none", e, after))
                elif op in ("dnew", "dreset"):
                    D[s] = dict(i=how, pos=0, file=pre + self.out(), key=object(), done=False)
                    out.append((f"{op} {s}", e, None))
                elif op == "dfeed":
                    x = D[s]
                    z, data, bad = self.streams[x["i"]]
                    n = min(how, len(z) - x["pos"])
                    e.update(n=n, zlen=len(z), dlen=len(data), bad=bad)

                    def after(e, k, mem, x=x, data=data):
                        off = mem.get(id(x), 0)
                        e.update(got=k, same=self.read(x["file"])[off:off + k] == data[off:off + k])
                        mem[id(x)] = off + k
                    out.append((f"dfeed {s} S{x['i']} {x['pos']} {x['pos'] + n} {x['file']}", e, after))
                    x["pos"] += n
                elif op == "ddone":
                    x = D[s]
                    z, data, bad = self.streams[x["i"]]
                    e.update(zlen=len(z), dlen=len(data), bad=bad)
                    out.append((f"ddone {s}", e, None))
                elif op in ("dmove", "dmassign"):
                    D[s] = D.pop(o)
                    out.append((f"{op} {s} {o}", e, None))
            return out
        return make


def held(k):
    """200 streams that are used and then moved over one another"""
    def make(pre):
        f = pre + "h"
        mk = [f"{k}new p 6", f"{k}new q 6"]
        use = [f"cfeed p Dr1000 0 1000 0 {f}"] if k == "c" else [f"dfeed p S0 0 500 {f}"]
        one = mk + use + [f"{k}massign p q", f"{k}new q 6", f"{k}move r q", f"{k}massign p r"]
        lines = one * 5 + ["reset", "held"] + one * 200 + ["reset", "held"]
        first = lines.index("held")

        def before(e, n, mem):
            mem["held"] = e["after"] = e["before"] = n

        def after(e, n, mem):
            e.update(before=mem["held"], after=n)
        return [(l, dict(op="held", s="p") if l == "held" else None, before if i == first else after if l == "held" else None) for i, l in enumerate(lines)]
    return make


def run(ctx):
    exe = core.build("gzdrv", ["gzdrv.cpp"], variant="asan")
    ctx.model("PumpMC", timeout=600)
    for bug in ("buferr", "untilinput", "once", "everdone"):
        if not ctx.model("PumpMC", "PumpMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    b = Bench(ctx, exe)
    try:
        return go(ctx, b)
    finally:
        shutil.rmtree(b.dir, ignore_errors=True)


def go(ctx, b):
    rng = ctx.rng
    cases = []
    # ---- one-shot, own compressor
    R = random.Random(9).randbytes(3 * CH)
    for n in list(range(CH - 45, CH + 3, 1 if not ctx.quick else 3)) + [2 * CH - 40 + i for i in range(0, 40, 2 if not ctx.quick else 8)]:
        b.data[f"s{n}"] = R[:n]
        b.write(f"Ds{n}", R[:n])
        cases += [b.oneshot("gzip", 0, f"s{n}"), b.oneshot("br", 0, f"s{n}")]
    for name, d in list(b.data.items()):
        if name.startswith("s"):
            continue
        for kind in ("gzip", "deflate", "raw", "br"):
            for q in (range(10) if len(d) < CH // 2 or not ctx.quick else [0, 1, 6, 9]):
                if ctx.quick and kind == "br" and q > 6 and len(d) > CH:
                    continue
                cases.append(b.oneshot(kind, q, name))
    # ---- one-shot, reference streams, whole and damaged
    good = []
    for k in (1, 2, 3):
        for rest in (b"", b"tail", R[:CH + 5], b"\0" * (3 * CH)):
            for wb in (31, 15):
                good.append(b.stream(*aligned(k, rest, wb)))
    for name, d in b.data.items():
        if not d or (name.startswith("s") and rng.random() < .8):
            continue
        for wb in (31, 15):
            fl = sorted(rng.randrange(len(d)) for _ in range(rng.randrange(4)))
            good.append(b.stream(refz(d, rng.choice([0, 1, 6, 9]), wb, fl, rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH])), d))
    small = [i for i in good if len(b.streams[i][0]) < 30000]
    bad = []
    for _ in range(ctx.n(300, 3000)):
        z, d, _x = b.streams[rng.choice(small if rng.random() < .8 else good)]
        z = bytearray(z)
        if rng.random() < .5:
            z = z[:rng.choice([rng.randrange(1, len(z)), len(z) - 1, len(z) - rng.randrange(1, min(9, len(z)))])]
        else:
            at = rng.choice([rng.randrange(len(z)), len(z) - 1 - rng.randrange(min(8, len(z)))])
            z[at] ^= 1 << rng.randrange(8)
        bad.append(b.stream(bytes(z), d, True))
    cases += [b.undo(i) for i in good + bad]
    # more than a whole window of data: the decoder gives some of it away before the end
    b.data["swide"] = R * 12 + b"\0" * CH + R[:CH]
    b.write("Dswide", b.data["swide"])
    cases += [b.oneshot("br", 1, "swide"), b.oneshot("gzip", 1, "swide")]
    for name in ("hello", "r5000", "text", "rbig2", "mix", "swide"):
        # brotli has no check sum: only the end of the stream is its own
        i = b.k
        data = b.data[name]
        pure.run(b.exe, [[f"comp br 5 D{name} t"]], cwd=b.dir)
        z = b.read("t")
        if http.unbrotli(z) != data:
            continue
        for cut in {1, 2, len(z) // 2, len(z) - 1, max(1, len(z) - 2)} | {rng.randrange(1, len(z)) for _ in range(10 if name != "swide" else 2)}:
            if 0 < cut < len(z):
                cases.append(b.undo(b.stream(z[:cut], data, True), br=True))
    ones = len(cases)
    for k in ("c", "d"):
        cases.append(held(k))
    # ---- life cycles: every call in every state of the model
    walks, edges = sess.generated(ctx, "StreamGen", 40)
    sm = [n for n, d in b.data.items() if 0 < len(d) < 70000]
    for w in walks:
        calls = []
        for s in ("p", "q"):
            calls += [("cnew", s, "", False, (rng.choice(sm), rng.randrange(10))), ("dnew", s, "", False, rng.choice(small))]
        pend = {s: dict(k=calls[1 + 2 * n][4], fed=0) for n, s in enumerate("pq")}
        cname = {s: dict(name=calls[2 * n][4][0], fed=0) for n, s in enumerate("pq")}
        for e in w:
            op, s, o = e["op"], e["s"], e["o"]
            how = None
            if op in ("cnew", "creset"):
                how = (rng.choice(sm), rng.randrange(10))
                cname[s] = dict(name=how[0], fed=0)
            elif op == "cfeed":
                x = cname[s]
                x["fed"] += 1
                n = len(b.data[x["name"]])
                how = n // 2 if x["fed"] == 1 else n
            elif op in ("cmove", "cmassign"):
                calls.append(("cout", s, "", False, None)) if op == "cmassign" else None
                cname[s] = cname.pop(o)
            elif op in ("dnew", "dreset"):
                how = rng.choice(small)
                pend[s] = dict(k=how, fed=0)
            elif op == "dfeed":
                x = pend[s]
                x["fed"] += 1
                n = len(b.streams[x["k"]][0])
                how = n // 2 if x["fed"] == 1 else n
            elif op in ("dmove", "dmassign"):
                pend[s] = pend.pop(o)
            if op == "creset":
                calls.append(("cout", s, "", False, None))
            calls.append((op, s, o, e["fin"], how))
            if op[0] == "d":
                calls.append(("ddone", s, "", False, None))
        for s in list(cname):
            calls += [("cout", s, "", False, None)]
        cases.append(b.session(calls))
    # ---- chunkings
    names = [n for n in b.data if not n.startswith("s")]
    sizes = [0, 1, 2, 3, 7, 18, 19, 100, 1000, 4096, 65536, CH - 1, CH, CH + 1, 2 * CH, 10 ** 9]
    for k in range(ctx.n(220, 3000)):
        name = rng.choice(names)
        n = len(b.data[name])
        calls = [("cnew", "p", "", False, (name, rng.choice([0, 1, 6, 6, 9])))]
        for rep in range(rng.choice([1, 1, 2])):
            pos = 0
            fin = rng.random() < .5
            tiny = n < 2000 and rng.random() < .3
            while pos < n and len(calls) < 150:
                c = rng.choice([1, 2, 50] if tiny else sizes) if len(calls) < 120 else n
                pos += c
                calls.append(("cfeed", "p", "", fin and pos >= n, c))
            if not (fin and pos >= n and n):
                calls.append(("cfeed", "p", "", True, 0) if rng.random() < .2 else ("cend", "p", "", False, None))
            calls.append(("cout", "p", "", False, None))
            if rep == 0 and rng.random() < .5:
                name = rng.choice(names)
                n = len(b.data[name])
            calls.append(("creset", "p", "", False, (name, 0)))
        cases.append(b.session(calls[:-1]))
    for k in range(ctx.n(260, 3000)):
        i = rng.choice(good if rng.random() < .55 else bad)
        if k < 24:
            i = good[k]
        calls = [("dnew", "p", "", False, i)]
        for rep in range(rng.choice([1, 1, 2])):
            n, pos = len(b.streams[i][0]), 0
            tiny = n < 2000 and rng.random() < .4
            lim = len(calls) + 60
            while pos < n:
                c = CH if k < 24 else rng.choice([1, 2, 5] if tiny else sizes)
                if len(calls) > lim:
                    c = n
                pos += c
                calls.append(("dfeed", "p", "", False, c))
                if rng.random() < .4 or pos >= n:
                    calls.append(("ddone", "p", "", False, None))
            if rng.random() < .3:
                calls.append(("dfeed", "p", "", False, 5))
            i = rng.choice(small if rng.random() < .7 else bad)
            calls.append(("dreset", "p", "", False, i))
        cases.append(b.session(calls[:-1]))

    def describe(c, t, at):
        e = t[min(at or 1, len(t)) - 1]
        return "compression: " + (e.get("what", "") or "after %s" % ", ".join(x["op"] for x in t[max(0, (at or 1) - 6):(at or 1) - 1])) + ": %s" % {k: v for k, v in e.items() if k not in ("o", "what")}
    tr = pure.judge(ctx, "StreamTrace", cases, b.record, None, describe)
    ctx.sample(tr[0])
    ctx.sample(tr[-1][:12])
    ctx.notes.update(oneshot=ones, edges=edges, walks=len(walks), sessions=len(cases) - ones, streams=len(b.streams), calls=sum(len(t) for t in tr))
    return ctx.finish()
