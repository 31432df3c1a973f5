"""J01: JSON values."""
import itertools
import json

from .. import core, drive, pure
from ..sess import SLOTS

# values: None, True/False, int, bytes, list, dict (bytes keys)


def enc(v):
    if v is None:
        return ["n"]
    if v is True or v is False:
        return ["t" if v else "f"]
    if isinstance(v, int):
        return ["i%d" % v]
    if isinstance(v, bytes):
        return ["s" + drive.hx(v)]
    if isinstance(v, list):
        return ["a%d" % len(v)] + [x for y in v for x in enc(y)]
    return ["o%d" % len(v)] + [x for k in sorted(v) for x in [drive.hx(k)] + enc(v[k])]


def tla(v):
    if v is None:
        return dict(k="n")
    if v is True or v is False:
        return dict(k="b", b=v)
    if isinstance(v, int):
        return dict(k="i", i=list(str(v).encode()))
    if isinstance(v, bytes):
        return dict(k="s", s=list(v))
    if isinstance(v, list):
        return dict(k="a", a=[tla(x) for x in v])
    if isinstance(v, dict):
        return dict(k="o", o=[[list(k), tla(v[k])] for k in sorted(v)])
    return dict(k="odd")


class Odd:
    pass


def dec(w, i):
    t = w[i]
    i += 1
    c, x = t[0], t[1:]
    if c == "n":
        return None, i
    if c in "tf":
        return c == "t", i
    if c == "i":
        return int(x), i
    if c == "s":
        return drive.unhx(x), i
    if c == "a":
        r = []
        for _ in range(int(x)):
            v, i = dec(w, i)
            r.append(v)
        return r, i
    if c == "o":
        r = {}
        for _ in range(int(x)):
            k = drive.unhx(w[i])
            r[k], i = dec(w, i + 1)
        return r, i
    return Odd(), i


BITS = [b"a", b"\"", b"\\", b",", b":", b"[", b"]", b"{", b"}", b"\n", b"\r", b"\t", b"\b", b"\f", b"\0", b"\x1f", b"\x7f", b" ", b"/", b"\\n", b"\\\"", b"\\\\", b"\\u0041", b"null", b"\xc3\xa9",
        b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"'", b"`", b"<", b"}]", b"\",\"", b"\":", b"b" * 40, b"\x0b", b"\x01", b"\\/", b"=", b"1", b"-", b"e"]
INTS = [0, 1, -1, 7, -42, 10, 100, 2147483647, -2147483648, 65536, -65536, 1234567890]


def text(rng, n=6):
    return b"".join(rng.choice(BITS) for _ in range(rng.randrange(n)))


def value(rng, depth):
    x = rng.random()
    if depth == 0 or x < .25:
        return rng.choice([None, True, False, rng.choice(INTS), rng.randrange(-2 ** 31, 2 ** 31), text(rng), text(rng), b""])
    if x < .45:
        return text(rng)
    if x < .72:
        return [value(rng, depth - 1) for _ in range(rng.randrange(5))]
    return {text(rng, 4): value(rng, depth - 1) for _ in range(rng.randrange(5))}


def container(v):
    return isinstance(v, (list, dict)) and len(v) > 0


def path(rng, v):
    p = []
    while container(v) and (not p or rng.random() < .5):
        if isinstance(v, list):
            i = rng.randrange(len(v))
            p.append(b"x" * i)
            v = v[i]
        else:
            k = rng.choice(sorted(v))
            p.append(k)
            v = v[k]
    return p, v


def spell(rng, v):
    """a JSON text of the value in some standard spelling"""
    ws = lambda: rng.choice([b"", b"", b"", b" ", b"\n", b"\t", b"\r\n", b"  "])
    if v is None or v is True or v is False or isinstance(v, int):
        return json.dumps(v).encode()
    if isinstance(v, bytes):
        out = b""
        for c in v.decode():
            o = ord(c)
            if o < 32 or c in '"\\' or rng.random() < .15:
                short = {8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t", 34: b'\\"', 92: b"\\\\", 47: b"\\/"}
                if o in short and rng.random() < .7:
                    out += short[o]
                else:
                    us = [o] if o < 65536 else [0xD800 + ((o - 65536) >> 10), 0xDC00 + ((o - 65536) & 1023)]
                    out += b"".join(rng.choice([b"\\u%04x", b"\\u%04X"]) % u for u in us)
            else:
                out += c.encode()
        return b'"' + out + b'"'
    if isinstance(v, list):
        return b"[" + ws() + b",".join(ws() + spell(rng, x) + ws() for x in v) + b"]"
    ks = sorted(v)
    rng.shuffle(ks)
    return b"{" + ws() + b",".join(ws() + spell(rng, k) + ws() + b":" + ws() + spell(rng, v[k]) + ws() for k in ks) + b"}"


def ev(op, s="p", o="p", val=None, path=(), text=b""):
    e = dict(op=op, s=s)
    if op == "build":
        e["val"] = tla(val)
        e["_l"] = " ".join(["build", s] + enc(val))
    elif op == "parse":
        e["text"] = list(text)
        e["_l"] = f"parse {s} {drive.hx(text)}"
    elif op in ("copy", "assign"):
        e["o"] = o
        e["_l"] = f"{op} {s} {o}"
    elif op in ("part", "put"):
        e.update(o=o, path=[list(x) for x in path])
        e["_l"] = " ".join([op, s, o] + [drive.hx(x) for x in path])
    else:
        e["_l"] = f"{op} {s}"
    return e


def session(rng, n):
    st = dict.fromkeys(SLOTS)
    out = []
    for _ in range(n):
        s, o = rng.choice(SLOTS), rng.choice(SLOTS)
        x = rng.random()
        if x < .3:
            st[s] = value(rng, rng.randrange(4))
            out.append(ev("build", s, val=st[s]))
        elif x < .5:
            st[s] = value(rng, rng.randrange(4))
            out.append(ev("parse", s, text=rng.choice([b"", b" ", b"\n"]) + spell(rng, st[s]) + rng.choice([b"", b" ", b"\r\n"])))
        elif x < .65:
            st[s] = st[o]
            out.append(ev("copy" if s != o and rng.random() < .5 else "assign", s, o))
        elif x < .85 and container(st[o]):
            p, st[s] = path(rng, st[o])
            out.append(ev("part", s, o, path=p))
        elif container(st[s]):
            if isinstance(st[s], list):
                i = rng.randrange(len(st[s]))
                st[s] = st[s][:i] + [st[o]] + st[s][i + 1:]
                out.append(ev("put", s, o, path=[b"x" * i]))
            else:
                k = rng.choice(sorted(st[s]) + [text(rng, 3)])
                st[s] = {**st[s], k: st[o]}
                out.append(ev("put", s, o, path=[k]))
        else:
            continue
        if len(str(st[s])) > 1500:
            st[s] = None
            out.append(ev("build", s, val=None))
        out += [ev("dump", y) for y in SLOTS] + [ev("str", s), ev("rt", s)]
    return out


def cases(ctx):
    rng, out = ctx.rng, []
    one = lambda v: out.append([ev("build", "p", val=v), ev("str"), ev("rt"), ev("dump")])
    group = []
    for n in range(ctx.n(4, 5)):
        for x in itertools.product([b'"', b"\\", b",", b"]", b"\n", b"a"], repeat=n):
            group.append(b"".join(x))
    for v in group:
        one(v)
        one({v: None})
        one([v, {b"k": v}])
    for i in INTS + [rng.randrange(-2 ** 31, 2 ** 31) for _ in range(200)]:
        one(i)
        one([i, {b"n": i}])
    for c in list(range(128)):
        one(b"x" + bytes([c]) + b"y")
        one({bytes([c]): [bytes([c])]})
    for v in ([], {}, [[]], [{}], {b"": []}, {b"": {}}, [[], []], {b"a": [], b"b": {}}, [None], [[[[[[[[[[]]]]]]]]]], [b""], {b"": b""}, b"", [{}, [], {}]):
        one(v)
    for _ in range(ctx.n(500, 8000)):
        out.append(session(rng, rng.randrange(3, 14)))
    big = {b"k%d" % i: [b"x" * 300, {b"n": i}] for i in range(40)}
    one = [ev("build", "p", val=big), ev("build", "q", val=[big, b"y" * 1000]), ev("assign", "q", "p"), ev("assign", "p", "p"), ev("part", "p", "p", path=[b"k1"]), ev("copy", "q", "p")]
    none = [ev("build", x, val=None) for x in SLOTS]
    out.append(one + none + [ev("held")] + one * 150 + none + [ev("held")])
    return [c for c in out if c]


def res(line, mem):
    if line.startswith("n "):
        n = int(line[2:])
        return dict(k="n", before=mem.setdefault("held", n), after=n)
    if line.startswith("val "):
        return dict(k="val", val=tla(dec(line.split(" "), 1)[0]))
    return pure.res(line)


def record(exe):
    def f(cs):
        outs = pure.run(exe, [["reset"] + [e["_l"] for e in c] for c in cs])
        mems = [{} for _ in cs]
        return [[dict({k: v for k, v in e.items() if k != "_l"}, r=res(x, m)) for e, x in zip(c, out[1:])] for c, out, m in zip(cs, outs, mems)]
    return f


def run(ctx):
    exe = core.build("jsondrv", ["jsondrv.cpp"], variant="asan")
    ctx.model("JsonMC", "JsonMC" if ctx.quick else "JsonMC_deep", timeout=2400)
    ctx.model("JsonHeap", timeout=1200)
    for m, bug in [("JsonMC", b) for b in ("rawslash", "rawcontrol", "rawkey", "lookback", "nostrings", "emptyitem")] + [("JsonHeap", b) for b in ("freefirst", "share", "leak")]:
        if not ctx.model(m, m + "_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)

    def describe(c, t, at):
        i = min(at or 1, len(c)) - 1
        r = t[i]["r"] if i < len(t) else {}
        prev = ", ".join(e["_l"][:120] for e in c[max(0, i - 3):i])
        return "JSON, after %s: %s gave %.200r" % (prev, c[i]["_l"][:200], bytes(r["v"]) if r.get("k") == "v" else r)
    tr = pure.judge(ctx, "JsonTrace", cs, record(exe), None, describe)
    ctx.sample(tr[5])
    ctx.sample(tr[-1][:6])
    ctx.notes.update(cases=len(cs), calls=sum(len(c) for c in cs))
    return ctx.finish()
