"""H08: translation of requests."""
import base64

from .. import core, http

SEG = [b"a", b"index.html", b"x%20y", b"..", b".", b"", b"caf\xc3\xa9", b"a;b=c", b"~u", b"a:b@c", b"A", b"(1)", b"'q'", b"%2F", b"=", b"&"]
QN = [b"a", b"b", b"Name", b"q", b"long-name", b"x.y", b"n%20m", b"u"]
QV = [b"1", b"v", b"a=b", b"http://x/?y", b"%41", b"a+b", b"c?d", b"?", b"x/y", b"==", b"", b"\xe9", b"a;b"]
HN = [b"X-One", b"x-two", b"Accept", b"USER-AGENT", b"Referer", b"x-one", b"X-ONE", b"Cookie", b"X-Empty", b"a", b"X_Under", b"X.dot"]
HV = [b"v", b"a b", b" lead", b"trail ", b"\ttab\t", b"", b"  ", b"a:b", b"a: b:c", b"x,y", b"q=1;w=2", b"\"quoted\"", b"\xff\xfe", b"v" * 500, b":", b"http://a/b?c#d"]
HOSTS = [b"localhost", b"localhost:8080", b"example.com:80", b"127.0.0.1:1", b"[::1]:8080", b"[::1]", b"[fe80::1%25eth0]:443", b"UPPER.case", b"a.b.c"]
CREDS = [b"user:pass", b"u:", b":p", b"u:p:q", b"u::", b"nocolon", b"us er:pa ss", b"\xc3\xa9:\xff", b"u:" + b"p" * 100, b"Aladdin:open sesame", b":", b"u:p="]


def target(rng):
    p = b"/" + b"/".join(rng.choice(SEG) for _ in range(rng.randrange(0, 5)))
    names, used = [], set()
    if rng.random() < .6:
        qs = []
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice(QN)
            if n.lower() in used:
                continue
            used.add(n.lower())
            names.append(n)
            x = rng.random()
            qs.append(n + b"=" + rng.choice(QV) if x < .85 else n if x < .95 else b"")
        p += b"?" + b"&".join(qs)
    if rng.random() < .15:
        p += b"#" + rng.choice([b"", b"frag", b"f?x=1", b"a/b"])
    return p, names


def rnd(rng, i):
    ms, names, params = [], [], []
    for k in range(rng.randrange(1, 4)):
        hs = []
        if rng.random() < .8:
            hs.append((rng.choice([b"Host", b"host", b"HOST"]), rng.choice(HOSTS)))
        if rng.random() < .4:
            c = base64.b64encode(rng.choice(CREDS))
            hs.append((b"Authorization", rng.choice([b"Basic ", b"basic ", b"BASIC ", b"Basic  "]) + c if rng.random() < .85 else b"Bearer " + c))
        for _ in range(rng.randrange(6)):
            hs.append((rng.choice(HN), rng.choice(HV)))
        rng.shuffle(hs)
        # the value is written with or without the customary space
        t, q = target(rng)
        b = rng.choice([None, None, rng.randbytes(rng.choice([1, 10, 300])), b"a=1&b=2", b"\0\0", b"\xff" * 3])
        m = http.request(rng.choice([b"GET", b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS", b"TRACE", b"PATCH", b"CONNECT"]), t, hs, b)
        if rng.random() < .4:
            m.head = m.head.replace(b": ", b":", rng.randrange(1, 4))
        ms.append(m)
        for n, _ in hs:
            names += [n.upper(), n.lower()]
        for n in q:
            params += [n, n.swapcase()]
    names += [b"x-absent", b"X-One"]
    params += [b"absent", b"A"]
    n = sum(len(m.wire) for m in ms)
    return http.Case(ms, http.cuts_of(rng, n, rng.choice([0, 2, 3, 4])), [http.hand(body=b"") for _ in ms], fin="eof", compress=False,
                     names=dict.fromkeys(names), params=dict.fromkeys(params), seed=i + 1)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    cases = [rnd(ctx.rng, i) for i in range(ctx.n(2500, 30000))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), requests=sum(e["e"] == "req" for t in tr for e in t["ev"]))
    return ctx.finish()
