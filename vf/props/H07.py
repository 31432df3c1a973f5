"""H07: clients cannot bring the server down."""
import base64

from .. import core, srv
from ..drive import hx

PLAIN = [b"GET /echo HTTP/1.1\r\nHost: a\r\n\r\n",
         b"POST /post HTTP/1.1\r\nHost: a:80\r\nContent-Length: 12\r\n\r\nabcdefghijkl",
         b"GET /poke?a=b&c=%41&d=+&e HTTP/1.1\r\nHost: a:8080\r\nCookie: a=b; c=d\r\nAuthorization: Basic dTpw\r\nX-Echo: hey\r\n\r\n",
         b"POST /poke HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\nAccept-Encoding: gzip, br\r\n\r\nabcGET /echo HTTP/1.1\r\n\r\n",
         b"HEAD /big?v=100000 HTTP/1.1\r\nHost: a\r\nConnection: keep-alive\r\n\r\n",
         b"GET /throw HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /throwint HTTP/1.1\r\n\r\n", b"GET /null HTTP/1.1\r\n\r\n"]
NAMES = [b"Host", b"Authorization", b"Cookie", b"Content-Length", b"Connection", b"Accept-Encoding", b"Upgrade", b"Sec-WebSocket-Key", b"X-Echo", b"Transfer-Encoding", b"Expect",
         b"", b" ", b":", b"\x00", b"\xff\xfe", b"A" * 3000, b"Content-Type", b"Range"]
VALUES = [b"", b" ", b":", b"a:b", b"[::1]:80", b"a:99999999999", b"a:-1", b"::::", b"Basic", b"Basic ", b"Basic =", b"Basic ==", b"Basic ====", b"Basic a", b"Basic \xff\xff", b"Basic Og==",
          b"Basic " + base64.b64encode(b":"), b"Basic " + base64.b64encode(b"u" * 3000), b"Bearer x", b"=", b"=;=;", b"; ; ;", b"a", b"a=", b"=b", b"a=b; a=c; ", b";" * 500, b"-1", b"0", b"00", b"1e3",
          b"18446744073709551615", b"18446744073709551616", b"9223372036854775807", b"4294967296", b"0x10", b" 5", b"5 5", b"+5", b"close", b"keep-alive", b"upgrade", b",,,", b"gzip", b"br;q=0",
          b"websocket", b"WEBSOCKET", b"%", b"%%%", b"%zz", b"\x80\x81", b"\x00", b"x" * 9000, b"chunked", b"100-continue"]
TARGETS = [b"/", b"", b"*", b"//", b"/%", b"/%zz", b"/?", b"/?=", b"/?&&&", b"/?a=%", b"/?a=%4", b"/?%=%", b"/#", b"/?#", b"http://", b"http://a", b"http://a:b@c:d/e?f#g", b"://", b"/\\..\\..",
           b"/../../etc/passwd", b"/" + b"a" * 5000, b"/\x00", b"/\xff", b"?", b"#", b"/poke?a=%00&b=%ff", b"/poke?" + b"&".join(b"k%d=%d" % (i, i) for i in range(300))]
METHODS = [b"GET", b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS", b"TRACE", b"PATCH", b"CONNECT", b"", b"get", b"G\x00T", b"X" * 500, b" "]


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(7)
        i = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] = rng.randrange(256)
        elif k == 1:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))
        elif k == 2:
            del b[i:i + rng.randrange(1, 9)]
        elif k == 3:
            del b[i:]
        elif k == 4:
            b[i:i] = rng.choice([b"\r\n", b"\r\n\r\n", b"\n", b"\r", b":", b" ", b"\x00", b"%", b"=", b";"])
        elif k == 5:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)]
        else:
            b[i:i] = rng.choice(VALUES)
    return bytes(b)


def http(rng):
    k = rng.random()
    if k < .35:
        return mutate(rng, rng.choice(PLAIN))
    if k < .45:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 300, 5000])))
    if k < .5:
        return rng.choice([b"\r\n" * 500, b"\x00" * 3000, b"GET " * 2000, b"A: b\r\n" * 3000, b"\r\n\r\n", b" \r\n\r\n", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET / \r\n\r\n", b" / HTTP/1.1\r\n\r\n"])
    path = rng.choice([b"/poke", b"/echo", b"/post", b"/ws", b"/sse", b"/poke", rng.choice(TARGETS), b"/poke" + rng.choice(TARGETS)])
    head = rng.choice(METHODS if rng.random() < .2 else METHODS[:5]) + b" " + path + b" " + rng.choice([b"HTTP/1.1"] * 8 + [b"HTTP/1.0", b"HTTP/9", b"", b"HTTP/1.1 x"]) + b"\r\n"
    for _ in range(rng.randrange(0, 6)):
        head += rng.choice(NAMES) + rng.choice([b": ", b":", b" : ", b":\t"]) + rng.choice(VALUES) + b"\r\n"
    return head + b"\r\n" + rng.choice([b"", b"abc", b"x" * 6000])


def frame(rng):
    op = rng.choice([0, 1, 2, 8, 9, 10, rng.randrange(16)])
    b0 = op | (rng.random() < .7) * 0x80 | (rng.random() < .1) * rng.choice([0x10, 0x20, 0x40])
    n = rng.choice([0, 1, 5, 125, 126, 127, 200, 65535, 65536, 70000])
    mask = (rng.random() < .9) * 0x80
    claim = rng.choice([n] * 6 + [0, 1, 126, 65535, 1 << 20, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 14])
    if claim < 126 and rng.random() < .9:
        ln = bytes([mask | claim])
    elif claim < 65536 and rng.random() < .9:
        ln = bytes([mask | 126]) + claim.to_bytes(2, "big")
    else:
        ln = bytes([mask | 127]) + claim.to_bytes(8, "big")
    return bytes([b0]) + ln + (rng.randbytes(4) if mask else b"") + rng.randbytes(n)


def pieces(rng, b):
    out = []
    while b:
        n = rng.choice([len(b), len(b), 1, 2, 7, rng.randrange(1, len(b) + 1)])
        out.append(b[:n])
        b = b[n:]
        if len(out) > 12:
            out.append(b)
            break
    return [x for x in out if x]


def attack(rng, s, c):
    """one hostile client"""
    quiet = ["quiet=1"] + (["mute=1"] if rng.random() < .3 else []) + (["small=1"] if rng.random() < .2 else [])
    s.op("open", c, "a", *quiet)
    k = rng.randrange(6)
    if k <= 2:
        data = b"".join(http(rng) if rng.random() < .7 else rng.choice(PLAIN) for _ in range(rng.randrange(1, 5)))
    elif k == 3:
        head = srv.get(rng.choice(["/ws", "/ws", "/wsdrop", "/wsthrow"]), extra=srv.WS if rng.random() < .9 else mutate(rng, srv.WS))
        data = head + (b"" if rng.random() < .8 else frame(rng))
        for p in pieces(rng, data):
            s.op("tx", c, hx(p))
        s.op("sleep", 3000)
        data = b"".join(frame(rng) if rng.random() < .8 else mutate(rng, frame(rng)[:300]) for _ in range(rng.randrange(1, 6)))
    elif k == 4:
        data = srv.get(rng.choice(["/sse", "/sseloop", "/ssethrow"])) + (http(rng) if rng.random() < .3 else b"")
    else:
        data = srv.get("/big", v=rng.choice([100, 100000, 6000000])) * rng.randrange(1, 4)
    ps = pieces(rng, data)
    if rng.random() < .3:
        ps = ps[:rng.randrange(len(ps) + 1)]
    for p in ps:
        s.op("tx", c, hx(p))
        if rng.random() < .1:
            s.op("sleep", rng.choice([10, 200, 2000]))
    if rng.random() < .4:
        s.op("sleep", rng.choice([0, 50, 500, 3000]))
    if rng.random() < .85:
        s.op("bye", c, rng.choice(["close", "rst", "rst", "half"]))


def script(rng, lst):
    s = srv.Script(lax=True)
    o = dict(list=lst, rto=2000, sto=2000)
    if lst:
        o.update(max=0, fast=1)
    s.new("a", **o)
    s.op("seed", rng.randrange(1, 1 << 40))
    s.open("p")
    s.served("p")
    for i in range(rng.randrange(4, 12)):
        if rng.random() < .25:
            s.op("failaccept", rng.randrange(1, 4), rng.choice(["ECONNABORTED", "EINTR", "EMFILE", "EPROTO", "ENFILE"]))
            s.open(f"l{i}")
            s.op("hope", f"eof_l{i}", 30)
            s.op("failaccept", 0, "EINTR")
        attack(rng, s, f"x{i}")
        if rng.random() < .5:
            s.open(f"q{i}")
            s.served(f"q{i}")
            s.op("bye", f"q{i}", "close")
    s.open("z")
    s.served("z")
    if lst:
        for i in range(12):
            s.op("bye", f"x{i}", "close")
        s.op("bye", "p", "close")
        s.op("kill", "a")
        s.wait("killx a")
    return s


def run(ctx):
    rng = ctx.rng
    exe = core.build("srvdrv", ["srvdrv.cpp"], link=["-ldl"])
    asan = core.build("srvdrv", ["srvdrv.cpp"], "asan", link=["-ldl"])
    ctx.model("Server", "Server", timeout=3000)
    if not ctx.model("Server", "Server_threadfatal", expect_ok=False).violation:
        raise core.CheckError("the model does not tell threadfatal")
    env = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0")
    total = 0
    for name, e, k in (("sanitized server", asan, ctx.n(220, 6000)), ("server", exe, ctx.n(160, 4000))):
        for lst in (1, 0):
            cases = [script(rng, lst) for _ in range(k // 2)]
            srv.judge(ctx, e, cases, name, env=env, per=10)
            total += len(cases)
    ctx.notes.update(scripts=total)
    return ctx.finish()
