"""H03: malformed and oversized requests."""
from .. import core, http


def good(rng, i, mx):
    b = bytes(rng.choice(b"ab\r\n") for _ in range(rng.choice([0, 1, 10, 100]))) if rng.random() < .4 else None
    return http.request(rng.choice([b"GET", b"POST", b"PUT"]), b"/g%d" % i, [(b"Host", b"h")][:rng.randrange(2)], b)


STARTS = [b"GET /", b"GET", b"GET  HTTP/1.1", b"GET / HTTP/1.1 more", b"GET /a b HTTP/1.1", b"/ HTTP/1.1", b"GET  / HTTP/1.1",
          b"GET / FTP/1.1", b"GET / http", b" GET / HTTP/1.1", b"FETCH / HTTP/1.1", b"GETT / HTTP/1.1",
          b"G / HTTP/1.1", b"PROPFIND / HTTP/1.1", b"HTTP/1.1 200 OK", b"GET\t/\tHTTP/1.1", b"GET / 1.1", b"GE\0T / HTTP/1.1",
          b"\x16\x03\x01\x02 / HTTP/1.1", b"PRI * HTTP/2.0", b"GET,POST / HTTP/1.1"]
FIELDS = [b"nocolon", b": value", b"  : value", b" folded", b":", b"X", b"Host localhost", b"\t: x", b"\xff\xfe"]
LENGTHS = [b"abc", b"-1", b"-0", b"+5", b"1 2", b"0x10", b"12abc", b"5,5", b"5, 6", b"1.5", b"1e3", b"five", b"\xb2", b"99999999999999999999",
           b"18446744073709551616", b"18446744073709551615", b"9223372036854775808", b"4294967296", b"4294967301", b"300000", b"0x"]


def bad(rng, mx):
    """one message that must not be served"""
    k = rng.randrange(9)
    m = rng.choice([b"GET", b"POST", b"HEAD"])
    tail = rng.choice([b"", b"Host: x\r\n", b"X-A: b\r\nConnection: keep-alive\r\n"])
    if k == 0:
        return http.Msg(rng.choice(STARTS) + b"\r\n" + tail + b"\r\n")
    if k == 1:
        f = [rng.choice(FIELDS)] + tail.split(b"\r\n")[:-1]
        rng.shuffle(f)
        return http.Msg(m + b" / HTTP/1.1\r\n" + b"".join(x + b"\r\n" for x in f) + b"\r\n")
    if k == 2:
        return http.Msg(m + b" / HTTP/1.1\r\n" + tail + b"Content-Length: " + rng.choice(LENGTHS) + b"\r\n\r\n")
    if k == 3:
        a, b = rng.choice([(b"5", b"6"), (b"0", b"5"), (b"5", b"0"), (b"5", b"x"), (b"x", b"5"), (b"3", b"03")])
        return http.Msg(m + b" / HTTP/1.1\r\nContent-Length: " + a + b"\r\n" + tail + b"content-length: " + b + b"\r\n\r\n")
    if k == 4:
        return http.Msg(m + b" / HTTP/1.1\r\n" + tail + b"Transfer-Encoding: " + rng.choice([b"chunked", b"gzip, chunked", b"identity"]) + b"\r\n\r\n")
    if k == 5:       # declared body beyond the limit
        head = m + b" /big HTTP/1.1\r\n" + tail + b"Content-Length: %d\r\n\r\n"
        n = mx - len(head) + rng.choice([1, 2, 3, 4, 10, 1000, mx])
        while len(head % n) + n <= mx:
            n += 1
        return http.Msg(head % n)
    if k == 6:       # a complete header beyond the limit
        r = m + b" /long HTTP/1.1\r\n" + tail + b"X-Pad: "
        return http.Msg(r + b"p" * (mx + rng.choice([1, 2, 3, 4, 50]) - len(r) - 4) + b"\r\n\r\n")
    if k == 7:       # a header that never ends
        r = m + b" /endless HTTP/1.1\r\n" + tail
        while len(r) <= mx + 5000:
            r += b"X-%d: %s\r\n" % (len(r), b"e" * rng.choice([10, 1000]))
        return http.Msg(r)
    return http.Msg(rng.choice(STARTS)[:rng.randrange(1, 20)].replace(b" ", b"") + b"\r\n\r\n")


def edge(rng, mx):
    """exactly at the limit"""
    if rng.random() < .5:
        head = b"POST /edge HTTP/1.1\r\nContent-Length: %d\r\n\r\n"
        n = mx - len(head % (mx - 50))
        while len(head % n) + n < mx:
            n += 1
        while len(head % n) + n > mx:
            n -= 1
        return http.Msg(head % n, bytes(rng.choice(b"e\r\n") for _ in range(n)))
    r = b"GET /edge HTTP/1.1\r\nX-Pad: "
    return http.Msg(r + b"p" * (mx - len(r) - 4) + b"\r\n\r\n")


def rnd(rng, i):
    mx = rng.choice([300, 300, 500, 2048, 2100, 4096, 4097])
    ms = [edge(rng, mx) if rng.random() < .3 else good(rng, k, mx) for k in range(rng.randrange(0, 5))]
    if rng.random() < .85:
        ms.append(bad(rng, mx))
        if ms[-1].head.endswith(b"\r\n\r\n"):
            for k in range(rng.randrange(3)):
                ms.append(good(rng, 90 + k, mx))
    if not ms:
        ms = [edge(rng, mx)]
    n = sum(len(m.wire) for m in ms)
    return http.Case(ms, http.cuts_of(rng, n), [], fin=rng.choice(["eof", "eof", "rst", "silent"]), max=mx, compress=rng.random() < .2,
                     threads=rng.random() < .3, err=rng.choice(["plain", "html", "json"]), seed=i + 1)


def run(ctx):
    exe = core.build("httpdrv", ["httpdrv.cpp"])
    ctx.model("HttpConn", "HttpConn" if ctx.quick else "HttpConn_deep", timeout=3000)
    if not ctx.model("HttpConn", "HttpConn_countall", expect_ok=False).violation:
        raise core.CheckError("the model does not tell countall")
    keys, edges = http.graph_cases(ctx, 100000)
    keys = [k for k in keys if "bad" in k[0] or "big" in k[0]]
    keys = ctx.rng.sample(keys, min(len(keys), ctx.n(500, 100000)))
    cases = [http.concrete(ctx.rng, *k) for k in keys]
    cases += [rnd(ctx.rng, i) for i in range(ctx.n(1800, 20000))]
    tr = http.judge(ctx, exe, cases)
    ctx.notes.update(connections=len(cases), refusals=sum(e["e"] == "resp" and e["code"] in (400, 413, 501) for t in tr for e in t["ev"]))
    return ctx.finish()
