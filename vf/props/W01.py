"""W01: websocket handshake."""
import base64

from .. import core, ws


def case(rng, i):
    method, upgrade, key, extra = b"GET", rng.choice([b"websocket", b"WebSocket", b"WEBSOCKET", b"websockeT"]), ws.KEY, []
    k = rng.randrange(4)
    if k == 0:
        key = base64.b64encode(rng.randbytes(16))
    elif k == 1:
        key = bytes(rng.choice(b"abcXYZ019+/=_-~!") for _ in range(rng.choice([1, 2, 3, 18, 19, 20, 24, 27, 28, 29, 60, 83, 84, 92, 93, 200])))
    bad = rng.choice(["", "", "method", "upgrade", "key", "early"])
    body = None
    if bad == "method":
        method = rng.choice([b"POST", b"PUT", b"DELETE", b"OPTIONS", b"PATCH"])
        body = b""
    elif bad == "upgrade":
        upgrade = rng.choice([None, b"h2c", b"websocke", b"websockets", b"web socket", b"socket"])
    elif bad == "key":
        key = None
    for _ in range(rng.randrange(3)):
        extra.append(rng.choice([(b"Sec-WebSocket-Version", b"13"), (b"Origin", b"http://a"), (b"X-Upgrade", b"websocket"), (b"Accept-Encoding", b"gzip, br"),
                                 (b"Sec-WebSocket-Protocol", b"chat"), (b"Key", b"value")]))
    head = ws.handshake(method, upgrade, key, extra, body)
    names = {b"Upgrade": rng.choice([b"Upgrade", b"upgrade", b"UPGRADE"]), b"Sec-WebSocket-Key": rng.choice([b"Sec-WebSocket-Key", b"sec-websocket-key"])}
    for a, b in names.items():
        head = head.replace(b"\r\n" + a + b": ", b"\r\n" + b + rng.choice([b": ", b":", b":  "]))
    fs = ws.stream(rng, rng.randrange(1, 4), controls=False) if bad != "" or rng.random() < .5 else []
    early = 0
    if bad == "early":
        early = rng.randrange(1, 1 + min(200, sum(len(f.wire) for f in fs)))
    if bad not in ("", "early"):
        fs = []
    n = len(head)
    hc = [] if rng.random() < .5 else [rng.randrange(1, n) for _ in range(3)] if rng.random() < .7 else range(1, n)
    return ws.Case(fs, [], head=head, headcuts=hc, early=early, catch=rng.random() < .3, threads=rng.random() < .3, rng=rng, seed=i,
                   prog=["drain"] if rng.random() < .8 else ["close:1000", "drain"])


def run(ctx):
    exe = core.build("wsdrv", ["wsdrv.cpp"], link=("-lz",))
    ctx.model("WsHandshake")
    for bug in ("early", "method", "late", "mode"):
        if not ctx.model("WsHandshake", "WsHandshake_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cases = [case(ctx.rng, i) for i in range(ctx.n(1200, 20000))]
    tr = ws.judge(ctx, exe, cases, "handshake")
    ctx.notes.update(handshakes=len(cases), events=sum(len(t["ev"]) for t in tr))
    return ctx.finish()
