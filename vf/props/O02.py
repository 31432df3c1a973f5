"""O02: the log of a server tells what happened on its connections, once and nothing else."""
import concurrent.futures as cf
import os
import re
import socket
import struct
import subprocess
import tempfile
import time

from .. import core, pure, srv
from ..drive import unhx

WSH = srv.WS
STEP = dict(ok="plain", slow="plain", none="plain", throw="crash", throwint="crash", sse="sse", ssethrow="ssecrash", ws="ws",
            wsthrow="wscrash", badws="refused", caught="caught", lost="lost")
ENDS = ("sse", "ssethrow", "ws", "wsthrow", "badws", "lost")
PATHS = [b"/", b"/a/b.txt", b"/a%0ab", b"/*", b"/-->", b"/x%20-->%20200", b"/" + b"p" * 300, b"/\xc3\xa9", b"//", b"/[1](2)"]
ODD = [b"/a\nb", b"/\n[Service]", b"/\r", b"/a\rb\n", b"/\x1b[31m", b"/\x7f", b"/\x00z", b"/\x0b\n\n", b"\n", b"/x\n[00000000]\t(1.2.3.4)\tGET\t/\t-->\t200\n"]
METHODS = [b"GET", b"POST", b"get", b"DELETE", b"Put", b"OPTIONS", b"HEAD"]
BROKEN = [b"\r\n\r\n", b"GET\r\n\r\n", b"GET / HTTP/1.1\r\nnocolon\r\n\r\n", b"GET / HTTP/1.1\r\n: x\r\n\r\n", b"FOO / HTTP/1.1\r\n\r\n",
          b"G\nET / HTTP/1.1\r\n\r\n", b"A\n[Transport]\tx\t(127.0.0.1)\tclosed\n / HTTP/1.1\r\n\r\n", b"\x1b[2J / HTTP/1.1\r\n\r\n", b"GET / FTP/1\r\n\r\n", b"GET /\nx y HTTP/1.1\r\n\r\n",
          b"GET / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", b"POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n",
          b"POST / HTTP/1.1\r\nContent-Length: 99999\r\n\r\n", b"GET /" + b"a" * 5000 + b" HTTP/1.1\r\n\r\n"]


def case(ctx):
    rng = ctx.rng
    o = dict(t=rng.randrange(2), r=int(rng.random() < .75), s=rng.randrange(2), stop=rng.randrange(2), list=rng.randrange(2),
             buf=rng.choice(["full", "line", "none"]), err=rng.choice(["plain", "html"]))
    conns = []
    for i in range(rng.choice([1, 2, 5, 12])):
        steps = []
        for _ in range(rng.choice([0, 1, 1, 2, 4, 9])):
            v = rng.choice(["ok"] * 6 + ["slow", "none", "throw", "throw", "throwint", "sse", "ssethrow", "ws", "wsthrow", "badws", "caught"] + ["lost"] * (rng.random() < .3))
            p = rng.choice(PATHS if rng.random() < .7 else ODD)
            m = b"GET" if v in ("ws", "wsthrow", "sse", "ssethrow") else rng.choice(METHODS)
            if v in ("badws",) and rng.random() < .5:
                m = b"POST"
            steps.append(dict(v=v, p=p, m=m, n=rng.choice([0, 0, 0, 1, 40, 3000]), code=rng.choice(["200", "200", "204", "301", "404", "503"]),
                              upg=v == "badws" and rng.random() < .5))
            if v in ENDS:
                break
        end = "done" if steps and steps[-1]["v"] in ENDS else rng.choice(["close", "close", "connclose", "broken", "half", "reset", "body"])
        if end == "connclose" and not steps:
            end = "close"
        conns.append(dict(host=f"127.0.0.{rng.randrange(1, 9)}", steps=steps, end=end, bad=rng.choice(BROKEN), pipe=rng.random() < .15))
    return dict(o=o, conns=conns, seed=rng.randrange(1 << 20))


def play(port, c, ci):
    """One client. Fills in what it saw."""
    s = socket.socket()
    s.settimeout(30)
    s.bind((c["host"], 0))
    s.connect(("127.0.0.1", port))
    me = dict(host=c["host"], port=s.getsockname()[1], cid="", steps=[], fin="closed", heard=True, last=[])
    buf = b""

    def more():
        nonlocal buf
        try:
            x = s.recv(65536)
        except ConnectionError:
            x = b""
        buf += x
        return x

    def answer(head):
        nonlocal buf
        while b"\r\n\r\n" not in buf:
            if not more():
                return None
        h, _, rest = buf.partition(b"\r\n\r\n")
        m = re.search(rb"\r\ncontent-length: *(\d+)", h, re.I)
        need = int(m.group(1)) if m and not head else 0
        if h[9:12] in (b"204", b"304", b"101"):
            need = 0
        while len(rest) < need:
            if not more():
                return None
            rest = buf.partition(b"\r\n\r\n")[2]
        buf = rest[need:]
        return h

    def seen(h):
        """what a response says about where and when it comes from"""
        f = [ln.partition(b":") for ln in h.split(b"\r\n")[1:]]
        get = lambda k: [v.strip() for n, _, v in f if n.strip().lower() == k]
        return dict(xid=[v.decode("latin-1") for v in get(b"x-request-id")], date=[list(v) for v in get(b"date")], t1=int(time.time()))
    t0 = int(time.time())
    msgs = []
    for k, st in enumerate(c["steps"]):
        tag = f"{ci}.{k}"
        v = st["v"]
        q = b"?t=%s&v=%s" % (tag.encode(), {"ok": st["code"], "badws": "ws", "lost": "slow"}.get(v, v).encode())
        if st["n"]:
            q += b"&n=%d" % st["n"]
        if st.get("own"):
            q += b"&h=" + st["own"]
        h = b"X-Request-ID: %s\r\n" % st["xid"] if st.get("xid") else b""
        if v in ("ws", "wsthrow"):
            h += WSH
        elif v == "badws" and st["upg"]:
            h += WSH.replace(b"Sec-WebSocket-Key", b"X-Key") if st["m"].upper() == b"GET" else WSH
        last = k == len(c["steps"]) - 1
        if last and c["end"] == "connclose":
            h += b"Connection: close\r\n"
        msgs.append(st["m"] + b" " + st["p"] + q + b" HTTP/1.1\r\nHost: a\r\n" + h + b"\r\n")
        code = {"ok": st["code"], "lost": "200", "slow": "200"}.get(v, "500")
        clean = not any(b < 32 or b == 127 for b in st["p"])
        me["steps"].append(dict(tag=tag, v=v, k=STEP[v], n=st["n"], m=st["m"].upper().decode(), p=st["p"].decode("latin-1") if clean else "", dirty=not clean, code=code, rid="none", told=[], resp=[]))
    if c["pipe"] and all(st["v"] in ("ok", "none", "throw") for st in c["steps"]):
        s.sendall(b"".join(msgs))
        sent = True
    else:
        sent = False
    for m, st, x in zip(msgs, c["steps"], me["steps"]):
        if not sent:
            time.sleep(st.get("pause", 0))
            t0 = int(time.time())
            s.sendall(m)
        if st["v"] == "lost":
            time.sleep(.01)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
            me["fin"] = "any"
            return me
        h = answer(st["m"] == b"HEAD")
        got = h and h[9:12].decode()
        if h:
            x["resp"] = [dict(seen(h), t0=t0)]
        if x["k"] in ("refused", "caught"):
            x["code"] = got or "none"
        elif x["k"] in ("plain", "crash") and got != x["code"]:
            x["code"] = f"unanswered {got}"
    end = c["end"]
    t0 = int(time.time())
    if end == "broken":
        try:
            s.sendall(c["bad"])
            while more():
                pass
        except ConnectionError:
            pass
        me["fin"] = "error"
    elif end == "half":
        s.sendall(b"GET / HTTP/1.1\r\nHo")
        me["fin"] = "any"
    elif end == "body":
        s.sendall(b"POST /b HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc")
        s.shutdown(socket.SHUT_WR)
        while more():
            pass
        me["fin"] = "error"
    elif end == "reset":
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        me["fin"] = "any"
    elif end in ("connclose", "done"):
        while more():
            pass
    s.close()
    if end in ("broken", "body") and b"\r\n\r\n" in buf:
        me["last"] = [dict(seen(buf.partition(b"\r\n\r\n")[0]), t0=t0)]
    return me


LINE = [(rb"\[Service\] Started at http://localhost:(\d+)/", lambda m: dict(k="started", port=int(m[1]))),
        (rb"\[Service\] Shutting down\.\.\.", lambda m: dict(k="stopping")),
        (rb"\[Transport\] (\S+) created for (\S+):(\d+)", lambda m: dict(k="created", cid=m[1].decode("latin-1"), host=m[2].decode("latin-1"), port=int(m[3]))),
        (rb"\[Transport\] (\S+) \((\S+)\) closed", lambda m: dict(k="closed", cid=m[1].decode("latin-1"), host=m[2].decode("latin-1"))),
        (rb"\[Transport\] (\S+) \((\S+)\) terminated: .*", lambda m: dict(k="terminated", cid=m[1].decode("latin-1"), host=m[2].decode("latin-1"))),
        (rb"\[app\] (\d+\.\d+) (x+)", lambda m: dict(k="app", tag=m[1].decode(), n=len(m[2]))),
        (rb"\[(\w+)\] \((\S+?)\) Handler crashed: .*", lambda m: dict(k="crash", rid=m[1].decode(), addr=m[2].decode("latin-1"))),
        (rb"\[(\w+)\] \((\S+?)\) Protocol switch aborted: .*", lambda m: dict(k="aborted", rid=m[1].decode(), addr=m[2].decode("latin-1"))),
        (rb"\[(\w+)\] \((\S+?)\) ([A-Z]+) (.*) --> (\d\d\d|SSE stream|Websocket)",
         lambda m: dict(k="req", rid=m[1].decode(), addr=m[2].decode("latin-1"), m=m[3].decode(), p=m[4].decode("latin-1"), res=m[5].decode()))]


def parse(s):
    r = []
    for ln in s.split(b"\n")[:-1] + ([s.split(b"\n")[-1]] if not s.endswith(b"\n") and s else []):
        e = dict(k="bad", text=ln.decode("latin-1"))
        if not any(b < 32 or b == 127 for b in ln):
            for rx, f in LINE:
                m = re.fullmatch(rx, ln)
                if m:
                    e = f(m)
                    break
        r.append(e)
    return r


def one(exe, c, d, name):
    rd, wr = os.pipe()
    out, err = open(os.path.join(d, f"{name}.out"), "w+b"), open(os.path.join(d, f"{name}.err"), "w+b")
    p = subprocess.Popen([exe, str(wr), f"seed={c['seed']}"] + [f"{k}={v}" for k, v in c["o"].items()], stdin=subprocess.PIPE, stdout=out, stderr=err, pass_fds=[wr])
    os.close(wr)
    f = os.fdopen(rd, "rb")
    first = f.readline().split()
    conns, note = [], ""
    o = c["o"]
    tr = dict(o={k: bool(o[k]) for k in "trs"}, stop=bool(o["stop"]), port=0, alive=False, conns=[], out=[], err=[])
    try:
        if first[:1] != [b"up"]:
            tr["note"] = "not up"
            return tr
        tr["port"] = int(first[1])
        with cf.ThreadPoolExecutor(len(c["conns"])) as ex:
            conns = list(ex.map(lambda a: play(tr["port"], a[1], a[0]), enumerate(c["conns"])))
        p.stdin.write(b"end\n")
        p.stdin.flush()
        info, over, heard = {}, False, set()
        for ln in f:
            w = ln.decode("latin-1").split()
            if w[0] == "over":
                over = True
            elif w[0] == "accepted":
                heard.add((w[1], int(w[2])))
            elif w[0] == "enter":
                info.setdefault(w[1], []).append(w[2:])
        p.wait(60)
        for x in conns:
            x["heard"] = (x["host"], x["port"]) in heard
            for st in x["steps"]:
                got = info.pop(st["tag"], [])
                st["told"] = [dict(cid=g[0], rid=g[1], host=g[2], port=int(g[3])) for g in got]
                if len(got) == 1:
                    cid, rid, host, port, m, path = got[0]
                    st["rid"] = rid
                    x["cid"] = x["cid"] or cid
                    if not st["dirty"]:
                        st["p"] = unhx(path).decode("latin-1")
                elif st["k"] == "lost":
                    st["gone"] = True
            # a client that left at once may not have been heard at all
            x["steps"] = [st for st in x["steps"] if "gone" not in st]
        tr["alive"] = over and p.returncode == 0
    except (OSError, subprocess.TimeoutExpired) as e:
        tr["note"] = repr(e)
    finally:
        p.kill()
        p.wait()
        f.close()
        for g in (out, err):
            g.seek(0)
        tr["conns"], tr["out"], tr["err"] = conns, parse(out.read()), parse(err.read())
        out.close()
        err.close()
    return tr


def record(exe):
    def f(cs):
        with tempfile.TemporaryDirectory() as d, cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda a: one(exe, a[1], d, a[0]), enumerate(cs)))
    return f


def show(c, t, at):
    i = (at or 1) - 1
    if i < len(t["conns"]):
        x = t["conns"][i]
        ids = {s["rid"] for s in x["steps"]} | {x["cid"]}
        ls = [ln for ln in t["out"] + t["err"] if ln.get("rid") in ids or ln.get("cid") in ids or ln["k"] == "bad"]
        return f"options {c['o']}, connection {x!r:.500}: lines {ls!r:.500}"
    odd = [ln for ln in t["out"] + t["err"] if ln["k"] == "bad"]
    return f"options {c['o']}, of the rest: {t.get('note', '')} alive {t['alive']}, lines that are none: {odd!r:.300}, lines {[ln for ln in t['out'] + t['err']]!r:.400}"


def run(ctx):
    exe = core.build("logdrv", ["logdrv.cpp"])
    ctx.model("LogMC", "LogMC" if ctx.quick else "LogMC_deep", timeout=2400)
    for bug in ("torn", "crashsilent", "both"):
        if not ctx.model("LogMC", "LogMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = [case(ctx) for _ in range(ctx.n(160, 1500))]
    tr = pure.judge(ctx, "LogTrace", cs, record(exe), None, show)
    ctx.sample(tr[0])
    ctx.notes["connections"] = sum(len(c["conns"]) for c in cs)
    ctx.notes["requests"] = {v: sum(s["v"] == v for c in cs for x in c["conns"] for s in x["steps"]) for v in STEP}
    return ctx.finish()
