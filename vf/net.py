"""Sessions of calls on connections and listening sockets."""
from . import pure

T = {"true": True, "false": False}


def conn_event(c, r):
    """call (dict) and the driver's answer -> event of ConnTrace"""
    w = r.split(" ")
    e = dict(c, r=w[0])
    op = e["op"]
    if op == "conn":
        e["same"] = len(w) > 2 and T.get(w[2], False)
    elif op == "read":
        e.update(g=0, same=False, ms=0, err=0, hit="no")
        if len(w) == 6:
            e.update(g=int(w[1]), same=T[w[2]], ms=int(w[3]), err=int(w[4]), hit=w[5])
    elif op in ("write", "wfull"):
        e.update(g=0, same=False, ms=0, hit="no")
        if len(w) == 5:
            e.update(g=int(w[1]), same=T[w[2]], ms=int(w[3]), hit=w[4])
    elif op == "look":
        e.update(g=-1, same=False, eof=False)
        if len(w) == 3:
            e.update(g=int(w[0]), same=T[w[1]], eof=T[w[2]])
    elif op == "info":
        e.update(same=False, rcv=0, snd=0, ct=False, td=False)
        if len(w) == 5:
            e.update(same=T[w[0]], rcv=int(w[1]), snd=int(w[2]), ct=T[w[3]], td=T[w[4]])
    elif op == "fds":
        e.update(g=-1, bad=0)
        if len(w) == 2:
            e.update(g=int(w[0]), bad=int(w[1]))
    elif op in ("unblock", "unblockw"):
        e["ms"] = int(w[1]) if len(w) > 1 else 0
    elif op == "duplex":
        e.update(ms=0, g=0, same=False)
        if len(w) > 5:
            e.update(ms=int(w[1]), g=int(w[2]), same=T[w[3]] and w[5] == "data" and w[7] == "true")
    elif op in ("writers", "steal"):
        e["same"] = T.get(w[0], False)
    return e


class Conn:
    """Builds a session: the lines for the driver and the calls, and keeps just enough of a picture to do so."""

    def __init__(self, rng, rcv=60, snd=4000):
        self.rng, self.rcv, self.snd = rng, rcv, snd
        self.lines, self.calls = ["case"], [None]
        self.k = {}
        self.n = 0

    def add(self, line, **e):
        self.lines.append(line)
        self.calls.append(e)

    def conn(self, s, ct, td):
        self.n += 1
        self.k[s] = self.n
        self.add(f"conn {s} {self.rcv} {self.snd} {int(ct)} {int(td)}", op="conn", s=s, ct=ct, td=td, rcv=self.rcv, snd=self.snd)

    def peer(self, what, s, n=0):
        k = self.k[s]
        self.add(f"{what} {k}" + (f" {n}" if what == "psend" else ""), op=what, k=k, n=n)

    def read(self, s, n, want=0):
        self.add(f"read {s} {n}" if n else f"read0 {s}", op="read", s=s, n=n or 2048, want=want)

    def write(self, s, n, full=False):
        self.add(f"write {s} {n}" + (" x" if full else ""), op="wfull" if full else "write", s=s, n=n)

    def look(self, k, ms):
        self.add(f"look {k} {ms} 0", op="look", k=k)

    def one(self, op, s):
        self.add(f"{op} {s}", op=op, s=s)

    def take(self, op, s, o):
        self.add(f"{op} {s} {o}", op=op, s=s, o=o)
        self.k[s] = self.k[o]

    def inject(self, where, err, times):
        self.lines.append(f"inj {where} {err} {times}")
        self.calls.append(None)

    def short(self, n):
        self.lines.append(f"short {n} {self.rng.randrange(1, 1 << 30)}")
        self.calls.append(None)

    def fds(self):
        self.add("fds", op="fds")


def record(exe, event):
    def f(cases):
        outs = pure.run(exe, [c.lines for c in cases], timeout=900)
        return [[event(dict(e), r) for e, r in zip(c.calls, o) if e is not None] for c, o in zip(cases, outs)]
    return f


def listen_event(c, r):
    """call (dict) and the driver's answer -> event of ListenTrace"""
    w = r.split(" ")
    e = dict(c, r=w[0])
    op = e["op"]
    if op == "dial":
        e["k"] = int(w[1]) if len(w) > 1 else 0
    elif op in ("accept", "baccept", "saccept"):
        e.update(k=0, same=False, works=False, ms=0, hit="no", rcv=0, snd=0)
        if len(w) == 8:
            e.update(k=int(w[1]), same=T[w[2]], rcv=int(w[3]), snd=int(w[4]), works=T[w[5]], ms=int(w[6]), hit=w[7])
    elif op == "conf":
        e.update(r="done", same=T.get(w[0], False), rcv=int(w[1]) if len(w) > 2 else 0, snd=int(w[2]) if len(w) > 2 else 0)
    elif op == "fds":
        e.update(g=-1, bad=0)
        if len(w) == 2:
            e.update(g=int(w[0]), bad=int(w[1]))
    elif op == "lsteal":
        e["same"] = len(w) > 1 and T[w[1]]
    elif op == "crowd":
        e.update(same=len(w) > 1 and T[w[1]], ms=int(w[2]) if len(w) > 2 else 0)
    return e


class Listen(Conn):
    """A session with listening sockets: slots l and m, ports 1 and 2."""

    def __init__(self, rng):
        super().__init__(rng)
        self.at = {}        # slot -> [state, port, clients waiting]
        self.used = set()

    def on(self, n):
        return [s for s, x in self.at.items() if x[0] == "open" and x[1] == n]

    def lopen(self, s, n, reuse=True, rcv=40, snd=700):
        free = not self.on(n)
        reuse = reuse or n in self.used     # what is left of earlier connections may keep a port busy
        self.used.add(n)
        self.add(f"lopen {s} {n} {int(reuse)} {rcv} {snd}", op="lopen", s=s, n=n, rcv=rcv, snd=snd)
        if free:
            self.at[s] = ["open", n, 0]
        return free

    def dial(self, n):
        self.add(f"dial {n}", op="dial", n=n)
        self.n += 1
        for s in self.on(n):
            self.at[s][2] += 1

    def accept(self, s, t=False, want=0):
        self.add(f"accept {s}" + (" t" if t else ""), op="accept", s=s, t=t, want=want)
        x = self.at[s]
        if x[0] == "open" and not want:
            x[2] -= 1

    def late(self, s):
        """a client comes while it waits"""
        self.n += 1
        self.add(f"baccept {s} - {self.at[s][1]}", op="baccept", s=s, want=self.n)

    def ends(self, op, s, *more):
        self.add(" ".join([op, s] + [str(x) for x in more]), op=op, s=s)
        if op != "active":
            self.at[s] = ["shut", 0, 0] if op != "ldrop" else ["none", 0, 0]

    def conf(self, s):
        self.add(f"conf {s} {self.at[s][1]}", op="conf", s=s)

    def take(self, op, s, o):
        self.add(f"{op} {s} {o}", op=op, s=s, o=o)
        if s != o:
            self.at[s], self.at[o] = self.at[o], ["shut", 0, 0]
