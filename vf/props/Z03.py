"""Z03: dates, identifiers, byte order."""
import struct

from .. import core, drive, pure

DAY = 86400


def cases(ctx):
    rng, out = ctx.rng, []
    # days around the ends of months, years, centuries; any second
    days = set()
    import datetime as dt
    epoch = dt.date(1970, 1, 1)
    for y in [1900, 1901, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2024, 2026, 2037, 2038, 2039, 2099, 2100, 2101, 2400, 9999]:
        for m in range(1, 13):
            first = (dt.date(y, m, 1) - epoch).days
            days |= {first - 1, first, first + 27, first + 28}
    days |= {rng.randrange(-25567, 2932896) for _ in range(ctx.n(600, 8000))} | {rng.randrange(0, 40000) for _ in range(ctx.n(300, 4000))}
    days = [d for d in days if -25567 <= d <= 2932896]
    for d in sorted(days):
        for s in {0, DAY - 1, rng.randrange(DAY), rng.choice([59, 60, 3599, 3600, 43200, 36000])}:
            out.append([("date", d * DAY + s)])
    out += [[("date", x)] for x in (0, -1, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, 253402300799)]
    out += [[("now",)]] * 3
    vals = [0, 1, 255, 256, 0x10, 0x01020304, 0xf0e0d0c0, 2**31 - 1, 2**31, 2**32 - 1, 0x0a0b0c0d, 0xa0000000]
    for _ in range(ctx.n(120, 1500)):
        s, have = [], set()
        for _ in range(rng.randrange(3, 14)):
            p, o = rng.choice("pqr"), rng.choice("pqr")
            v = rng.choice(vals + [rng.randrange(1 << 32), None, None])
            if p not in have:
                s.append(("id", p, v))
                have.add(p)
            else:
                k = rng.choice(["iupd", "icopy", "imove", "iset", "ishow"])
                if k == "iupd":
                    s.append((k, p, v))
                elif k == "icopy" and o in have:
                    s.append((k, p, o))
                elif k == "imove" and o in have and o != p:
                    s.append((k, p, o))
                    have.discard(o)
                elif k == "iset" and o in have:
                    s.append((k, p, o))
            s += [("ishow", x) for x in sorted(have)]
        out.append(s)
    out += [[("ishow1", v)] for v in vals]
    out += [[("ifresh", a, b)] for a, b in ((1, 100), (4, 40), (8, 20))]
    for ty, n in (("i16", 2), ("u16", 2), ("i32", 4), ("u32", 4), ("i64", 8), ("u64", 8)):
        xs = [bytes([b if i == k else 0 for i in range(n)]) for k in range(n) for b in (1, 127, 128, 255)]
        xs += [bytes(n), b"\xff" * n, bytes(range(1, n + 1)), bytes(range(0xf0, 0xf0 + n))] + [bytes(rng.randrange(256) for _ in range(n)) for _ in range(ctx.n(15, 300))]
        out += [[(op, ty, x)] for op in ("net", "store") for x in xs]
    return out


def lines(s):
    r = []
    for c in s:
        if c[0] == "ishow1":
            r += [f"id p {c[1]}", "ishow p"]
        elif c[0] in ("net", "store"):
            r.append(f"{c[0]} {c[1]} {drive.hx(c[2])}")
        else:
            r.append(" ".join(str(x) for x in c if x is not None))
    return r


def event(c, x):
    w = x.split(" ")
    e = dict(op=c[0], r=w[0])
    dec = lambda y: list(drive.unhx(y))
    if c[0] in ("date", "now"):
        e.update(day=0, sec=0, gday=-1, gsec=0, y=0, mo=0, d=0, h=0, mi=0, s=0, utc=[], hrt=[], dt=[])
        if w[0] == "d":
            got = int(w[1])
            t = got if c[0] == "now" else c[1]
            e.update(day=t // DAY, sec=t % DAY, gday=got // DAY, gsec=got % DAY, utc=dec(w[8]), hrt=dec(w[9]), dt=dec(w[10]))
            e.update(zip(("y", "mo", "d", "h", "mi", "s"), map(int, w[2:8])))
    elif c[0] in ("id", "iupd"):
        e.update(p=c[1], id=list(struct.pack(">I", c[2])) if c[2] is not None else [])
    elif c[0] in ("icopy", "imove", "iset"):
        e.update(p=c[1], o=c[2])
    elif c[0] == "ishow":
        e.update(p=c[1], id=[], text=[])
        if len(w) == 3:
            e.update(id=dec(w[1]), text=dec(w[2]))
    elif c[0] == "ifresh":
        e.update(n=c[1] * c[2], ids=[[dec(a), dec(b)] for a, b in zip(w[1::2], w[2::2])])
    else:
        e.update(v=dec(w[1]) if w[0] == "v" else [], **{"in": list(c[2])})
    return e


def record(exe):
    def f(cs):
        cs = [[y for x in s for y in ([("id", "p", x[1]), ("ishow", "p")] if x[0] == "ishow1" else [x])] for s in cs]
        return [[event(c, o) for c, o in zip(s, os)] for s, os in zip(cs, pure.run(exe, [lines(s) for s in cs], env=dict(TZ="AAA-5:30")))]
    return f


def run(ctx):
    exe = core.build("miscdrv", ["miscdrv.cpp"], "asan")
    ctx.model("CalendarMC")
    for bug in ("nocentury", "no400"):
        if not ctx.model("CalendarMC", "CalendarMC_" + bug, expect_ok=False).violation:
            raise core.CheckError("the model does not tell " + bug)
    cs = cases(ctx)
    tr = pure.judge(ctx, "PartsTrace", cs, record(exe), None, lambda c, t, at: f"{c[:8]!r:.200}: {t[min(at or 1, len(t)) - 1]!r:.400}")
    ctx.sample(tr[len(tr) // 2])
    ctx.notes["calls"] = {k: sum(x[0] == k for c in cs for x in c) for k in {x[0] for c in cs for x in c}}
    return ctx.finish()
