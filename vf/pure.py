"""Sessions of calls into pure parts of the library: run, re-run, judge."""
import concurrent.futures as cf

from . import core, drive


def _some(exe, cases, timeout, cwd, env):
    """cases: list of lists of lines -> list of lists of outputs; a call that killed the process (or never
    returned) is answered by "died", the calls after it in the same case by "unasked"."""
    res, k, deaths = [], 0, 0
    while k < len(cases):
        outs, rc, err = drive.batch(exe, [l for c in cases[k:] for l in c], timeout=timeout, cwd=cwd, env=env)
        pos = 0
        while k < len(cases):
            c = cases[k]
            part = outs[pos:pos + len(c)]
            pos += len(c)
            k += 1
            if len(part) == len(c):
                res.append(part)
                continue
            res.append(part + ["died"] + ["unasked"] * (len(c) - len(part) - 1))
            deaths += 4 if rc in (-14, -27) else 1      # a call that did not come back took a long time not to
            break
        if deaths > 12:
            res += [["unasked"] * len(c) for c in cases[k:]]
            break
    return res


def run(exe, cases, timeout=300, cwd=None, env=None, parts=core.CPUS):
    env = {**__import__("os").environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=6000", **(env or {})}
    parts = max(1, min(parts, len(cases) // 20 or 1))
    size = max(1, (len(cases) + parts - 1) // parts)
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    with cf.ThreadPoolExecutor(parts) as ex:
        return [r for p in ex.map(lambda c: _some(exe, c, timeout, cwd, env), chunks) for r in p]


def res(line):
    """driver output -> record of the specs"""
    if line.startswith("v "):
        return dict(k="v", v=list(drive.unhx(line[2:])))
    return dict(k=line, v=[])


def judge(ctx, spec, cases, record, again, describe, extra=None, limit=3, timeout=900):
    """cases: opaque; record(list of cases) -> list of traces; rejected ones are executed once more"""
    tr = record(cases)
    rej = ctx.validate(spec, tr, extra=extra, timeout=timeout)
    if rej:
        # the same case, on its own and together with its neighbours, must fail again
        picked = [cases[i] for i in rej[:24]]
        tr2 = (again or record)(picked)
        bad = ctx.validate(spec, tr2, extra=extra)
        for j in bad[:limit]:
            at, exp = ctx.explain(spec, tr2[j], extra=extra)
            ctx.violation(describe(picked[j], tr2[j], at), dict(trace=tr2[j], at=at, expected=exp))
        if not bad:
            ctx.notes["unreproduced"] = len(rej)
    return tr
