"""Sessions of calls on small object collections (headers, cookies, JSON values): model-generated walks."""
import os
import shutil

from . import core, drive, tlaval

SLOTS = ["p", "q", "r"]


def res(x):
    w = x.split(" ")
    r = dict(k=w[0], v=[], l=[], n=0)
    if w[0] == "v":
        r["v"] = list(drive.unhx(w[1]))
    elif w[0] == "n":
        r["n"] = int(w[1])
    elif w[0] == "l":
        r["l"] = [list(drive.unhx(y)) for y in w[1:]]
    return r


def generated(ctx, spec, maxlen=40, label="last"):
    """Walks over the state graph of `spec` that together cover every (state, call); as lists of calls."""
    d = core.scratch("gen-")
    dot = os.path.join(d, "g.dot")
    ctx.model(spec.split("_")[0], spec, workers=1, extra=("-dump", "dot,actionlabels", dot))
    st, ed, init = tlaval.graph(dot)
    shutil.rmtree(d, ignore_errors=True)
    ed, init = tlaval.labelled(st, ed, init, label)
    memo = {}

    def parsed(text):
        if text not in memo:
            memo[text] = tlaval.parse(text)
        return dict(memo[text])
    return [[parsed(t) for t, _ in w] for w in tlaval.walks(None, ed, init, ctx.rng, maxlen)], sum(len(e) for e in ed.values())
