"""Parses TLA+ values as TLC prints them, and state graphs dumped by TLC."""
import re


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def at(self, x):
        self.ws()
        return self.s.startswith(x, self.i)

    def eat(self, x):
        assert self.at(x), (x, self.s[self.i:self.i + 40])
        self.i += len(x)

    def val(self):
        self.ws()
        s = self.s
        if self.at("<<"):
            self.eat("<<")
            r = []
            while not self.at(">>"):
                r.append(self.val())
                if self.at(","):
                    self.eat(",")
            self.eat(">>")
            return r
        if self.at("{"):
            self.eat("{")
            r = []
            while not self.at("}"):
                r.append(self.val())
                if self.at(","):
                    self.eat(",")
            self.eat("}")
            return r
        if self.at("["):
            self.eat("[")
            r = {}
            while not self.at("]"):
                self.ws()
                m = re.compile(r"\w+").match(s, self.i)
                k = m.group(0)
                self.i = m.end()
                self.eat("|->")
                r[k] = self.val()
                if self.at(","):
                    self.eat(",")
            self.eat("]")
            return r
        if self.at("("):
            self.eat("(")
            r = {}
            while not self.at(")"):
                k = self.val()
                self.eat(":>")
                r[str(k)] = self.val()
                if self.at("@@"):
                    self.eat("@@")
            self.eat(")")
            return r
        if self.at('"'):
            self.eat('"')
            r = ""
            while s[self.i] != '"':
                if s[self.i] == "\\":
                    self.i += 1
                    r += {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[self.i], s[self.i])
                else:
                    r += s[self.i]
                self.i += 1
            self.i += 1
            return r
        m = re.compile(r"-?\d+").match(s, self.i)
        if m:
            self.i = m.end()
            return int(m.group(0))
        m = re.compile(r"\w+").match(s, self.i)
        self.i = m.end()
        return {"TRUE": True, "FALSE": False}.get(m.group(0), m.group(0))


def parse(s):
    return P(s).val()


def graph(dotfile):
    """-> (states: id -> {var: text}, edges: id -> [(action, id)], initial ids)"""
    states, edges, init = {}, {}, []
    node = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\]?;?\s*$')
    edge = re.compile(r'^(-?\d+) -> (-?\d+) \[label="([^"]*)"')
    for line in open(dotfile, encoding="utf-8"):
        line = line.rstrip("\n")
        m = edge.match(line)
        if m:
            edges.setdefault(m.group(1), []).append((m.group(3), m.group(2)))
            continue
        m = node.match(line)
        if m:
            txt = m.group(2).replace("\\n", "\n").replace('\\"', '"').replace("\\\\", "\\")
            vs = {}
            for part in re.split(r"(?:^|\n)/\\ ", txt):
                if " = " in part:
                    k, v = part.split(" = ", 1)
                    vs[k.strip()] = v
            states[m.group(1)] = vs
            if m.group(3):
                init.append(m.group(1))
    return states, edges, init


def walks(states, edges, init, rng, maxlen, maxwalks=None):
    """Walks from an initial state that together cover every edge (each edge appears in at least one)."""
    from collections import deque
    todo = {(s, i) for s, es in edges.items() for i in range(len(es))}
    # distance-to-parent tree for reaching states
    par = {}
    q = deque(init)
    for s in init:
        par[s] = None
    while q:
        s = q.popleft()
        for i, (_, d) in enumerate(edges.get(s, [])):
            if d not in par:
                par[d] = (s, i)
                q.append(d)
    out = []
    order = sorted(todo)
    rng.shuffle(order)
    for e in order:
        if e not in todo:
            continue
        path = []
        s = e[0]
        while par[s] is not None:
            path.append(par[s])
            s = par[s][0]
        path.reverse()
        path.append(e)
        cur = edges[e[0]][e[1]][1]
        while len(path) < maxlen:
            es = edges.get(cur, [])
            if not es:
                break
            fresh = [i for i in range(len(es)) if (cur, i) in todo and (cur, i) not in path]
            i = rng.choice(fresh) if fresh else rng.randrange(len(es))
            path.append((cur, i))
            cur = es[i][1]
        todo.difference_update(path)
        out.append([(edges[s][i][0], edges[s][i][1]) for s, i in path])
        if maxwalks and len(out) >= maxwalks:
            break
    return out


def labelled(states, edges, init, label="last"):
    """Merges the states that differ in the label variable only; the label of the target becomes the edge's.
    -> (edges: state -> [(label text, state)], initial states) for walks()."""
    key = {s: tuple(sorted((k, v) for k, v in vs.items() if k != label)) for s, vs in states.items()}
    out = {}
    for s, es in edges.items():
        tgt = out.setdefault(key[s], {})
        for _, d in es:
            tgt[(states[d][label], key[d])] = True
    return {s: list(v) for s, v in out.items()}, [key[s] for s in init]
