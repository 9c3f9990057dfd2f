"""Loads the JSON facts dumped by driver/main.rs (drop-elaborated MIR of all
workspace crates) and offers resolved views of them."""
import json, os, re

CRATES = ["libshpool", "shpool-bin", "shpool_protocol"]


class Ty:
    __slots__ = ("k", "s", "d", "a", "_a", "tab")

    def __init__(self, t, tab):
        self.k, self.s, self.d, self._a, self.tab = t["k"], t["s"], t.get("d"), t.get("a") or [], tab
        self.a = None

    @property
    def args(self):
        if self.a is None:
            self.a = [self.tab[i] for i in self._a]
        return self.a

    def peel(self):
        t = self
        while t.k in ("ref", "refmut", "ptr") and t.args:
            t = t.args[0]
        return t

    def __repr__(self):
        return self.s

    def mentions(self, path, depth=6):
        """does this type contain an ADT / dyn / closure whose def path is `path`?"""
        if self.d == path:
            return True
        if depth == 0:
            return False
        return any(x.mentions(path, depth - 1) for x in self.args)


def subst_ty(t, sub, memo=None):
    """replace generic parameters by the types in sub (name -> Ty)"""
    if not sub:
        return t
    if t.k == "param":
        return sub.get(t.s, t)
    if not t._a:
        return t
    if memo is None:
        memo = {}
    key = id(t)
    if key in memo:
        return memo[key]
    memo[key] = t
    n = [subst_ty(x, sub, memo) for x in t.args]
    if all(a is b for a, b in zip(n, t.args)):
        return t
    r = Ty.__new__(Ty)
    r.k, r.s, r.d, r._a, r.tab, r.a = t.k, t.s, t.d, t._a, t.tab, n
    memo[key] = r
    return r


class Block:
    __slots__ = ("stmts", "term", "span", "cleanup", "succs")


class Body:
    __slots__ = ("crate", "p", "kind", "file", "line", "parent", "argc", "locals", "names", "blocks",
                 "preds", "live", "tys", "merge", "loophead", "rpo", "_addr", "raw_caps", "gen")

    def lty(self, i):
        return self.tys[self.locals[i]]

    def __repr__(self):
        return "<Body %s>" % self.p


class Facts:
    def __init__(self, d):
        self.bodies, self.adts, self.consts, self.impls, self.types = {}, {}, {}, [], {}
        self.by_last = {}
        for c in CRATES:
            with open(os.path.join(d, c + ".json")) as f:
                F = json.load(f)
            tab = []
            tab.extend(Ty(t, tab) for t in F["types"])
            self.types[c] = tab
            for a in F["adts"]:
                a["tab"] = tab
                if a["p"] not in self.adts or a["local"]:
                    self.adts[a["p"]] = a
            for k in F["consts"]:
                self.consts[k["p"]] = dict(k, tab=tab)
            for i in F["impls"]:
                self.impls.append(dict(i, tab=tab, crate=c))
            for b in F["bodies"]:
                o = Body()
                o.crate, o.p, o.kind, o.file, o.line = c, b["p"], b["kind"], b["file"], b["line"]
                o.parent, o.argc, o.locals, o.tys, o.names = b.get("parent"), b["argc"], b["locals"], tab, b["names"]
                o.raw_caps = b.get("caps")
                o.gen = b.get("gen") or []
                o.blocks = b["b"]
                o.preds = o.live = o.merge = o.loophead = o.rpo = None
                self.bodies[o.p] = o
        self.features = F["features"]

    def fns(self):
        return [b for b in self.bodies.values() if b.kind in ("fn", "method", "closure")]

    def prepare(self, b):
        """predecessors, merge points, loop heads and liveness of a body"""
        if b.live is not None:
            return
        n = len(b.blocks)
        succs = [[s for s in term_succs(bb["t"])] for bb in b.blocks]
        # reachable, non-cleanup
        seen, order, state = set(), [], {}
        stack = [(0, iter(succs[0]))]
        seen.add(0)
        onstk = {0}
        back = set()
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    onstk.add(w)
                    stack.append((w, iter(succs[w])))
                    break
                elif w in onstk:
                    back.add(w)
            else:
                stack.pop()
                onstk.discard(v)
                order.append(v)
        order.reverse()
        b.rpo = {v: i for i, v in enumerate(order)}
        preds = [0] * n
        for v in order:
            for w in succs[v]:
                preds[w] += 1
        b.preds = preds
        b.merge = [preds[i] > 1 for i in range(n)]
        b.loophead = back
        # liveness (bitsets)
        use, dfn = [0] * n, [0] * n
        for v in order:
            u, d = 0, 0
            for st in b.blocks[v]["s"]:
                x = st[1]
                if x is None:
                    continue
                uses = rv_locals(st[2])
                for p in x[1:]:
                    if isinstance(p, dict) and "i" in p:
                        uses.append(p["i"])
                if len(x) > 1:
                    uses.append(x[0])
                for l in uses:
                    if not (d >> l) & 1:
                        u |= 1 << l
                if len(x) == 1:
                    d |= 1 << x[0]
            uses, dd = term_locals(b.blocks[v]["t"])
            for l in uses:
                if not (d >> l) & 1:
                    u |= 1 << l
            if dd is not None:
                d |= 1 << dd
            use[v], dfn[v] = u, d
        live = [0] * n
        changed = True
        while changed:
            changed = False
            for v in reversed(order):
                o = 0
                for w in succs[v]:
                    o |= live[w]
                i = use[v] | (o & ~dfn[v])
                if i != live[v]:
                    live[v] = i
                    changed = True
        b.live = live


def term_succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == "drop":
        return [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def op_locals(o, out):
    pl = o.get("c") or o.get("m")
    if pl:
        out.append(pl[0])
        for p in pl[1:]:
            if isinstance(p, dict) and "i" in p:
                out.append(p["i"])


def place_locals(pl, out):
    out.append(pl[0])
    for p in pl[1:]:
        if isinstance(p, dict) and "i" in p:
            out.append(p["i"])


def rv_locals(r):
    out = []
    k = r[0]
    if k == "use" or k == "repeat":
        op_locals(r[1], out)
    elif k == "ref":
        place_locals(r[2], out)
    elif k == "cast":
        op_locals(r[2], out)
    elif k == "bin":
        op_locals(r[2], out)
        op_locals(r[3], out)
    elif k == "un":
        op_locals(r[2], out)
    elif k == "discr":
        place_locals(r[1], out)
    elif k == "agg":
        for o in r[2]:
            op_locals(o, out)
    return out


def term_locals(t):
    out, d = [], None
    k = t[0]
    if k == "switch":
        op_locals(t[1], out)
    elif k == "return":
        out.append(0)
    elif k == "drop":
        place_locals(t[1], out)
    elif k == "call":
        op_locals(t[1], out)
        for a in t[2]:
            op_locals(a, out)
        if len(t[3]) > 1:
            place_locals(t[3], out)
        else:
            d = t[3][0]
    elif k == "assert":
        op_locals(t[1], out)
    return out, d
