"""Focused path rules: a property is split into parts, each rooted at the functions that do the thing it is about."""
from .common import *
from .attachlib import atoms


def both(v, val):
    out = atoms(v, val)
    if isinstance(val, int) and (v, val) not in out:
        out = out + [(v, val)]
    return out


def mentions(v, r, d=8):
    if v == r:
        return True
    if d == 0 or not isinstance(v, V):
        return False
    return any(mentions(y, r, d - 1) for x in v.a for y in flat(x) if isinstance(y, V))


def origin(v):
    """tags of the symbol a value was taken out of"""
    while isinstance(v, V):
        if v.k == "S":
            return v.a[1]
        if v.k == "op":
            return frozenset().union(*[origin(x) for x in v.a[1:] if isinstance(x, V)])
        v = v.a[0] if v.k in ("fld", "vf", "dc", "drf", "idx") else None
    return frozenset()


class Part(SliceRule):
    K = 6
    split0 = True
    scope = None

    def __init__(self, ctx, roots):
        SliceRule.__init__(self, ctx)
        self._roots = sorted(roots)
        self.seen = set()

    def relevant(self, s):
        return False

    def opaque(self, body):
        """local functions not followed into (None: none of them is)"""
        return self.scope is not None and not any(x in body.p for x in self.scope)

    def slice_roots(self):
        return self._roots

    def start(self, root):
        return frozenset()

    def ok(self, cat, ev):
        self.seen.add((cat, self.ctx.G.owner(ev.body.p)))

    def rep(self, S, cat, ev, msg, extra=""):
        self.E.report(S, cat, (self.ctx.G.owner(ev.body.p) if ev is not None else "end") + extra, msg)

    def has(self, S, n):
        return any(x == n or isinstance(x, tuple) and x[0] == n for x in S.st)

    def drop(self, S, *ns):
        S.st = frozenset(x for x in S.st if not (x in ns or isinstance(x, tuple) and x[0] in ns))

    def add(self, S, *f):
        S.st = S.st | frozenset(f)

    def floors(self, ctx, *cats):
        for x in sorted(self.seen):
            ctx.ok(*x)
        for c in cats:
            ctx.floor(c, len({x for x in self.seen if x[0] == c}), 1)

    def result(self, S, what, adt=RES, tags=()):
        """a fresh result of the call, whose variant is decided by the program's own branches"""
        r = self.E.fresh(S, what, tags)
        self.E.discr_n.setdefault(mk("discr", r), (adt, (0, 1)))
        return r


def run_parts(ctx, parts):
    for r in parts:
        ctx.engine(r)
        for x in sorted(r.seen):
            ctx.ok(*x)


def floors(ctx, parts, *cats):
    for c in cats:
        ctx.floor(c, len({x for r in parts for x in r.seen if x[0] == c}), 1)


def made_in(F, G, names):
    """functions that build a value of one of the named types"""
    return {G.owner(b.p) for b in F.bodies.values() if any(st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] in names for bb in b.blocks for st in bb["s"])}


def last(s):
    return s.p.rsplit("::", 1)[-1]


def fields(F, adt, v=0):
    """[(name, type)] of a struct (or of one variant)"""
    a = F.adts[adt]
    return [(f[0], a["tab"][f[1]] if f[1] >= 0 else None) for f in a["v"][v]["f"]]


def sources(body, op):
    """what an operand may come from inside its function, ignoring order: ("param", i), ("field", name), ("call", site index of bb, path), ("const", text)"""
    defs = {}
    for i, bb in enumerate(body.blocks):
        for st in bb["s"]:
            if st[1] is not None:
                defs.setdefault(st[1][0], []).append(("rv", st[2]))
        t = bb["t"]
        if t[0] == "call" and t[3]:
            defs.setdefault(t[3][0], []).append(("call", t))
    out, seen, todo = set(), set(), []

    def place(pl):
        for x in pl[1:]:
            if isinstance(x, list) and len(x) > 1:
                out.add(("field", x[1]))
        todo.append(pl[0])

    def operand(o):
        pl = o.get("c") or o.get("m")
        if pl:
            place(pl)
        elif "k" in o and o["k"].get("t") is not None and body.tys[o["k"]["t"]].k == "closure":
            out.add(("closure", body.tys[o["k"]["t"]].d))
        elif "k" in o:
            x = o["k"].get("v")
            if x is None and o["k"].get("u"):
                x = o["k"]["u"]
            out.add(("const", str(x if not isinstance(x, dict) else x.get("str", ""))))

    def rv(r):
        k = r[0]
        if k in ("use", "repeat"):
            operand(r[1])
        elif k == "ref":
            place(r[2])
        elif k == "cast":
            operand(r[2])
        elif k == "bin":
            operand(r[2])
            operand(r[3])
        elif k == "un":
            operand(r[2])
        elif k == "discr":
            place(r[1])
        elif k == "agg":
            if not r[2] and r[1][0] == "adt":
                out.add(("const", "%s#%s" % (r[1][1], r[1][2])))
            if r[1][0] == "closure":
                out.add(("closure", r[1][1]))
            for o in r[2]:
                operand(o)
    operand(op)
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if 1 <= l <= body.argc:
            out.add(("param", l))
        for kind, d in defs.get(l, ()):
            if kind == "rv":
                rv(d)
            else:
                f = (d[1].get("k") or {}).get("fn") or {}
                out.add(("call", f.get("r") or f.get("p") or "?"))
                for o in d[2]:
                    operand(o)
    return out


def sources_up(ctx, body, op, depth=5, seen=None):
    """the same through the callers' arguments"""
    seen = set() if seen is None else seen
    out = set()
    for x in sources(body, op):
        if x[0] == "closure" and depth and x not in seen and x[1] in ctx.F.bodies:
            seen.add(x)
            b = ctx.F.bodies[x[1]]
            out |= {y for y in sources_up(ctx, b, {"c": [0]}, depth - 1, seen) if y[0] != "param"}
        if x[0] != "param":
            out.add(x)
            continue
        sites = [s for s in ctx.G.sites if s.p == body.p and len(s.t[2]) >= x[1]]
        if not sites or depth == 0:
            out.add(("param", body.p, x[1]))
        for s in sites:
            k = (s.body.p, s.bb, x[1])
            if k not in seen:
                seen.add(k)
                out |= sources_up(ctx, s.body, s.t[2][x[1] - 1], depth - 1, seen)
    return out


def reach_until(G, src, stop):
    """what is reachable without going through (or into) the functions that stop() holds for"""
    out, todo = set(), list(src)
    while todo:
        p = todo.pop()
        if p in out or stop(p):
            continue
        out.add(p)
        todo.extend(G.succ.get(p, ()))
    return out
