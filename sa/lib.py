"""Shared helpers for the property rules: call graph, slicing, anchors, result collection."""
import re, time
from . import facts as FX
from .engine import Engine, Rule, Incomplete, Act
from .values import *


def body_refs(b):
    """(kind, name, block, fn record) of everything a body mentions: calls, closures, fn values"""
    out = []
    for i, bb in enumerate(b.blocks):
        if bb.get("cl"):
            continue
        for st in bb["s"]:
            rv = st[2]
            if st[1] is None:
                continue
            if rv[0] == "agg" and rv[1][0] == "closure":
                out.append(("closure", rv[1][1], i, None))
            for o in FXops(rv):
                k = o.get("k")
                if k:
                    if "fn" in k:
                        fn = k["fn"]
                        out.append(("fnval", fn.get("r") or fn["p"], i, fn))
                    else:
                        t = b.tys[k["t"]]
                        if t.k == "closure":
                            out.append(("closure", t.d, i, None))
                    if k.get("pr") is not None:
                        out.append(("prom", "%s::promoted[%d]" % (k.get("u"), k["pr"]), i, None))
        t = bb["t"]
        if t[0] == "call":
            fn = t[1].get("k", {}).get("fn") if "k" in t[1] else None
            if fn is not None:
                out.append(("call", fn.get("r") or fn["p"], i, fn))
            for o in t[2]:
                k = o.get("k")
                if k:
                    if "fn" in k:
                        out.append(("fnval", k["fn"].get("r") or k["fn"]["p"], i, k["fn"]))
                    else:
                        ty = b.tys[k["t"]]
                        if ty.k == "closure":
                            out.append(("closure", ty.d, i, None))
                    if k.get("pr") is not None:
                        out.append(("prom", "%s::promoted[%d]" % (k.get("u"), k["pr"]), i, None))
        elif t[0] == "drop":
            ty = b.tys[t[2]]
            out.append(("drop", ty, i, None))
    return out


def FXops(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


class Site:
    """a call site"""
    __slots__ = ("body", "bb", "t", "fn", "p", "q", "trait", "span", "ta")

    def __init__(self, body, bb, t, fn):
        self.body, self.bb, self.t, self.fn = body, bb, t, fn
        self.p, self.q, self.trait = fn.get("r") or fn["p"], fn["p"], fn.get("tr")
        self.ta = [body.tys[i] for i in fn.get("ta") or []]
        self.span = body.blocks[bb]["l"]

    def argty(self, i):
        o = self.t[2][i]
        pl = o.get("c") or o.get("m")
        if pl:
            return place_ty(self.body, pl)
        return self.body.tys[o["k"]["t"]]

    def destty(self):
        return place_ty(self.body, self.t[3])

    def where(self):
        return "%s:%s in %s" % (self.body.file, self.span[0], self.body.p)


def place_ty(body, pl):
    t = body.lty(pl[0])
    for p in pl[1:]:
        if p == "*":
            t = t.args[0] if t.args and (t.k in ("ref", "refmut", "ptr") or t.d == "std::boxed::Box") else t
        elif isinstance(p, list):
            t = body.tys[p[2]] if p[2] >= 0 else t
        elif "i" in p or "c" in p:
            t = t.args[0] if t.args else t
    return t


class Graph:
    def __init__(self, F):
        self.F = F
        self.refs = {}
        self.callers = {}
        self.sites = []
        dtor = {}
        for p, a in F.adts.items():
            if a.get("dtor"):
                dtor[p] = a["dtor"]
        self.dtor = dtor
        self.succ = {}
        droptab = {}
        implby = {}
        for im in F.impls:
            for m in im["m"]:
                implby.setdefault(m[2], []).append(m[1])
        self.implby = implby

        def dropfns(ty, d=5):
            if ty in droptab:
                return droptab[ty]
            out = set()
            droptab[ty] = out
            if ty.k in ("ref", "refmut", "ptr") or d == 0:
                return out
            if ty.d in dtor and dtor[ty.d] in F.bodies:
                out.add(dtor[ty.d])
            a = F.adts.get(ty.d)
            if a and a["local"]:
                for v in a["v"]:
                    for f in v["f"]:
                        if f[1] >= 0:
                            out |= dropfns(a["tab"][f[1]], d - 1)
            for x in ty.args:
                out |= dropfns(x, d - 1)
            return out
        self.dropfns = dropfns
        for b in F.bodies.values():
            rs = body_refs(b)
            self.refs[b.p] = rs
            s = set()
            for kind, n, bb, fn in rs:
                if kind == "drop":
                    s |= dropfns(n)
                    continue
                if kind == "call":
                    self.sites.append(Site(b, bb, b.blocks[bb]["t"], fn))
                s.add(n)
                if fn is not None and fn.get("tr"):
                    # unresolved / dynamic trait calls: every local implementation
                    if fn.get("r") is None or str(fn.get("r")).startswith("dyn:"):
                        for m in implby.get(fn["p"], ()):
                            s.add(m)
                if n in ("<T as std::convert::Into<U>>::into", "<T as std::convert::TryInto<U>>::try_into"):
                    tr = "From" if n.endswith("::into") else "TryFrom"
                    ta = [b.tys[i] for i in fn.get("ta") or []]
                    if len(ta) == 2:
                        for im in F.impls:
                            if im["tr"] == "std::convert::" + tr and isinstance(im["self"], int) and im["tab"][im["self"]].s == ta[1].s:
                                for m in im["m"]:
                                    s.add(m[1])
            self.succ[b.p] = s
        self.pred = {}
        for a, ss in self.succ.items():
            for x in ss:
                self.pred.setdefault(x, set()).add(a)

    def reach(self, roots):
        """everything transitively mentioned from roots"""
        seen = set(roots)
        work = list(roots)
        while work:
            x = work.pop()
            for y in self.succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def up(self, names):
        """everything that transitively mentions one of names"""
        seen = set(names)
        work = list(names)
        while work:
            x = work.pop()
            for y in self.pred.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def calling(self, pred):
        """bodies that contain a call site satisfying pred(Site)"""
        return set(s.body.p for s in self.sites if pred(s))

    def owner(self, p):
        """outermost fn of a closure path"""
        return re.sub(r"(::\{closure#\d+\})+(::promoted\[\d+\])?$", "", p)

    def path(self, src, pred):
        """a call path from src to a body/callee satisfying pred"""
        from collections import deque
        par = {src: None}
        q = deque([src])
        while q:
            x = q.popleft()
            if pred(x) and x != src:
                out = []
                while x:
                    out.append(x)
                    x = par[x]
                return out[::-1]
            for y in sorted(self.succ.get(x, ())):
                if y not in par:
                    par[y] = x
                    q.append(y)
        return None


class Ctx:
    def __init__(self, F, prop, tier):
        self.F, self.prop, self.tier = F, prop, tier
        self.G = Graph(F)
        self.viol = []       # (key, msg, detail lines)
        self.obl = []        # (rule, instance, verdict)
        self.counts = {}
        self.info = {}
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, rule, inst):
        self.obl.append((rule, inst, "ok"))

    def bad(self, rule, inst, msg, where="", trace=()):
        key = "%s|%s" % (rule, inst)
        if any(v["key"] == key for v in self.viol):
            return
        self.obl.append((rule, inst, "violated"))
        self.viol.append(dict(key=key, msg=msg, where=where, trace=list(trace)))

    def check(self, cond, rule, inst, msg, where="", trace=()):
        if cond:
            self.ok(rule, inst)
        else:
            self.bad(rule, inst, msg, where, trace)
        return cond

    def floor(self, what, n, least):
        """fail closed if fewer instances than confirmed by hand"""
        self.counts[what] = n
        if n < least:
            self.bad("anchor", what, "only %d instances of '%s' found, at least %d expected: the rule no longer sees the code it judges" % (n, what, least))
            return False
        return True

    def engine(self, rule, label=None):
        """run a path rule, collecting its reports"""
        E = Engine(self.F, rule)
        t = time.time()
        try:
            E.run()
        except Incomplete as e:
            self.bad("analysis", rule.name, "analysis did not finish: %s" % e)
        self.counts["steps:" + rule.name] = E.steps
        self.counts["functions:" + rule.name] = len(E.fns_seen)
        self.counts["roots:" + rule.name] = len(E.roots_done)
        self.counts["call_edges:" + rule.name] = len(E.calls_seen)
        self.info.setdefault("analysed_roots", []).extend(sorted(set(E.roots_done)))
        self.info.setdefault("analysed_functions", [])
        self.info["analysed_functions"] = sorted(set(self.info["analysed_functions"]) | set(E.fns_seen))
        for k, r in E.reports.items():
            self.bad(r["rule"], r["key"], r["msg"], "%s:%s in %s" % (r["file"], r["line"], r["fn"]),
                     ["stack: " + " > ".join(reversed(r["stack"]))] + r["trace"])
        E.wall = time.time() - t
        self.counts["ms:" + rule.name] = int(E.wall * 1000)
        return E


class SliceRule(Rule):
    """path rule restricted to functions that can reach something the rule cares about.

    `relevant(site)` says which call sites matter; `rel_bodies` may add bodies directly."""
    K = 6
    small = 12

    def __init__(self, ctx):
        self.ctx = ctx
        self._rel = None

    def relevant(self, site):
        return True

    def rel_bodies(self):
        return set()

    def slice_roots(self):
        return ["libshpool::run"]

    def entry_roots(self):
        """the subcommands behind libshpool::run that matter (run itself if it matters directly)"""
        if self._rel is None:
            self.prepare()
        top = "libshpool::run"
        direct = {top} | {x for x in self.ctx.G.succ.get(top, ()) if x.startswith(top + "::")}
        if direct & self._base:
            return [top]
        out = set()
        for d in direct:
            out |= {x for x in self.ctx.G.succ.get(d, ()) if x in self._rel and x in self.ctx.F.bodies and x not in direct}
        return sorted(out) or [top]

    def prepare(self):
        G = self.ctx.G
        base = G.calling(self.relevant) | self.rel_bodies()
        self._base = base
        self._rel = G.up(base)
        return self._rel

    def opaque(self, body):
        if self._rel is None:
            self.prepare()
        if body.p in self._rel:
            return False
        if body.kind == "closure" and self.ctx.G.owner(body.p) in self._rel and len(body.blocks) <= 60:
            return False
        return len(body.blocks) > self.small

    def roots(self, E):
        if self._rel is None:
            self.prepare()
        return [(r, None, self.start(r)) for r in self.slice_roots()]


# ---------------------------------------------------------------- project anchors
SESSION = "libshpool::daemon::shell::Session"
INNER = "libshpool::daemon::shell::SessionInner"


def is_table(ty):
    """HashMap<String, Box<Session>> (the session table)"""
    t = ty.peel()
    return "HashMap" in (t.d or "") and t.mentions(SESSION)
