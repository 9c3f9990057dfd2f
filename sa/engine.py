"""ESP-style abstract interpreter over MIR facts.

State = (call string, block, rule automaton state, lock set, environment). Environments hold
abstract memory plus facts (symbolic expression -> constant / enum variant); at merge points
environments with equal automaton state and lock set are deduplicated, and merged once there
are more than `K` of them.  Unwinding paths are not followed.
"""
import re, sys, time
from collections import deque
from .values import *
from .values import mk as _mk
from . import facts as FX

sys.setrecursionlimit(10000)


class Incomplete(Exception):
    pass


class Env:
    __slots__ = ("mem", "facts", "held", "syms")

    def __init__(self):
        self.mem, self.facts, self.held, self.syms = {}, {}, EMPTY, frozenset()

    def copy(self):
        e = Env.__new__(Env)
        e.mem, e.facts, e.held, e.syms = dict(self.mem), dict(self.facts), self.held, self.syms
        return e


class Frame:
    __slots__ = ("body", "fid", "dest", "target", "cont", "parent", "key", "callbb", "subst", "paths", "stackkey")


class State:
    __slots__ = ("frame", "bb", "env", "st", "trace", "root")

    def fork(self):
        s = State.__new__(State)
        s.frame, s.bb, s.env, s.st, s.trace, s.root = self.frame, self.bb, self.env.copy(), self.st, self.trace, self.root
        return s


class Ev:
    """a call event"""
    __slots__ = ("p", "q", "trait", "args", "ta", "span", "body", "fn", "ops", "dest", "target", "S", "E", "clov", "bb")

    def where(self):
        return "%s:%s" % (self.body.file, self.span[0])

    def argty(self, i):
        return self.E.op_ty(self.S, self.body, self.ops[i])

    def load(self, i, depth=3):
        return self.E.load(self.S.env, self.args[i], depth)

    def destty(self):
        return self.E.place_ty(self.body, self.dest)

    def fnname(self):
        return self.body.p


class Rule:
    """Base class: override what is needed."""
    name = "?"
    K = 12
    inline_depth = 14
    on_phi = None            # (n, x, y): symbol n stands for x or y from now on
    phi_tags = None          # tags of the symbol that stands for two joined values
    local_stores = False     # call on_store for whole local variables too
    split0 = False           # keep states whose result has a different variant apart
    max_steps = 3000000

    def start(self, root):
        return ()

    def roots(self, E):
        return []

    def on_call(self, S, ev):
        return None

    def on_result(self, S, ev, ret):
        pass

    def on_branch(self, S, v, val):
        pass

    def on_discr(self, S, v, ty, n):
        """the variant of v, which is known to be the one with discriminant n, is looked at"""

    def on_drop(self, S, v, ty, root, path):
        pass

    def on_store(self, S, root, path, v, body, span):
        pass

    def on_acquire(self, S, guard, ev, trying):
        pass

    def on_release(self, S, guard):
        pass

    def on_return(self, S, frame, v):
        pass

    def on_end(self, S, v):
        pass

    def on_diverge(self, S, ev):
        pass

    def on_assert(self, S, body, term, vals, span):
        pass

    def on_spawn(self, S, ev, clo):
        return self.start(clo.a[0])

    pins = None  # value -> bool: is a local that holds it kept although nothing reads it any more?

    def keep(self, st):
        return ()

    def opaque(self, body):
        return False


PRUNE = object()


class Act:
    """what a rule's on_call may return"""

    def __init__(self, ret=None, opaque=False, end=False, forks=None, model=True, states=None):
        self.ret, self.opaque, self.end, self.forks, self.model, self.states = ret, opaque, end, forks, model, states


NOTFOUND = object()


class Engine:
    def __init__(self, F, rule, verbose=False):
        self.F, self.rule, self.verbose = F, rule, verbose
        self.symtab, self.symmeta = {}, []
        self.frames = {}
        self.visited = {}
        self.reports = {}
        self.steps = 0
        self.discr_n = {}
        self.rootq = deque()
        self.rootseen = {}
        self.roots_done = []
        self.fns_seen = set()
        self.calls_seen = set()
        self.promcache = {}
        self.fnids = {}
        self.fnlist = []
        self.curS = None
        self._ta = None
        from . import models
        self.M = models
        self.fromimpls = {}
        for im in F.impls:
            if im["tr"] in ("std::convert::From", "std::convert::TryFrom"):
                for m in im["m"]:
                    self.fromimpls.setdefault(m[1], im)
        rule.E = self

    # ------------------------------------------------------------------ syms
    def symid(self, key, meta=None):
        n = self.symtab.get(key)
        if n is None:
            n = len(self.symmeta)
            self.symtab[key] = n
            self.symmeta.append(meta or key)
        return n

    def symkey(self, n):
        """the program point that introduces symbol n (stable between runs)"""
        if len(getattr(self, "_rev", ())) != len(self.symtab):
            self._rev = {v: k for k, v in self.symtab.items()}
        return self._rev[n]

    def fresh(self, S, label, tags=EMPTY, meta=None):
        """a symbol introduced at the current program point"""
        n = self.symid((S.frame.key, S.bb, label), meta)
        if n in S.env.syms:
            self.rename(S, n)
        S.env.syms = S.env.syms | {n}
        return mk("S", n, tags if isinstance(tags, frozenset) else frozenset(tags))

    def rename(self, S, n):
        """the point is executed again: values from the previous round get another name"""
        env = S.env
        hit = False
        for r, v in env.mem.items():
            if n in v.syms or (r[0] == "D" and n in r[1].syms):
                hit = True
                break
        if not hit:
            for k in env.facts:
                if n in k.syms:
                    hit = True
                    break
        kept = [v for v in self.rule.keep(S.st) if n in v.syms]
        if not hit and not kept:
            return
        key = ("old", n)
        m = self.symid(key, ("old", self.symmeta[n]))
        # drop facts about the even older generation
        cache = {}

        def f(v):
            if v.k == "S" and v.a[0] == n:
                return mk("S", m, v.a[1])
            return None
        sub = lambda v: self.subst(v, f, cache) if n in v.syms else v
        nm = {}
        for r, v in env.mem.items():
            nr = r
            if r[0] == "D" and n in r[1].syms:
                nr = ("D", sub(r[1]))
            if n in v.syms:
                v = sub(v)
            nm[nr] = v
        env.mem = nm
        nf = {}
        for k, x in env.facts.items():
            if m in k.syms:
                continue
            if n in k.syms:
                k = sub(k)
            nf[k] = x
        env.facts = nf
        env.syms = (env.syms - {n}) | {m}
        if env.held:
            env.held = frozenset(sub(g) if n in g.syms else g for g in env.held)
        if kept:
            S.st = self.rule.rename(S.st, sub)

    def subst(self, v, f, cache, roots=None):
        if v in cache:
            return cache[v]
        w = f(v)
        if w is None:
            def walk(x):
                if isinstance(x, V):
                    return self.subst(x, f, cache, roots)
                if isinstance(x, tuple):
                    if roots and len(x) == 3 and x[0] == "L":
                        return roots(x)
                    return tuple(walk(y) for y in x)
                return x
            if v.k == "guard":
                cls, kind, n, r, path = v.a
                w = _mk("guard", cls, kind, n, walk(r), path)
            elif v.k == "S":
                w = v
                if v.own:
                    w = mk("S", v.a[0], frozenset(("own", self.subst(t[1], f, cache, roots)) if isinstance(t, tuple) and t[0] == "own" else t for t in v.a[1]))
            else:
                w = _mk(v.k, *[walk(x) for x in v.a])
        cache[v] = w
        return w

    # ------------------------------------------------------------------ memory
    def rd_root(self, env, root):
        v = env.mem.get(root)
        if v is not None:
            return v
        k = root[0]
        if k == "K":
            return root[1]
        if k == "D":
            return mk("drf", root[1])
        if k == "P" and root in self.parent_mem:
            return self.parent_mem[root]
        n = self.symid(("init", root))
        return mk("S", n, EMPTY)

    def get(self, v, e):
        k = v.k
        t = e[0]
        if k == "ov":
            for (x, y) in v.a[1]:
                if x == e:
                    return y
            return self.get(v.a[0], e)
        if t == "f":
            if k == "agg":
                fs = v.a[2]
                if e[1] < len(fs):
                    return fs[e[1]]
                return mk("fld", v, e[2])
            if k == "clo":
                return v.a[1][e[1]] if e[1] < len(v.a[1]) else mk("fld", v, e[2])
            if k in ("ref", "i", "guard"):
                return v
            if k == "dc":
                return mk("vf", v.a[0], v.a[1], e[1])
            return mk("fld", v, e[2])
        if t == "v":
            if k == "agg":
                return v
            return mk("dc", v, e[1])
        if t == "ix":
            if k == "agg" and v.a[0] == "[]":
                if len(e) > 1 and isinstance(e[1], int):
                    fs = v.a[2]
                    if -len(fs) <= e[1] < len(fs):
                        return fs[e[1]]
                elif v.a[2] and all(x is v.a[2][0] for x in v.a[2]):
                    return v.a[2][0]
            if k == "ref":
                return v
            return mk("idx", v) if len(e) == 1 or not isinstance(e[1], int) else mk("idx", v, e[1])
        if t == "$data":
            if k == "agg" and v.a[0] == "$mutex":
                return v.a[2][0]
            return mk("fld", v, "$data")
        return mk("fld", v, str(e))

    def put(self, v, e, nv):
        k = v.k
        t = e[0]
        if k == "agg":
            if t == "f" and e[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[e[1]] = nv
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            if t == "v":
                return nv
            if t == "$data" and v.a[0] == "$mutex":
                return mk("agg", "$mutex", None, (nv,))
            if t == "ix" and v.a[0] == "[]" and len(e) > 1 and isinstance(e[1], int) and -len(v.a[2]) <= e[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[e[1]] = nv
                return mk("agg", "[]", None, tuple(fs))
        if k == "clo" and t == "f" and e[1] < len(v.a[1]):
            fs = list(v.a[1])
            fs[e[1]] = nv
            return mk("clo", v.a[0], tuple(fs))
        if k in ("ref", "guard") and t == "f":
            return nv
        if t == "ix":
            tags = v.tags | nv.tags
            return mk("S", self.symid(("upd", v.k)), frozenset(x for x in tags if not (isinstance(x, tuple) and x[0] == "own")))
        if k == "ov":
            items = dict(v.a[1])
            items[e] = nv
            return mk("ov", v.a[0], tuple(sorted(items.items(), key=lambda x: str(x[0]))))
        return mk("ov", v, ((e, nv),))

    def set_in(self, v, path, nv):
        if not path:
            return nv
        return self.put(v, path[0], self.set_in(self.get(v, path[0]), path[1:], nv))

    def read(self, env, root, path):
        v = self.rd_root(env, root)
        for e in path:
            v = self.get(v, e)
        return v

    def write(self, env, root, path, nv):
        if root[0] == "K":
            return
        if not path:
            env.mem[root] = nv
        else:
            env.mem[root] = self.set_in(self.rd_root(env, root), path, nv)

    def deref(self, v):
        """(root, path) that pointer value v points to"""
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k in ("s", "b", "i", "u", "fn", "clo", "agg"):
            return ("K", v), ()
        return ("D", v), ()

    def load(self, env, v, depth=3):
        """value behind (nested) references"""
        while depth and v.k == "ref":
            v = self.read(env, v.a[0], v.a[1])
            depth -= 1
        return v

    def place(self, S, body, fid, pl):
        env = S.env
        root, path = ("L", fid, pl[0]), ()
        for p in pl[1:]:
            if p == "*":
                v = self.read(env, root, path)
                root, path = self.deref(v)
            elif isinstance(p, list):
                path = path + (("f", p[0], p[1]),)
            elif "v" in p:
                path = path + (("v", p["v"]),)
            elif "i" in p:
                iv = env.mem.get(("L", fid, p["i"]))
                if iv is not None and iv.k == "i":
                    path = path + (("ix", iv.a[0]),)
                else:
                    path = path + (("ix",),)
            elif "c" in p:
                path = path + (("ix", -p["c"] if p.get("e") else p["c"]),)
            elif p.get("e") and p.get("to") == 0:
                path = path + (("ix", agg("std::ops::RangeFrom", None, (I(p["from"]),))),)
            else:
                path = path + (("ix",),)
            if len(path) > 10:
                # collapse very deep paths
                v = self.read(env, root, path)
                root, path = ("K", v), ()
        return root, path

    def place_ty(self, body, pl):
        t = body.lty(pl[0])
        for p in pl[1:]:
            if p == "*":
                t = t.args[0] if t.args and (t.k in ("ref", "refmut", "ptr") or t.d == "std::boxed::Box") else t
            elif isinstance(p, list):
                t = body.tys[p[2]] if p[2] >= 0 else t
            elif "v" in p:
                pass
            elif "i" in p or "c" in p:
                t = t.args[0] if t.args else t
        return t

    def op_ty(self, S, body, op):
        pl = op.get("c") or op.get("m")
        t = self.place_ty(body, pl) if pl else body.tys[op["k"]["t"]]
        return self.sty(S, t)

    def sty(self, S, t):
        """t with the generic parameters of the current frame instantiated"""
        f = S.frame
        sub = f.subst
        if not sub:
            return t
        return FX.subst_ty(t, sub)

    # ------------------------------------------------------------------ constants
    def const(self, body, k):
        if "fn" in k:
            return self.fnval(body, k["fn"])
        if k.get("st"):
            return mk("ref", ("G", k["st"]), (), 0)
        if k.get("pr") is not None:
            return self.promoted(k.get("u"), k["pr"])
        ty = body.tys[k["t"]]
        v = k.get("v")
        if v is None and k.get("u"):
            c = self.F.consts.get(k["u"])
            if c is not None and c.get("v") is not None:
                return self.cv(c["v"], c["tab"][c["t"]], k["u"])
            return mk("u", ty.s, k["u"])
        if v is None and ty.k == "closure":
            return mk("clo", ty.d, ())
        if v is None and ty.k == "tuple" and not ty.args:
            return UNIT
        r = self.cv(v, ty, k.get("u"))
        return r

    def cv(self, v, ty, u=None):
        if v is None:
            if ty is not None and ty.k == "closure":
                return mk("clo", ty.d, ())
            if ty is not None and ty.k == "adt" and ty.d in self.F.adts and not self.F.adts[ty.d]["v"][0]["f"] and len(self.F.adts[ty.d]["v"]) == 1:
                return agg(ty.d, None, ())
            return mk("u", ty.s if ty is not None else "?", u)
        if "i" in v:
            return I(int(v["i"]))
        if "str" in v:
            return mk("s", v["str"])
        if "bytes" in v:
            return mk("b", tuple(v["bytes"]))
        if "agg" in v:
            name, variant = "()", v.get("v")
            subt = [None] * len(v["agg"])
            if ty is not None:
                if ty.k == "adt":
                    name = ty.d
                    ad = self.F.adts.get(ty.d)
                    if ad:
                        vv = ad["v"][variant or 0]["f"] if ad["v"] else []
                        subt = [(ad["tab"][f[1]] if f[1] >= 0 else None) for f in vv]
                        if ad["k"] != "enum":
                            variant = None
                elif ty.k == "closure":
                    return mk("clo", ty.d, tuple(self.cv(x, None) for x in v["agg"]))
                elif ty.k in ("array", "slice"):
                    name = "[]"
                    subt = [ty.args[0] if ty.args else None] * len(v["agg"])
                elif ty.k == "tuple":
                    subt = list(ty.args)
            fs = []
            for i, x in enumerate(v["agg"]):
                fs.append(self.cv(x, subt[i] if i < len(subt) else None))
            return agg(name, variant, fs)
        return mk("u", str(v), u)

    def fnval(self, body, fn):
        key = (fn["p"], fn.get("r"), body.crate, tuple(fn.get("ta") or ()))
        i = self.fnids.get(key)
        if i is None:
            i = len(self.fnlist)
            self.fnids[key] = i
            self.fnlist.append((fn, body.tys))
        return mk("fn", i)

    def promoted(self, fname, idx):
        p = "%s::promoted[%d]" % (fname, idx)
        if p in self.promcache:
            return self.promcache[p]
        self.promcache[p] = mk("u", "promoted", p)
        b = self.F.bodies.get(p)
        if b is None:
            return self.promcache[p]
        v = self.straight(b)
        self.promcache[p] = v
        return v

    def straight(self, b):
        """evaluate a promoted / const body (no arguments)"""
        S = State()
        S.env, S.st, S.trace, S.root = Env(), None, None, b.p
        f = Frame()
        f.body, f.fid, f.dest, f.target, f.cont, f.parent, f.key, f.callbb, f.paths = b, 0, None, None, None, None, ("prom", b.p), None, ()
        S.frame, S.bb = f, 0
        n = 0
        while n < 200:
            n += 1
            bb = b.blocks[S.bb]
            for st in bb["s"]:
                self.stmt(S, b, st, quiet=True)
            t = bb["t"]
            if t[0] == "return":
                v = S.env.mem.get(("L", 0, 0)) or UNIT
                return self.freeze(S.env, v)
            if t[0] == "goto":
                S.bb = t[1]
            elif t[0] == "call" and t[4] is not None:
                args = [self.operand(S, b, o) for o in t[2]]
                fn = t[1].get("k", {}).get("fn")
                name = (fn.get("r") or fn["p"]) if fn else "?"
                v = self.M.pure(self, S, name, [self.freeze(S.env, a) for a in args])
                if v is None:
                    v = mk("op", "call:" + name, *[self.freeze(S.env, a) for a in args])
                r, p = self.place(S, b, 0, t[3])
                self.write(S.env, r, p, v)
                S.bb = t[4]
            elif t[0] == "assert":
                S.bb = t[4]
            elif t[0] == "drop":
                S.bb = t[3]
            elif t[0] == "switch":
                v = self.operand(S, b, t[1])
                if v.k != "i":
                    return mk("u", "const", b.p)
                for val, x in t[3]:
                    if int(val) == v.a[0]:
                        S.bb = x
                        break
                else:
                    S.bb = t[4]
            else:
                return mk("u", "const", b.p)
        return mk("u", "const", b.p)

    def freeze(self, env, v, d=8):
        """replace references to locals by references to constants"""
        if d == 0:
            return v
        if v.k == "ref" and v.a[0][0] in ("L", "B"):
            x = self.freeze(env, self.read(env, v.a[0], v.a[1]), d - 1)
            return mk("ref", ("K", x), (), 0)
        if v.k == "agg":
            fs = tuple(self.freeze(env, x, d - 1) for x in v.a[2])
            if fs != v.a[2]:
                return mk("agg", v.a[0], v.a[1], fs)
        return v

    # ------------------------------------------------------------------ statements
    def operand(self, S, body, op):
        pl = op.get("c") or op.get("m")
        if pl:
            if len(pl) == 1:
                v = S.env.mem.get(("L", S.frame.fid, pl[0]))
                if v is not None:
                    return v
            r, p = self.place(S, body, S.frame.fid, pl)
            return self.read(S.env, r, p)
        return self.const(body, op["k"])

    def variants(self, ty):
        ad = self.F.adts.get(ty.d)
        return ad

    def discr_of(self, S, v, ty):
        if v.k == "agg":
            if v.a[1] is None:
                return I(0)
            ad = self.F.adts.get(v.a[0])
            if ad and ad["k"] == "enum" and v.a[1] < len(ad["v"]):
                return I(int(ad["v"][v.a[1]]["d"]))
            return I(v.a[1])
        d = mk("discr", v)
        if ty is not None and ty.k == "adt":
            ad = self.F.adts.get(ty.d)
            if ad and ad["k"] == "enum":
                self.discr_n[d] = (ty.d, tuple(int(x["d"]) for x in ad["v"]))
        f = S.env.facts.get(d)
        if isinstance(f, int):
            return I(f)
        return d

    def stmt(self, S, body, st, quiet=False):
        span, pl, rv = st
        env = S.env
        k = rv[0]
        if pl is None:
            return
        if k == "use":
            v = self.operand(S, body, rv[1])
        elif k == "ref":
            src = rv[2]
            r, p = self.place(S, body, S.frame.fid, src)
            if r[0] == "K" and not p and r[1].k in ("s", "b", "fn"):
                v = r[1]
            elif r[0] == "D" and not p:
                v = r[1]   # reborrow of an unknown pointer is that pointer
            else:
                v = mk("ref", r, p, 1 if rv[1] else 0)
        elif k == "cast":
            v = self.operand(S, body, rv[2])
            if rv[1] == "int" and v.k == "i":
                v = I(self.wrap(v.a[0], body.tys[rv[3]]))
        elif k == "bin":
            v = self.binop(S, rv[1], self.operand(S, body, rv[2]), self.operand(S, body, rv[3]))
        elif k == "un":
            x = self.operand(S, body, rv[2])
            if rv[1] == "Not":
                if x.k == "i":
                    t = self.place_ty(body, pl)
                    v = I(1 - x.a[0]) if t.k == "bool" else mk("un", "Not", x)
                elif x.k == "un" and x.a[0] == "Not":
                    v = x.a[1]
                else:
                    v = mk("un", "Not", x)
            elif rv[1] == "PtrMetadata":
                v = self.M.length(self, env, x)
            else:
                v = I(-x.a[0]) if x.k == "i" else mk("un", rv[1], x)
        elif k == "discr":
            r, p = self.place(S, body, S.frame.fid, rv[1])
            x = self.read(env, r, p)
            ty = self.place_ty(body, rv[1])
            v = self.discr_of(S, x, ty)
            if v.k == "i" and ty is not None:
                self.rule.on_discr(S, x, ty, v.a[0])
        elif k == "agg":
            vals = [self.operand(S, body, o) for o in rv[2]]
            h = rv[1]
            if h[0] == "tuple":
                v = mk("agg", "()", None, tuple(vals))
            elif h[0] == "array":
                v = mk("agg", "[]", None, tuple(vals)) if len(vals) <= 64 else mk("op", "array", *vals)
            elif h[0] == "closure":
                v = mk("clo", h[1], tuple(vals))
            elif h[0] == "adt":
                ad = self.F.adts.get(h[1])
                variant = h[2] if (ad is None or ad["k"] == "enum") else None
                if ad is None and h[1] not in (OPT, RES, CF):
                    variant = h[2]
                v = mk("agg", h[1], variant, tuple(vals))
            else:
                v = mk("op", "agg", *vals)
        elif k == "repeat":
            v = mk("op", "repeat", self.operand(S, body, rv[1]), *([I(rv[2])] if len(rv) > 2 and rv[2] is not None else []))
        else:
            v = self.fresh(S, ("rv", str(pl)), EMPTY)
        if v.depth > MAXDEPTH and v.k not in ("agg", "ref", "clo"):
            v = self.fresh(S, ("deep", str(pl)), v.tags)
        if len(pl) == 1:
            root, path = ("L", S.frame.fid, pl[0]), ()
        else:
            root, path = self.place(S, body, S.frame.fid, pl)
        self.write(env, root, path, v)
        if not quiet and (path or root[0] != "L" or self.rule.local_stores):
            self.rule.on_store(S, root, path, v, body, span)

    def wrap(self, n, ty):
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty.s)
        if not bits:
            return n
        n &= (1 << bits) - 1
        if ty.s[0] == "i" and n >> (bits - 1):
            n -= 1 << bits
        return n

    def binop(self, S, op, a, b):
        f = S.env.facts
        if a.k != "i" and isinstance(f.get(a), int):
            a = I(f[a])
        if b.k != "i" and isinstance(f.get(b), int):
            b = I(f[b])
        if a.k == "i" and b.k == "i":
            x, y = a.a[0], b.a[0]
            r = None
            o = op.replace("WithOverflow", "").replace("Unchecked", "")
            if o == "Add": r = x + y
            elif o == "Sub": r = x - y
            elif o == "Mul": r = x * y
            elif o == "Eq": r = int(x == y)
            elif o == "Ne": r = int(x != y)
            elif o == "Lt": r = int(x < y)
            elif o == "Le": r = int(x <= y)
            elif o == "Gt": r = int(x > y)
            elif o == "Ge": r = int(x >= y)
            elif o == "BitAnd": r = x & y
            elif o == "BitOr": r = x | y
            elif o == "BitXor": r = x ^ y
            elif o == "Shl": r = x << (y & 127)
            elif o == "Shr": r = x >> (y & 127)
            elif o == "Div" and y: r = x // y
            elif o == "Rem" and y: r = x % y
            if r is not None:
                if op.endswith("WithOverflow"):
                    return tup(I(r), FALSE)
                return I(r)
        if op.endswith("WithOverflow"):
            return tup(mk("op", op[:-12], a, b), mk("op", "Ovf" + op[:-12], a, b))
        if a is b and a.k != "i":
            if op == "Eq":
                return TRUE
            if op == "Ne":
                return FALSE
        v = mk("op", op, a, b)
        if isinstance(f.get(v), int):
            return I(f[v])
        return v

    # ------------------------------------------------------------------ facts
    def known(self, env, v):
        """constant integer value of v under env, or None"""
        if v.k == "i":
            return v.a[0]
        f = env.facts.get(v)
        if isinstance(f, int):
            return f
        if v.k == "un" and v.a[0] == "Not":
            x = self.known(env, v.a[1])
            return None if x is None else 1 - x
        if v.k == "op" and v.a[0] in ("Eq", "Ne"):
            for (p, q) in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if q.k == "i":
                    f = env.facts.get(p)
                    if isinstance(f, int):
                        r = f == q.a[0]
                        return int(r if v.a[0] == "Eq" else not r)
                    if isinstance(f, tuple) and q.a[0] in f[1]:
                        return int(v.a[0] == "Ne")
        return None

    def boolish(self, v):
        if v.k == "un":
            return v.a[0] == "Not"
        if v.k == "op":
            if v.a[0] in ("BitAnd", "BitOr"):
                return self.boolish(v.a[1]) and self.boolish(v.a[2])
            return v.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "ptr_eq", "strpred", "isws", "strall")
        return False

    def assume(self, S, v, val):
        """record v == val (int) or v not in set ('ne', frozenset); False if contradictory"""
        env = S.env
        if v.k == "i":
            if isinstance(val, int):
                return v.a[0] == val
            return v.a[0] not in val[1]
        if v.k == "un" and v.a[0] == "Not" and isinstance(val, int):
            return self.assume(S, v.a[1], 1 - val)
        f = env.facts.get(v)
        if isinstance(val, int) and v.k == "op" and ((v.a[0] == "BitOr" and val == 0) or (v.a[0] == "BitAnd" and val == 1 and v.a[2].k != "i" and v.a[1].k != "i" and self.boolish(v))):
            if not (self.assume(S, v.a[1], val) and self.assume(S, v.a[2], val)):
                return False
        if isinstance(val, int):
            if isinstance(f, int):
                if f != val:
                    return False
            elif isinstance(f, tuple) and val in f[1]:
                return False
            k = self.known(env, v)
            if k is not None and k != val:
                return False
            env.facts[v] = val
            if v.k == "op" and v.a[0] in ("Eq", "Ne"):
                eq = (val == 1) == (v.a[0] == "Eq")
                for (p, q) in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    if q.k == "i" and p.k != "i":
                        if eq:
                            if isinstance(env.facts.get(p), tuple) and q.a[0] in env.facts[p][1]:
                                return False
                            env.facts[p] = q.a[0]
                        else:
                            g = env.facts.get(p)
                            if isinstance(g, int):
                                if g == q.a[0]:
                                    return False
                            else:
                                env.facts[p] = ("ne", (g[1] if g else EMPTY) | {q.a[0]})
        else:
            if isinstance(f, int):
                if f in val[1]:
                    return False
            else:
                env.facts[v] = ("ne", (f[1] if f else EMPTY) | val[1])
        # a rule that knows more may rule the branch out
        return self.rule.on_branch(S, v, val) is not PRUNE

    def cases(self, S, v, n=2):
        """case split an Option/Result/ControlFlow value: yields (state, variant, payload)"""
        if v.k == "agg" and v.a[1] is not None:
            return [(S, v.a[1], v.a[2][0] if v.a[2] else UNIT)]
        d = mk("discr", v)
        kn = self.known(S.env, d)
        out = []
        for i in range(n):
            if kn is not None and kn != i:
                continue
            s = S.fork() if kn is None and i < n - 1 else S
            if not self.assume(s, d, i):
                continue
            out.append((s, i, self.get(mk("dc", v, i), ("f", 0, "0")) if v.k != "ov" else self.get(self.get(v, ("v", i)), ("f", 0, "0"))))
        return out

    # ------------------------------------------------------------------ locks
    def acquire(self, S, g, ev, trying=False):
        self.rule.on_acquire(S, g, ev, trying)
        S.env.held = S.env.held | {g}
        root, path = g.a[3], g.a[4]
        self.write(S.env, root, path + (("$data",),), self.fresh(S, "data", self.rule_tags_for_lock(g)))

    def rule_tags_for_lock(self, g):
        f = getattr(self.rule, "lock_tags", None)
        return frozenset(f(g)) if f else EMPTY

    def release(self, S, v):
        for g in v.own:
            hit = None
            for h in S.env.held:
                if h is g or (h.a[0] == g.a[0] and h.a[2] == g.a[2]):
                    hit = h
                    break
            if hit is not None:
                S.env.held = S.env.held - {hit}
                self.rule.on_release(S, hit)

    # ------------------------------------------------------------------ frames
    def mkframe(self, body, parent, callbb, dest, target, cont, extra=None):
        key = (parent.key if parent else None, body.p, callbb, cont, extra)
        f = self.frames.get(key)
        if f is None:
            self.F.prepare(body)
            f = Frame()
            f.body, f.parent, f.callbb, f.dest, f.target, f.cont = body, parent, callbb, dest, target, cont
            f.fid = parent.fid + 1 if parent else 0
            f.subst = None
            if body.gen:
                if body.kind == "closure":
                    q = parent
                    while q is not None:
                        if q.subst and q.body.gen == body.gen:
                            f.subst = q.subst
                            break
                        q = q.parent
                elif self._ta is not None and len(self._ta) == len(body.gen):
                    f.subst = dict(zip(body.gen, self._ta))
            f.key = len(self.frames) + 1
            f.paths = (parent.paths if parent else ()) + (body.p,)
            self.frames[key] = f
        return f

    def stack(self, S):
        out = []
        f = S.frame
        while f:
            out.append(f.body.p)
            f = f.parent
        return out

    def enter(self, S, body, args, dest, target, cont, extra=None):
        caller = S.frame
        fr = self.mkframe(body, caller, S.bb, None if dest is None else _hp(dest), target, cont, extra)
        self.fns_seen.add(body.p)
        for i in range(body.argc):
            v = args[i] if i < len(args) else self.fresh(S, ("arg", i))
            S.env.mem[("L", fr.fid, i + 1)] = v
        S.frame, S.bb = fr, 0
        S.trace = (S.trace, ("enter", body.p, body.file, body.line))
        self.gc(S)
        return [S]

    def gc(self, S):
        env = S.env
        fr = S.frame
        live = fr.body.live[S.bb]
        if S.bb == 0:
            for i in range(fr.body.argc):
                live |= 0  # arguments that are dead on entry may go
        if fr.parent is not None and S.bb == 0:
            # just entered: prune the caller too
            pass
        fid = fr.fid
        mem = env.mem
        keep = {}
        work = []
        pending = {}
        pins = self.rule.pins
        liveSyms = set()
        caller = fr.parent
        cl = None
        if caller is not None and S.bb == 0 and fr.target is not None:
            cl = caller.body.live[fr.target]
            cfid = caller.fid
            # values needed to store the result
        lsym = liveSyms.update
        # what is kept for the calls that are under way
        calls = set()
        x = fr
        while x.parent is not None:
            calls.add((x.parent.fid, x.callbb))
            x = x.parent
        for r, v in mem.items():
            if r[0] == "T" and (r[1], r[2]) in calls:
                keep[r] = v
                if v.syms:
                    lsym(v.syms)
                if v.refs:
                    work.append(v)
            elif r[0] == "L":
                f = r[1]
                if f == fid:
                    if not (live >> r[2]) & 1 and not (pins and pins(v)):
                        pending[r] = v
                        continue
                elif f > fid:
                    continue
                elif cl is not None and f == cfid and not (cl >> r[2]) & 1 and not (pins and pins(v)):
                    if not (fr.dest and r[2] == fr.dest[0] and len(fr.dest) > 1):
                        pending[r] = v
                        continue
                keep[r] = v
                if v.syms:
                    lsym(v.syms)
                if v.refs:
                    work.append(v)
            else:
                pending[r] = v
        for v in self.rule.keep(S.st):
            work.append(v)
        for g in env.held:
            work.append(g)
        droots = [r for r in pending if r[0] == "D"]
        while True:
            while work:
                v = work.pop()
                if v.syms:
                    lsym(v.syms)
                for r in v.refs:
                    x = pending.pop(r, None)
                    if x is not None:
                        keep[r] = x
                        work.append(x)
            for r in droots:
                if r in pending and (r[1].syms <= liveSyms):
                    x = pending.pop(r)
                    keep[r] = x
                    work.append(x)
                    work.append(r[1])
            if not work:
                break
        env.mem = keep
        if env.facts:
            env.facts = {k: x for k, x in env.facts.items() if k.syms <= liveSyms}
        env.syms = frozenset(liveSyms)

    # ------------------------------------------------------------------ merging
    def arrive(self, S):
        """S is at a merge point; returns the state to continue with, or None if covered"""
        self.gc(S)
        key = (S.frame.key, S.bb, S.st, S.env.held)
        if self.rule.split0:
            v = S.env.mem.get(("L", S.frame.fid, 0))
            if v is not None and v.k == "agg" and v.a[1] is not None:
                key = key + (v.a[1],)
        seen = self.visited.get(key)
        if seen is None:
            self.visited[key] = seen = []
        env = S.env
        for e in seen:
            if e.mem == env.mem and e.facts.items() <= env.facts.items():
                return None
        if S.bb in S.frame.body.loophead:
            # ints that differ only are joined at once (loop counters)
            for i, e in enumerate(seen):
                m = self.intjoin(S, e, env)
                if m is not None:
                    if m.mem == e.mem and m.facts == e.facts:
                        return None
                    seen[i] = m
                    S.env = m.copy()
                    return S
        if key in self.wide:
            m = self.join(S, seen[0], env)
            if m.mem == seen[0].mem and m.facts == seen[0].facts:
                return None
            seen[0] = m
            S.env = m.copy()
            return S
        if len(seen) < self.rule.K:
            seen.append(env.copy())
            return S
        # join everything
        j = seen[0]
        for e in seen[1:]:
            j = self.join(S, j, e)
        m = self.join(S, j, env)
        seen[:] = [m]
        self.wide.add(key)
        S.env = m.copy()
        return S

    def intjoin(self, S, a, b):
        if a.mem.keys() != b.mem.keys():
            return None
        diffs = []
        for r, v in a.mem.items():
            w = b.mem[r]
            if v is w:
                continue
            if v.k in ("i", "S", "op") and w.k in ("i", "S", "op") and not v.own and not w.own:
                if v.k == "i" and v.a[0] in (0, 1) and w.k == "i" and w.a[0] in (0, 1):
                    return None   # booleans are worth keeping apart
                if (v.k == "i") == (w.k == "i") and v.k != "i" and not (self.isphi(v) or self.isphi(w)):
                    return None
                if not (v.k == "i" or self.isphi(v) or w.k == "i" or self.isphi(w)):
                    return None
                diffs.append(r)
            else:
                return None
        return self.join(S, a, b)

    def isphi(self, v):
        if v.k != "S":
            return False
        m = self.symmeta[v.a[0]]
        return isinstance(m, tuple) and m and m[0] == "phi"

    def join(self, S, a, b):
        e = Env()
        e.held = a.held
        e.syms = a.syms | b.syms
        phis = set()

        def jv(x, y, key):
            if x is y:
                return x
            if x.k == "agg" and y.k == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
                return mk("agg", x.a[0], x.a[1], tuple(jv(p, q, key + (i,)) for i, (p, q) in enumerate(zip(x.a[2], y.a[2]))))
            if x.k == "clo" and y.k == "clo" and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]):
                return mk("clo", x.a[0], tuple(jv(p, q, key + (i,)) for i, (p, q) in enumerate(zip(x.a[1], y.a[1]))))
            if x.k == "ov" and y.k == "ov" and x.a[0] is y.a[0]:
                dx, dy = dict(x.a[1]), dict(y.a[1])
                items = {}
                for k in set(dx) | set(dy):
                    p = dx[k] if k in dx else self.get(x.a[0], k)
                    q = dy[k] if k in dy else self.get(y.a[0], k)
                    items[k] = jv(p, q, key + (k,))
                return mk("ov", x.a[0], tuple(sorted(items.items(), key=lambda z: str(z[0]))))
            if x.k == "ov" and x.a[0] is y:
                return mk("ov", y, tuple((k, jv(p, self.get(y, k), key + (k,))) for k, p in x.a[1]))
            if y.k == "ov" and y.a[0] is x:
                return mk("ov", x, tuple((k, jv(p, self.get(x, k), key + (k,))) for k, p in y.a[1]))
            n = self.symid(("phi", S.frame.key, S.bb, key))
            phis.add(n)
            if self.rule.on_phi is not None:
                self.rule.on_phi(n, x, y)
            r = mk("S", n, x.tags | y.tags if plain else self.rule.phi_tags(a, x, b, y))
            vx = x.a[1] if x.k == "agg" and x.a[0] in (OPT, RES, CF) else a.facts.get(mk("discr", x)) if y.k != "agg" or y.a[0] in (OPT, RES, CF) else None
            if isinstance(vx, int):
                vy = y.a[1] if y.k == "agg" and y.a[0] in (OPT, RES, CF) else b.facts.get(mk("discr", y))
                if vx == vy:
                    same[mk("discr", r)] = vx
            return r
        plain = self.rule.phi_tags is None
        same = {}
        bm, em = b.mem, e.mem
        for r, v in a.mem.items():
            w = bm.get(r)
            if w is v:
                em[r] = v
                continue
            if w is None:
                if r[0] in ("L", "B", "T"):
                    continue
                w = self.rd_root(b, r)
            em[r] = jv(v, w, r)
        if len(em) != len(bm):
            for r, w in bm.items():
                if r not in em and r not in a.mem and r[0] not in ("L", "B", "T"):
                    em[r] = jv(self.rd_root(a, r), w, r)
        bf = b.facts
        if phis:
            for k, x in a.facts.items():
                if bf.get(k) == x and not (k.syms & phis):
                    e.facts[k] = x
        else:
            for k, x in a.facts.items():
                if bf.get(k) == x:
                    e.facts[k] = x
        e.facts.update(same)
        e.syms = e.syms | phis
        return e

    # ------------------------------------------------------------------ run
    def add_root(self, path, args=None, st=None):
        self.rootq.append((path, args, st))

    def run(self):
        self.t0 = time.time()
        self.wide = set()
        self.parent_mem = {}
        for r in self.rule.roots(self):
            self.add_root(*r)
        while self.rootq:
            path, args, st = self.rootq.popleft()
            self.run_root(path, args, st)
        return self.reports

    def run_root(self, path, args, st):
        body = self.F.bodies[path]
        S = State()
        S.env = Env()
        S.root = path
        S.trace = None
        fr = self.mkframe(body, None, None, None, None, ("root", st if _hashable(st) else None, args))
        S.frame, S.bb = fr, 0
        S.st = st if st is not None else self.rule.start(path)
        self.fns_seen.add(path)
        for i in range(body.argc):
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = mk("S", self.symid(("rootarg", path, i)), frozenset(getattr(self.rule, "root_tags", lambda b, i: ())(body, i)))
            S.env.mem[("L", 0, i + 1)] = v
        self.roots_done.append(path)
        self.explore([S])

    def explore(self, work):
        # work list ordered by depth-first, deepest frame first
        while work:
            S = work.pop()
            while S is not None:
                self.steps += 1
                if self.steps > self.rule.max_steps:
                    raise Incomplete("step limit in %s (%s)" % (S.root, self.rule.name))
                out = self.step(S)
                S = None
                forked = len(out) > 1
                for s in out:
                    if forked or s.frame.body.merge[s.bb]:
                        s = self.arrive(s)
                        if s is None:
                            continue
                    if S is None:
                        S = s
                    else:
                        work.append(s)

    def step(self, S):
        fr = S.frame
        body = fr.body
        bb = body.blocks[S.bb]
        self.curS = S
        for st in bb["s"]:
            self.stmt(S, body, st)
        t = bb["t"]
        k = t[0]
        if k == "goto":
            S.bb = t[1]
            return [S]
        if k == "call":
            return self.call(S, body, t, bb["l"])
        if k == "switch":
            return self.switch(S, body, t, bb["l"])
        if k == "drop":
            return self.drop(S, body, t)
        if k == "return":
            v = S.env.mem.get(("L", fr.fid, 0))
            if v is None:
                v = UNIT
            self.rule.on_return(S, fr, v)
            if fr.parent is None:
                self.rule.on_end(S, v)
                return []
            self.pop(S)
            return self.apply_cont(S, fr, v)
        if k == "assert":
            vals = []
            cond = self.operand(S, body, t[1])
            self.rule.on_assert(S, body, t, cond, bb["l"])
            kn = self.known(S.env, cond)
            if kn is not None and bool(kn) != bool(t[2]):
                return []
            S.bb = t[4]
            return [S]
        return []

    def pop(self, S):
        fid = S.frame.fid
        mem = S.env.mem
        for r in [r for r in mem if r[0] == "L" and r[1] >= fid]:
            del mem[r]
        S.bb = S.frame.callbb
        S.frame = S.frame.parent

    def deliver(self, S, dest, target, v):
        """store a call result and continue at target"""
        if target is None:
            return []
        if dest is not None:
            body = S.frame.body
            pl = _up(dest)
            if len(pl) == 1:
                S.env.mem[("L", S.frame.fid, pl[0])] = v
            else:
                r, p = self.place(S, body, S.frame.fid, pl)
                self.write(S.env, r, p, v)
                self.rule.on_store(S, r, p, v, body, body.blocks[S.bb]["l"])
        S.bb = target
        return [S]

    def apply_cont(self, S, fr, v):
        c = fr.cont
        k = c[0]
        if k == "raw":
            return self.deliver(S, fr.dest, fr.target, v)
        if k == "wrap":
            return self.deliver(S, fr.dest, fr.target, mk("agg", c[1], c[2], (v,)))
        if k == "saved":
            root = ("T", S.frame.fid, fr.callbb, c[1])
            x = S.env.mem.pop(root, None)
            return self.deliver(S, fr.dest, fr.target, x if x is not None else UNIT)
        if k == "boolsel":
            # closure returned a bool: true -> saved value, false -> alternative
            root = ("T", S.frame.fid, fr.callbb, c[1])
            x = S.env.mem.pop(root, UNIT)
            out = []
            for (s, val) in self.split_bool(S, v):
                out += self.deliver(s, fr.dest, fr.target, x if val else NONE)
            return out
        if k == "ext":
            return self.M.ext_continue(self, S, fr, v, c)
        if k == "drops":
            return self.run_drops(S, c[1], fr.target)
        if k == "model":
            return getattr(self.M, c[1])(self, S, fr, v, c)
        raise Exception("cont " + str(c))

    def split_bool(self, S, v):
        kn = self.known(S.env, v)
        if kn is not None:
            return [(S, kn)]
        s2 = S.fork()
        out = []
        if self.assume(S, v, 0):
            out.append((S, 0))
        if self.assume(s2, v, 1):
            out.append((s2, 1))
        return out

    def switch(self, S, body, t, span):
        v = self.operand(S, body, t[1])
        kn = self.known(S.env, v)
        if kn is not None:
            for val, x in t[3]:
                if int(val) == kn:
                    S.bb = x
                    return [S]
            if t[4] is None:
                return []
            S.bb = t[4]
            return [S]
        out = []
        listed = []
        fact = S.env.facts.get(v)
        ty = body.tys[t[2]]
        neg = v.k == "un" and v.a[0] == "Not"
        for val, x in t[3]:
            val = int(val)
            listed.append(val)
            if isinstance(fact, tuple) and val in fact[1]:
                continue
            if body.blocks[x]["t"][0] == "unreachable" and not body.blocks[x]["s"]:
                continue
            s = S.fork()
            if not self.assume(s, v, val):
                continue
            s.bb = x
            s.trace = (s.trace, ("branch", span, v, val, body.p))
            out.append(s)
        if t[4] is not None and not (body.blocks[t[4]]["t"][0] == "unreachable" and not body.blocks[t[4]]["s"]):
            val = None
            if ty.k == "bool" and listed == [0]:
                val = 1
            elif ty.k == "bool" and listed == [1]:
                val = 0
            elif v in self.discr_n:
                ex = set(listed) | (set(fact[1]) if isinstance(fact, tuple) else set())
                rest = [x for x in self.discr_n[v][1] if x not in ex]
                if not rest:
                    return out
                if len(rest) == 1:
                    val = rest[0]
            s = S
            if self.assume(s, v, val if val is not None else ("ne", frozenset(listed))):
                s.bb = t[4]
                s.trace = (s.trace, ("branch", span, v, val if val is not None else "other", body.p))
                out.append(s)
        return out

    # ------------------------------------------------------------------ drops
    def drop_list(self, S, root, path, ty, v, depth=0):
        """[(root, path, dtor path)] of local Drop impls run when the place is dropped"""
        out = []
        if depth > 6:
            return out
        name = None
        if ty is not None and ty.k == "adt":
            name = ty.d
        elif v.k == "agg" and v.a[0] not in ("()", "[]"):
            name = v.a[0]
        if name == "std::boxed::Box" and v.k == "ref":
            x = self.read(S.env, v.a[0], v.a[1])
            return self.drop_list(S, v.a[0], v.a[1], ty.args[0] if ty is not None and ty.args else None, x, depth + 1)
        ad = self.F.adts.get(name) if name else None
        if ad and ad.get("dtor") and ad["local"] and ad["dtor"] in self.F.bodies:
            out.append((root, path, ad["dtor"]))
        if v.k == "clo" and name is None:
            # what it captured by value
            tys = self.capture_types(v.a[0])
            for i, x in enumerate(v.a[1]):
                fty = tys[i] if i < len(tys) else None
                if x.k in ("ref", "fn") or fty is not None and fty.k in ("ref", "refmut", "ptr"):
                    continue
                if x.k in ("agg", "clo") or fty is not None:
                    out += self.drop_list(S, root, path + (("f", i, str(i)),), fty, x, depth + 1)
        if v.k == "agg":
            vi = v.a[1] or 0
            for i, x in enumerate(v.a[2]):
                fn, fty = str(i), None
                if ad and vi < len(ad["v"]) and i < len(ad["v"][vi]["f"]):
                    fn = ad["v"][vi]["f"][i][0]
                    if ad["v"][vi]["f"][i][1] >= 0:
                        fty = ad["tab"][ad["v"][vi]["f"][i][1]]
                if fty is not None and fty.k == "param":
                    fty = None
                p = path + ((("v", v.a[1]),) if v.a[1] is not None else ()) + (("f", i, fn),)
                if x.k in ("agg", "S", "ref") or fty is not None:
                    if fty is None and ty is not None and name in (OPT, RES) and ty.args:
                        fty = ty.args[vi] if name == RES and vi < len(ty.args) else ty.args[0]
                    if fty is not None and fty.k in ("ref", "refmut", "ptr"):
                        continue
                    out += self.drop_list(S, root, p, fty, x, depth + 1)
        elif ad and ad["local"] and ad["k"] == "struct":
            for i, f in enumerate(ad["v"][0]["f"]):
                if f[1] >= 0:
                    fty = ad["tab"][f[1]]
                    if fty.k == "adt" and fty.d in self.F.adts and self.F.adts[fty.d]["local"]:
                        out += self.drop_list(S, root, path + (("f", i, f[0]),), fty, self.get(v, ("f", i, f[0])), depth + 1)
        return out

    def capture_types(self, path):
        """types of what a closure captured, where it is made"""
        c = self.captypes.get(path) if hasattr(self, "captypes") else None
        if c is None:
            if not hasattr(self, "captypes"):
                self.captypes = {}
            c = []
            b = self.F.bodies.get(path)
            par = self.F.bodies.get(b.parent) if b is not None and b.parent else None
            for bb in par.blocks if par is not None else ():
                for st in bb["s"]:
                    if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "closure" and st[2][1][1] == path:
                        c = [self.place_ty(par, o.get("c") or o.get("m")) if o.get("c") or o.get("m") else None for o in st[2][2]]
            self.captypes[path] = c
        return c

    def drop(self, S, body, t):
        root, path = self.place(S, body, S.frame.fid, t[1])
        v = self.read(S.env, root, path)
        ty = body.tys[t[2]]
        self.rule.on_drop(S, v, ty, root, path)
        todo = self.drop_list(S, root, path, ty, v)
        if v.own:
            self.release(S, v)
        if todo:
            return self.run_drops(S, tuple(todo), t[3])
        S.bb = t[3]
        return [S]

    def run_drops(self, S, todo, target):
        if not todo:
            S.bb = target
            return [S]
        (root, path, dtor), rest = todo[0], todo[1:]
        b = self.F.bodies[dtor]
        if b.p in S.frame.paths or len(S.frame.paths) > self.rule.inline_depth:
            return self.run_drops(S, rest, target)
        self.calls_seen.add((S.frame.body.p, dtor))
        return self.enter(S, b, [mk("ref", root, path, 1)], None, target, ("drops", rest), ("drop", len(rest)))

    # ------------------------------------------------------------------ calls
    def call(self, S, body, t, span):
        f = t[1]
        ev = Ev()
        ev.E, ev.S, ev.body, ev.span, ev.ops, ev.dest, ev.target, ev.bb = self, S, body, span, t[2], _hp(t[3]), t[4], S.bb
        ev.clov = None
        fn = f.get("k", {}).get("fn") if "k" in f else None
        tys = body.tys
        if fn is None:
            fv = self.load(S.env, self.operand(S, body, f))
            if fv.k == "fn":
                fn, tys = self.fnlist[fv.a[0]]
        ev.args = [self.operand(S, body, o) for o in t[2]]
        ev.fn = fn
        if fn is None:
            ev.p = ev.q = "<indirect>"
            ev.trait, ev.ta = None, []
        else:
            ev.q = fn["p"]
            ev.p = fn.get("r") or fn["p"]
            ev.trait = fn.get("tr")
            ev.ta = [tys[i] for i in fn.get("ta") or []]
            if S.frame.subst:
                ev.ta = [self.sty(S, t) for t in ev.ta]
        return self.dispatch(S, ev)

    def dispatch(self, S, ev, cont=("raw",)):
        p = ev.p
        if (p.startswith("tracing") or p.startswith("<tracing")) and not p.startswith("tracing_subscriber::reload"):
            return self.M.tracing(self, S, ev)
        self.calls_seen.add((ev.body.p, p))
        S.trace = (S.trace, ("call", ev.span, p, ev.body.p, ev.body.file))
        act = self.rule.on_call(S, ev)
        if act is not None:
            if act.end:
                return []
            if act.states is not None:
                return act.states
            if act.forks is not None:
                out = []
                for (st, ret) in act.forks:
                    s = S.fork()
                    s.st = st
                    if ret is None:
                        ret = self.ext_result(s, ev)
                    self.rule.on_result(s, ev, ret)
                    out += self.deliver(s, ev.dest, ev.target, ret)
                return out
            if act.ret is not None:
                self.consume(S, ev)
                self.rule.on_result(S, ev, act.ret)
                return self.deliver(S, ev.dest, ev.target, act.ret)
            if act.opaque:
                return self.external(S, ev)
        if ev.target is None:
            b = self.F.bodies.get(p)
            if b is None:
                self.rule.on_diverge(S, ev)
                return []
        b = self.resolve(S, ev)
        if b is not None:
            if b.kind == "closure" and len(ev.args) == 2 and ev.q in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
                # the arguments come as one tuple
                tp = self.load(S.env, ev.args[1])
                if tp.k == "agg" and tp.a[0] == "()" and len(tp.a[2]) + 1 == b.argc:
                    ev.args = [ev.args[0]] + list(tp.a[2])
            if b.gen:
                self._ta = [t for t in ev.ta if t.k not in ("region", "const")] if ev.p == ev.q else None
                try:
                    return self.enter(S, b, ev.args, ev.dest, ev.target, cont)
                finally:
                    self._ta = None
            return self.enter(S, b, ev.args, ev.dest, ev.target, cont)
        r = self.M.model(self, S, ev)
        if r is not None:
            return r
        return self.external(S, ev)

    def resolve(self, S, ev):
        b = self.F.bodies.get(ev.p)
        if b is None:
            # blanket Into / TryInto over a local From / TryFrom, ToString over Display
            if ev.p in ("<T as std::convert::Into<U>>::into", "<T as std::convert::TryInto<U>>::try_into") and len(ev.ta) == 2:
                b = self.find_from(ev.ta[0], ev.ta[1], "From" if ev.p.endswith("::into") else "TryFrom")
            elif ev.fn is not None and ev.fn.get("r") is None and ev.trait and ev.ta:
                b = self.find_impl(ev.trait, ev.ta[0], ev.q, ev, S)
        if b is None or b.kind not in ("fn", "method", "closure"):
            return None
        if b.p in S.frame.paths or len(S.frame.paths) > self.rule.inline_depth:
            return None
        if self.rule.opaque(b):
            return None
        if self.is_derived(b):
            return None
        return b

    def is_derived(self, b):
        p = b.p
        return ("serde::" in p and (" as serde::" in p or "_serde::" in p)) or " as std::fmt::" in p or "clap::" in p

    def find_from(self, src, dst, tr):
        for path, im in self.fromimpls.items():
            if im["tr"].endswith("::" + tr):
                st = im["tab"][im["self"]] if isinstance(im["self"], int) else None
                if st is not None and st.s == dst.s and path in self.F.bodies:
                    b = self.F.bodies[path]
                    if b.argc == 1 and b.lty(1).s == src.s:
                        return b
        return None

    def find_impl(self, trait, selfty, q, ev, S):
        """resolve a trait call in generic code by the abstract value of the receiver"""
        if not ev.args:
            return None
        v = self.load(S.env, ev.args[0])
        name = None
        if v.k == "agg" and v.a[0] not in ("()", "[]"):
            name = v.a[0]
        if name is None:
            return None
        for im in self.F.impls:
            if im["tr"] == trait:
                st = im["tab"][im["self"]] if isinstance(im["self"], int) else None
                if st is not None and st.d == name:
                    for m in im["m"]:
                        if m[2] == q and m[1] in self.F.bodies:
                            return self.F.bodies[m[1]]
        return None

    def closure_of(self, S, v):
        x = self.load(S.env, v)
        if x.k in ("clo", "fn"):
            return x
        return None

    def invoke(self, S, clov, args, dest, target, cont, extra=None, frm=None):
        """call closure / fn value; returns states or None if it cannot be inlined"""
        x = self.load(S.env, clov)
        if x.k == "clo":
            b = self.F.bodies.get(x.a[0])
            if b is None or b.p in S.frame.paths or len(S.frame.paths) > self.rule.inline_depth + 2 or self.rule.opaque(b):
                return None
            self.F.prepare(b)
            a1 = x
            if b.argc and b.lty(1).k in ("ref", "refmut", "ptr"):
                if clov.k == "ref":
                    a1 = clov
                    # collapse & & closure
                    y = self.read(S.env, a1.a[0], a1.a[1])
                    while y.k == "ref":
                        a1 = y
                        y = self.read(S.env, a1.a[0], a1.a[1])
                else:
                    root = ("T", S.frame.fid, S.bb, ("clo", str(extra)))
                    S.env.mem[root] = x
                    a1 = mk("ref", root, (), 1)
            self.calls_seen.add((S.frame.body.p, b.p))
            return self.enter(S, b, [a1] + list(args), dest, target, cont, extra)
        if x.k == "fn":
            fn, tys = self.fnlist[x.a[0]]
            # tuple constructors and plain functions
            name = fn.get("r") or fn["p"]
            b = self.F.bodies.get(name)
            if b is not None and b.kind in ("fn", "method") and b.p not in S.frame.paths and not self.rule.opaque(b):
                self.calls_seen.add((S.frame.body.p, b.p))
                return self.enter(S, b, list(args), dest, target, cont, extra)
            ctor = self.M.ctor(self, name, args)
            if ctor is None:
                ev = Ev()
                body = S.frame.body
                ev.E, ev.S, ev.body, ev.span, ev.ops, ev.dest, ev.target, ev.bb = self, S, body, body.blocks[S.bb]["l"], [], dest, target, S.bb
                ev.clov = None
                ev.fn, ev.q, ev.p, ev.trait, ev.ta, ev.args = fn, fn["p"], name, fn.get("tr"), [tys[i] for i in fn.get("ta") or []], list(args)
                if not name.startswith("tracing"):
                    S.trace = (S.trace, ("call", ev.span, name, body.p, body.file))
                    self.calls_seen.add((body.p, name))
                    act = self.rule.on_call(S, ev)
                    if act is not None and act.end:
                        return []
                    if act is not None and act.ret is not None:
                        ctor = act.ret
                if ctor is None:
                    ctor = self.M.pure(self, S, name, list(args))
                if ctor is None:
                    tags = EMPTY
                    for a in args:
                        tags |= self.deep_tags(S.env, a)
                    ctor = self.fresh(S, ("fn", name, extra), tags, ("call", name))
            fr = Frame()
            fr.cont, fr.dest, fr.target, fr.callbb, fr.parent, fr.body = cont, dest, target, S.bb, S.frame, None
            return self.apply_cont(S, fr, ctor)
        return None

    def deep_tags(self, env, v, d=4):
        t = v.tags
        if d and v.refs:
            if v.k == "ref":
                x = self.read(env, v.a[0], v.a[1])
                t = t | self.deep_tags(env, x, d - 1)
            elif v.k == "agg":
                for x in v.a[2]:
                    if x.refs:
                        t = t | self.deep_tags(env, x, d - 1)
            elif v.k == "clo":
                for x in v.a[1]:
                    if x.refs:
                        t = t | self.deep_tags(env, x, d - 1)
        return t

    def arg_tags(self, S, ev):
        tags = EMPTY
        for a in ev.args:
            x = self.deep_tags(S.env, a)
            if x:
                if a.k == "ref":
                    x = frozenset(t for t in x if not (isinstance(t, tuple) and t[0] == "own"))
                tags = tags | x
            if a.own and a.k != "ref":
                tags = tags | frozenset(("own", g) for g in a.own)
        return tags

    def havoc_mut(self, S, ev):
        """values an external callee may have changed through &mut"""
        tags = None
        done = set()
        for i, a in enumerate(ev.args):
            work = [a]
            d = 0
            while work and d < 8:
                d += 1
                v = work.pop()
                if v.k == "ref" and v.a[2] == 1:
                    key = (v.a[0], v.a[1])
                    if key in done or v.a[0][0] == "K":
                        continue
                    done.add(key)
                    old = self.read(S.env, v.a[0], v.a[1])
                    if old.k in ("guard", "clo", "fn"):
                        continue
                    if old.k == "ref":
                        work.append(old)
                        continue
                    if tags is None:
                        tags = self.arg_tags(S, ev)
                    nt = tags | old.tags
                    nv = self.fresh(S, ("mut", i, d), nt, ("mut", ev.p))
                    self.write(S.env, v.a[0], v.a[1], nv)
                elif v.k == "agg" and v.refs:
                    work.extend(v.a[2])

    def ext_result(self, S, ev):
        # exact_tags mark values themselves, not what an unknown function makes of them
        tags = self.arg_tags(S, ev) - getattr(self.rule, "exact_tags", frozenset())
        rt = getattr(self.rule, "result_tags", None)
        if rt is not None:
            x = rt(S, ev)
            if x is not None:
                tags = tags | frozenset(x)
        if ev.dest is not None and len(ev.dest) == 1:
            ty = ev.body.lty(ev.dest[0])
            if ty.k == "tuple" and not ty.args:
                self.consume(S, ev)
                return UNIT
        return self.fresh(S, "ret", tags, ("call", ev.p, ev.where()))

    def consume(self, S, ev):
        for a in ev.args:
            if a.own and a.k != "ref":
                self.release(S, a)

    def external(self, S, ev):
        clos = []
        for i, a in enumerate(ev.args):
            c = self.closure_of(S, a)
            if c is not None and c.k == "clo":
                clos.append(i)
        if clos and ev.target is not None:
            return self.M.ext_closures(self, S, ev, clos)
        if ev.target is None:
            self.rule.on_diverge(S, ev)
            return []
        self.havoc_mut(S, ev)
        ret = self.ext_result(S, ev)
        self.rule.on_result(S, ev, ret)
        return self.deliver(S, ev.dest, ev.target, ret)

    # ------------------------------------------------------------------ threads
    def spawn(self, S, ev, clov):
        x = self.load(S.env, clov)
        if x.k != "clo":
            return
        st = self.rule.on_spawn(S, ev, x)
        if st is None:
            return
        path = x.a[0]
        if path not in self.F.bodies:
            return
        pm = {}

        def roots(r):
            nr = ("P", path, r[1], r[2])
            if nr not in pm:
                pm[nr] = None
                old = S.env.mem.get(r)
                if old is not None:
                    pm[nr] = self.subst(old, lambda v: None, cache, roots)
            return nr
        cache = {}
        y = self.subst(x, lambda v: None, cache, roots)
        for k, v in pm.items():
            if v is None:
                continue
            o = self.parent_mem.get(k)
            if o is not None and o is not v:
                v = mk("S", self.symid(("pm", k)), v.tags | o.tags)
            self.parent_mem[k] = v
        key = (path, y, st)
        seen = self.rootseen.setdefault((path, st), [])
        if y in seen:
            return
        if len(seen) >= 6:
            y = mk("clo", path, tuple(mk("S", self.symid(("up", path, i)), v.tags) for i, v in enumerate(y.a[1])))
            if y in seen:
                return
        seen.append(y)
        b = self.F.bodies[path]
        a = y
        if b.argc and b.lty(1).k in ("ref", "refmut"):
            a = mk("ref", ("K", y), (), 0)
        self.add_root(path, (a,), st)

    # ------------------------------------------------------------------ reports
    def report(self, S, rule, key, msg, span=None, body=None):
        if body is None:
            body = S.frame.body
        if span is None and S.frame.body is not None:
            span = S.frame.body.blocks[S.bb]["l"]
        full = "%s|%s" % (rule, key)
        if full in self.reports:
            return
        self.reports[full] = dict(rule=rule, key=key, msg=msg, file=body.file, line=span[0] if span else body.line,
                                  fn=body.p, root=S.root, stack=self.stack(S), trace=self.fmt_trace(S.trace))

    def fmt_trace(self, tr, n=60):
        out = []
        while tr is not None and len(out) < n:
            tr, e = tr
            if e[0] == "enter":
                out.append("enter %s (%s:%s)" % (e[1], e[2], e[3]))
            elif e[0] == "call":
                out.append("  call %s  [%s:%s]" % (e[2], e[4], e[1][0]))
            elif e[0] == "branch":
                out.append("  branch %s -> %s  [line %s of %s]" % (show(e[2])[:120], e[3], e[1][0], e[4].split("::")[-1]))
            else:
                out.append("  " + str(e))
        out.reverse()
        return out


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _hp(pl):
    """hashable form of a place"""
    if isinstance(pl, tuple):
        return pl
    out = []
    for p in pl:
        if isinstance(p, list):
            out.append(tuple(p))
        elif isinstance(p, dict):
            out.append(("d",) + tuple(sorted(p.items())))
        else:
            out.append(p)
    return tuple(out)


def _up(t):
    out = []
    for p in t:
        if isinstance(p, tuple):
            if p and p[0] == "d":
                out.append(dict(p[1:]))
            else:
                out.append(list(p))
        else:
            out.append(p)
    return out
