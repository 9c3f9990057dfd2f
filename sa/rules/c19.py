"""C19: layered configuration; every option merges, the higher priority wins."""
from .part import *
from .c14 import tagsof

EXPLAIN = ("The function that merges two configurations is evaluated on two unknown ones: each field of the result has to be the same field of the preferred one if that is set, and the same field of the other one otherwise. "
           "The loader is explored with reads and parses left open: every listed file is looked at in order, what was parsed is the preferred (or, where the list runs the other way, the other) operand of a merge "
           "with everything merged so far, the merged configuration takes its place, and what is returned is that configuration. The list of files names the system's file at the low priority end and the user's at the high one.")
ASSUME = ["the TOML parser maps each option to the field of its name"]

CFG = "libshpool::config::Config"


class Merge(Part):
    name = "merge"
    K = 1

    def opaque(self, body):
        return False

    def root_tags(self, body, i):
        return (("cfg", i),) if body.lty(i + 1).peel().d == CFG else ()

    def field(self, v):
        """(argument, field) of a value that is an option of one of the two, or (pair) of what stands for hi-or-lo"""
        if v.k == "S":
            return next((t for t in v.a[1] if isinstance(t, tuple) and t[0] == "or"), None)
        if v.k == "op" and v.a[0] == "or":
            a, b = self.field(v.a[1]), self.field(v.a[2])
            if a and b and a[0] == b[0] == "cfg" and a[2] == b[2] and a[1] != b[1]:
                return ("or", a[1], a[2])
            return None
        if v.k == "agg" and v.a[0] == OPT and v.a[1] == 1:
            x = v.a[2][0]
            n = 0
            while x.k in ("fld", "vf", "dc", "drf") and n < 4:
                x = x.a[0]
                n += 1
                r = self.field(x)
                if r and r[0] == "cfg":
                    return r
            return None
        base, name = (v.a[0], v.a[1]) if v.k == "fld" else (None, None)
        if base is not None:
            while base.k == "drf":
                base = base.a[0]
            if base.k == "S":
                t = next((t for t in base.a[1] if isinstance(t, tuple) and t[0] == "cfg"), None)
                if t:
                    names = [f[0] for f in self.ctx.F.adts[CFG]["v"][0]["f"]]
                    return ("cfg", t[1], name if name in names else names[name] if isinstance(name, int) else name)
        return None

    def raw(self, v):
        """the option value itself, for looking up whether it is set"""
        if v.k == "agg" and v.a[0] == OPT and v.a[1] == 1:
            x = v.a[2][0]
            while x.k in ("fld", "vf", "dc", "drf"):
                x = x.a[0]
                if self.field(x):
                    return x
        return v

    def phi_tags(self, a, x, b, y):
        E = self.E
        fx, fy = self.field(x), self.field(y)
        if fx and fx == fy and fx[0] == "or":
            return frozenset([fx])
        if fx and fy and fx[0] == fy[0] == "cfg" and fx[2] == fy[2] and fx[1] != fy[1]:
            for hi, env, v in ((fx, b, x), (fy, a, y)):
                k = mk("discr", self.raw(v))
                if E.known(env, k) == 0:
                    return frozenset([("or", hi[1], hi[2])])
        for f, g, env, v in ((fx, fy, b, y), (fy, fx, a, x)):
            # either way it is one of the two, joined again with itself
            if f and g and f[0] == "or" and g[0] == "cfg" and f[2] == g[2]:
                hi = self.hi_known(env, f)
                if g[1] == f[1] and hi == 1 or g[1] != f[1] and hi == 0:
                    return frozenset([f])
        return frozenset()

    def hi_known(self, env, f):
        for k, v in self.his.items():
            if k == (f[1], f[2]):
                return self.E.known(env, mk("discr", v))
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr":
                f = self.field(a.a[0])
                if f and f[0] == "cfg":
                    self.his[(f[1], f[2])] = a.a[0]
                    if isinstance(x, int) and self.E.known(S.env, a) is None:
                        self.E.assume(S, a, x)

    def on_call(self, S, ev):
        l = last(ev)
        if l in ("clone", "cloned", "take", "to_owned") and len(ev.ops) == 1:
            v = self.E.load(S.env, ev.args[0])
            if self.field(v) or v.k == "S" and any(isinstance(t, tuple) and t[0] == "cfg" for t in v.a[1]):
                return Act(ret=v)
        return None

    def on_end(self, S, v):
        E = self.E
        v = E.load(S.env, v)
        seen = self.per.setdefault(S.frame.body.p, {})
        for i, (n, t) in enumerate(fields(self.ctx.F, CFG)):
            x = E.get(v, ("f", i, n))
            if x.k == "ref":
                x = E.load(S.env, x)
            f = self.field(x)
            if f and f[0] == "or" and f[2] == n:
                seen.setdefault(n, set()).add(f[1])
            elif f and f[0] == "cfg" and f[2] == n and E.known(S.env, mk("discr", self.raw(x))) == 1 or f and f[0] == "cfg" and x.k == "agg" and f[2] == n:
                seen.setdefault(n, set()).add(f[1])
            elif f and f[0] == "cfg" and f[2] == n and any(E.known(S.env, mk("discr", h)) == 0 for k, h in self.his.items() if k == (1 - f[1], n)):
                seen.setdefault(n, set()).add(1 - f[1])
            else:
                self.rep(S, "option", None, "option %s of merged configurations is not that option of the higher priority one, or of the other if it is not set" % n, " " + n)
                continue
            self.ok("option " + n, type("e", (), {"body": S.frame.body}))


class Load(Part):
    name = "load"
    K = 4

    def __init__(self, ctx, roots, merges, hi, parsers):
        Part.__init__(self, ctx, roots)
        self.merges, self.hi, self.parsers = merges, hi, parsers
        self.dirs = set()

    def opaque(self, body):
        return body.kind != "closure" and not self.ctx.inner19(body)

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if ev.p.startswith("toml::") and l in ("from_str", "from_slice", "try_into") and any(t.d == CFG for t in ev.ta):
            self.ok("parses", ev)
            self.drop(S, "pending")
            return Act(forks=[(S.st | {"pending"}, agg(RES, 0, (E.fresh(S, "parsed", ["parsed"]),))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "perr", ["failed"]),)))])
        if ev.p in self.merges:
            a = [tagsof(E.load(S.env, x)) for x in ev.args]
            h = a[self.hi] if self.hi < len(a) else frozenset()
            o = a[1 - self.hi] if self.hi < len(a) else frozenset()
            if ("parsed" in h) == ("parsed" in o):
                self.rep(S, "merge", ev, "what is merged is not the file just parsed with what was loaded before")
            elif self.has(S, "some") and "merged" not in h | o:
                self.rep(S, "merge", ev, "a file is not merged with what was loaded before it")
            self.dirs.add("parsed" in h)
            self.ok("merges", ev)
            self.drop(S, "pending", "some")
            self.add(S, "some")
            return Act(ret=E.fresh(S, "merged", ["merged"]))
        if l == "next" and n == 1 and (ev.trait == "std::iter::Iterator" or "Iterator" in ev.q):
            self.ok("loops", ev)
            if "pending" in S.st:
                self.rep(S, "dropped", ev, "a file that was parsed is not merged")
            st = S.st - {"more"}
            return Act(forks=[(st, agg(OPT, 0, ())), (st | {"more"}, agg(OPT, 1, (E.fresh(S, "file"),)))])
        if l in ("take", "skip", "step_by", "take_while", "skip_while", "filter", "map_while", "nth", "find", "any", "all") and "Iterator" in ev.q:
            self.rep(S, "left-out", ev, "%s may leave configuration files out" % l)
        if l == "rev" and "Iterator" in ev.q:
            self.add(S, "rev")
            self.flips = True
        return None

    def on_end(self, S, v):
        v = self.E.load(S.env, v)
        if v.k == "agg" and v.a[1] == 1 or "failed" in S.st:
            if not (v.k == "agg" and v.a[0] == RES and v.a[1] == 1) and "failed" in S.st and not (v.k == "S" and "failed" in v.a[1]):
                self.rep(S, "broken", None, "a file that cannot be parsed is passed over")
            return
        t = tagsof(v)
        if "more" in S.st:
            self.rep(S, "left-out", None, "not all configuration files are looked at")
        if "pending" in S.st:
            self.rep(S, "dropped", None, "a file that was parsed is not merged")
        if "some" in S.st and "merged" not in t:
            self.rep(S, "not-returned", None, "what is returned is not the merged configuration")
        self.ok("results", type("e", (), {"body": S.frame.body}))

    flips = False


def order(ctx):
    """[(function, low priority first?)] for lists of files that name the system's file"""
    out = []
    for b in ctx.F.bodies.values():
        if not b.p.startswith("libshpool::config::"):
            continue
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] in ("array", "[]") and len(st[2][2]) > 1:
                    sys = [any(x[0] == "const" and "/etc/" in x[1] for x in sources(b, o)) for o in st[2][2]]
                    if any(sys):
                        out.append((b.p, sys[0] and not any(sys[1:]), sys[-1] and not any(sys[:-1])))
    return out


def run(ctx):
    ctx.rule("merge(hi, lo).f = hi.f or lo.f for every option f; files are merged lowest priority first")
    F, G = ctx.F, ctx.G
    merges = {b.p for b in F.bodies.values() if b.kind != "closure" and b.p.startswith("libshpool::") and b.lty(0).peel().d == CFG and [b.lty(i).peel().d for i in range(1, b.argc + 1)] == [CFG, CFG]}
    merges = {p for p in merges if not any(s.p == p and s.body.p in merges for s in G.sites)}
    ctx.floor("merge functions", len(merges), 1)
    m = Merge(ctx, merges)
    m.his, m.per = {}, {}
    run_parts(ctx, [m])
    hi = 0
    for p, per in m.per.items():
        votes = [x for s in per.values() for x in s]
        hi = 1 if votes.count(1) > votes.count(0) else 0
        for n, s in per.items():
            if s != {hi}:
                ctx.bad("layering", "option-order| %s" % n, "option %s prefers another layer than the other options do" % n, p)
    n = len(fields(F, CFG))
    ctx.floor("options merged", len({x for x in m.seen if x[0].startswith("option ")}), n - len([v for v in ctx.viol if "option" in v["key"]]) if n else 1)
    parse = lambda s: s.p.startswith("toml::") and last(s) in ("from_str", "from_slice", "try_into") and any(t.d == CFG for t in s.ta)
    pf = {G.owner(p) for p in G.calling(parse)}
    inner = pf | {G.owner(s.body.p) for s in G.sites if s.p in merges}
    ctx.inner19 = lambda b: b.p in inner or b.lty(0).mentions(CFG) and b.p.startswith("libshpool::config") and b.p not in merges and "Manager" not in b.lty(0).s
    roots = {G.owner(s.body.p) for s in G.sites if s.p in merges}
    # a helper that only takes one file is explored from the function that goes through the list
    roots = {r for r in roots if any(s.body.p == r and last(s) == "next" for s in G.sites)} or {G.owner(s.body.p) for s in G.sites if s.p in roots} or roots
    l = Load(ctx, roots, merges, hi, parse)
    run_parts(ctx, [l])
    floors(ctx, [l], "parses", "merges", "results")
    ctx.floor("loaders", len(roots), 1)
    o = order(ctx)
    ctx.floor("lists of configuration files", len(o), 1)
    for p, low_first, high_first in o:
        ctx.ok("list of files", p)
        for parsed_hi in l.dirs:
            good = low_first if parsed_hi != l.flips else high_first
            if not good:
                ctx.bad("layering", "file-order| %s" % p, "the system's configuration file takes priority over the user's", p)
