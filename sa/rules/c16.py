"""C16: every request is answered with the reply its sender waits for."""
from .part import *
from .c12 import names

EXPLAIN = ("For every function of the daemon that takes part in answering requests the possible outcomes (success, an error it makes up itself, an error of something it called; number and type of replies written) are "
           "derived from all its paths, bottom up. The dispatcher's paths say which function serves which request kind. A success has written exactly one reply, so has an error the daemon makes up itself (other than for a "
           "request that is too big), an internal failure at most one, and all replies of a kind have one type, which is the type every client function decodes after it has sent a request of this kind. "
           "The version header precedes everything else on each connection.")
ASSUME = ["unwinding paths are not followed", "a reply that is written to a closed connection does not count as missing"]

HDR = "shpool_protocol::ConnectHeader"


def wire_fns(F, G):
    """generic local functions that encode to / decode from a stream"""
    enc = G.calling(lambda s: s.p.startswith("rmp_serde::") and "encode" in s.p or "Serialize>::serialize" in s.q or s.q == "serde::Serialize::serialize")
    dec = G.calling(lambda s: s.p.startswith("rmp_serde::") and "decode" in s.p or s.q == "serde::Deserialize::deserialize")
    def close(x):
        out = {p for p in x if "protocol" in p or F.bodies[p].argc <= 2 and F.bodies[p].lty(0).d == RES}
        while True:
            more = {s.body.p for s in G.sites if s.p in out and any(t.k == "param" for t in s.ta)} - out
            if not more:
                return out
            out |= more
    return close({p for p in enc if F.bodies[p].lty(0).d == RES}), close({p for p in dec if F.bodies[p].lty(0).d == RES})


def wire_type(ta):
    for t in ta:
        t = t.peel()
        if t.d and t.d.startswith("shpool_protocol::"):
            return t.d
    return None


def lookup(s):
    """a look into the session table"""
    return "HashMap" in s.p and s.p.endswith(("::get", "::get_mut", "::remove", "::contains_key")) and "daemon::shell::Session" in s.argty(0).peel().s


class Outcomes(Part):
    name = "replies"
    K = 3

    def __init__(self, ctx, roots, enc, dec, summ, reach):
        Part.__init__(self, ctx, roots)
        self.enc, self.dec, self.summ, self.reach = enc, dec, summ, reach
        self.out, self.types, self.reqs, self.streams = {}, {}, {}, set()
        self.kinds = {i: v["n"] for i, v in enumerate(ctx.F.adts[HDR]["v"])}

    def opaque(self, body):
        return body.kind != "closure" or body.p in self.enc

    def root_tags(self, body, i):
        t = body.lty(i + 1).peel()
        return ["maybe"] if t.d == OPT and "UnixStream" in t.s else []

    def count(self, S):
        return 2 if "r2" in S.st else 1 if "r1" in S.st else 0

    def plus(self, st, n):
        c = (2 if "r2" in st else 1 if "r1" in st else 0) + n
        st = st - {"r1", "r2"}
        return st | {"r2"} if c >= 2 else st | {"r1"} if c == 1 else st

    def req(self, S):
        return next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "req"), None)

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l = ev.p, last(ev)
        if len(ev.args) and ev.argty(0).peel().d == OPT and "UnixStream" in ev.argty(0).peel().s:
            x = E.load(S.env, ev.args[0]) if ev.args[0].k == "ref" else ev.args[0]
            self.streams.add(mk("discr", x))
        if p in self.enc:
            h = wire_type(ev.ta)
            if any(t.peel().d == "std::vec::Vec" for t in ev.ta) or h is None:
                return Act(ret=self.result(S, "encoded"))
            if h == "shpool_protocol::VersionHeader":
                return Act(forks=[(S.st | {"version"}, agg(RES, 0, (UNIT,))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "err", ["failed"]),)))])
            self.ok("replies", ev)
            self.types.setdefault(h, set()).add(self.ctx.G.owner(ev.body.p))
            k = self.req(S)
            if k is not None:
                self.reqs.setdefault(k, set()).add(("reply", h))
            st = self.plus(S.st, 1)
            return Act(forks=[(st, agg(RES, 0, (UNIT,))), (st | {"failed"}, agg(RES, 1, (E.fresh(S, "err", ["failed"]),)))])
        b = F.bodies.get(p)
        if b is not None and b.lty(0).d == RES and b.lty(0).args and b.lty(0).args[0].d == HDR or p in self.dec and wire_type(ev.ta) == HDR:
            if "version" not in S.st and "noversion" not in S.st:
                self.rep(S, "version-late", ev, "a request is awaited before the version has been sent")
            h = E.fresh(S, "header", ["header"])
            E.discr_n.setdefault(mk("discr", h), (HDR, tuple(self.kinds)))
            return Act(forks=[(S.st | {"asked"}, agg(RES, 0, (h,))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "err", ["failed"]),)))])
        if p in self.summ:
            k = self.req(S)
            if k is not None:
                self.reqs.setdefault(k, set()).add(("fn", p))
            forks = []
            slot = [E.load(S.env, a) for i, a in enumerate(ev.args) if ev.argty(i).peel().d == OPT and "UnixStream" in ev.argty(i).peel().s]
            some = [x.a[1] for x in slot if x.k == "agg" and x.a[0] == OPT]
            for var, err, n, none in sorted(self.summ[p], key=str):
                if none and 1 in some:
                    continue                      # it has been given the connection
                if none and not slot:
                    n = 0
                st = self.plus(S.st, n)
                if none and 0 not in some:
                    st = st | {"failed", "gone"}  # the connection has been taken away: nobody to answer
                if var == 1:
                    forks.append((st | {"failed"} if err == "failed" else st, agg(RES, 1, (E.fresh(S, "err " + err, [err]),))))
                elif var == 0:
                    forks.append((st, agg(RES, 0, (E.fresh(S, "fine"),))))
                else:
                    forks.append((st, E.fresh(S, "done")))
            return Act(forks=forks) if forks else None
        if b is not None and b.kind != "closure" and b.lty(0).d == RES:
            return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "fine"),))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "err", ["failed"]),)))])
        if l in ("downcast_ref", "downcast", "is", "downcast_mut") and p.startswith("anyhow::"):
            t = self.etags(S, ev.args[0])
            want = [x.d for x in ev.ta if x.d]
            m = [x for x in t if str(x).startswith("made:")]
            if m and want:
                hit = any(x[5:] == w for x in m for w in want)
                if l == "is":
                    return Act(ret=I(1) if hit else I(0))
                if l == "downcast_ref":
                    return Act(ret=agg(OPT, 1, (mk("ref", ("K", E.fresh(S, "cause")), (), 0),)) if hit else agg(OPT, 0, ()))
            if "failed" in t and l == "downcast_ref" and any(str(w).startswith("libshpool::") for w in want):
                return Act(ret=agg(OPT, 0, ()))
        if lookup(ev) and l != "contains_key":
            return Act(ret=E.fresh(S, "found", ["lookup"]))
        if l in ("context", "with_context", "ok_or", "ok_or_else") and ev.args and ev.argty(0).d == OPT and "lookup" in self.etags(S, ev.args[0]):
            # what was asked for does not exist: not a failure of the daemon's
            return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "found one"),))), (S.st | {"missing"}, agg(RES, 1, (E.fresh(S, "err made", ["made:"]),)))])
        if lookup(ev):
            return Act(ret=E.fresh(S, "contained", ["lookup"]))
        if p.startswith("anyhow::") and l in ("format_err", "msg", "new", "__anyhow"):
            return Act(ret=E.fresh(S, "err made", ["made:"]))
        return None

    def etags(self, S, v):
        t = frozenset()
        for _ in range(3):
            t |= self.tagsof(v)
            if v.k != "ref":
                break
            v = self.E.load(S.env, v)
        return t

    def tagsof(self, v, d=6):
        if not isinstance(v, V) or d == 0:
            return frozenset()
        if v.k == "S":
            return frozenset(v.a[1])
        out = frozenset()
        if v.k == "agg" and str(v.a[0]).startswith("libshpool::") and self.ctx.F.adts.get(v.a[0], {}).get("v"):
            out |= {"made:" + v.a[0]}
        for x in v.a:
            for y in flat(x):
                out |= self.tagsof(y, d - 1)
        return out

    def on_branch(self, S, v, val):
        n = self.E.discr_n.get(v, (None,))[0] if v.k == "discr" else None
        if n == HDR and isinstance(val, int):
            self.setreq(S, val)
        if n == RES and val == 1:
            self.add(S, "failed")
        if val == 0 and v.k == "discr" and (v in self.streams or n == OPT and "stream" in str(v) or "maybe" in self.tagsof(v)):
            self.add(S, "failed", "gone", *(["none"] if "maybe" in self.tagsof(v) else []))      # the connection has been taken away: nobody to answer
        if val == 0 and "lookup" in self.tagsof(v):
            self.add(S, "missing")
        for a, x in both(v, val):
            if a.k == "op" and a.a[0] in ("Gt", "Ge", "Lt", "Le") and any(y.k == "i" and y.a[0] >= 1024 for y in a.a[1:]) and any("len" in str(y) for y in a.a[1:]):
                self.add(S, "toobig")

    def on_discr(self, S, v, ty, n):
        if ty.d == HDR:
            self.setreq(S, n)

    def setreq(self, S, k):
        self.drop(S, "req")
        self.add(S, ("req", k))

    def on_end(self, S, v):
        root = S.frame.body.p
        b = self.E.F.bodies[root]
        n = self.count(S)
        none = "none" in S.st and n == 0
        if n == 0 and "gone" in S.st and not none:
            n = 1
        if n > 1:
            self.rep(S, "two-replies", None, "a request is answered twice", " " + root)
        var = v.a[1] if v.k == "agg" and v.a[0] == RES else self.E.known(S.env, mk("discr", v)) if b.lty(0).d == RES else None
        err = ""
        if b.lty(0).d == RES and var is None:
            var, err = (1, "failed") if "failed" in S.st else (0, "")
        if var == 1:
            e = v.a[2][0] if v.k == "agg" else v
            m = sorted(x for x in self.tagsof(e) if str(x).startswith("made:"))
            err = m[0] if m and "failed" not in self.tagsof(e) else "failed"
            if err == "made:" and ("toobig" in S.st or root in self.below and "missing" not in S.st):
                err = "failed"
        self.out.setdefault(root, {}).setdefault((var, err, n, none), None)
        k = self.req(S)
        if k is not None:
            self.judge(S, root, var, err, n, self.kinds[k])

    def judge(self, S, root, var, err, n, what):
        if var in (0, None) and n == 0:
            self.rep(S, "no-reply", None, "a %s request is not answered" % what, " " + what)
        if var == 1 and err.startswith("made:") and n == 0:
            self.rep(S, "no-reply", None, "a %s request is turned down without an answer" % what, " " + what)


class Client(Part):
    """request sent -> reply decoded"""
    name = "clients"
    K = 3

    def __init__(self, ctx, roots, enc, dec, reach):
        Part.__init__(self, ctx, roots)
        self.enc, self.dec, self.reach = enc, dec, reach
        self.kinds = {i: v["n"] for i, v in enumerate(ctx.F.adts[HDR]["v"])}
        self.pairs, self.open = {}, set()

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.reach

    def sends(self, ev):
        b = self.E.F.bodies.get(ev.p)
        if b is None:
            return None
        for i in range(min(b.argc, len(ev.args))):
            if ev.argty(i).peel().d == HDR:
                return i
        return None

    def on_call(self, S, ev):
        E = self.E
        i = self.sends(ev)
        if i is not None:
            v = E.load(S.env, ev.args[i])
            self.drop(S, "sent")
            self.add(S, ("sent", v.a[1] or 0 if v.k == "agg" else None))
            return Act(ret=self.result(S, "sent"))
        if ev.p in self.dec:
            h = wire_type(ev.ta)
            if h is None or h == "shpool_protocol::VersionHeader":
                return Act(ret=self.result(S, "read"))
            if h == HDR:
                return None
            k = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "sent"), "none")
            if k == "none":
                self.open.add((S.frame.body.p if S.frame.parent is None else self.rootof(S), h))
            elif k is not None:
                self.pairs.setdefault(k, {}).setdefault(h, (ev.body.p, ev.span))
                self.ok("replies awaited", ev)
            self.drop(S, "sent")
            return Act(ret=self.result(S, "reply"))
        return None

    def rootof(self, S):
        f = S.frame
        while f.parent is not None:
            f = f.parent
        return f.body.p


def run(ctx):
    ctx.rule("one reply of the type the client decodes, for each request kind")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    kinds = {i: v["n"] for i, v in enumerate(F.adts[HDR]["v"])}
    daemon = lambda p: p.startswith("libshpool::daemon::")
    direct = {G.owner(s.body.p) for s in G.sites if s.p in enc and wire_type(s.ta) and daemon(s.body.p) and s.body.p not in enc and not any(t.peel().d == "std::vec::Vec" for t in s.ta)}
    disp = {b.p for b in F.bodies.values() if daemon(b.p) and b.kind != "closure" and any(t.d == HDR for t in [b.lty(i) for i in range(len(b.locals))]) and b.lty(0).d == RES and not (b.lty(0).args[0].d == HDR)}
    up, stop = set(direct), set()
    todo = list(direct)
    while todo:
        p = todo.pop()
        if p in disp:
            continue
        for s in G.sites:
            if s.p == p and daemon(s.body.p):
                q = G.owner(s.body.p)
                if q not in up:
                    up.add(q)
                    todo.append(q)
    # what they leave to others that look sessions up: an error of theirs need not be a failure of the daemon's
    look = {G.owner(s.body.p) for s in G.sites if daemon(s.body.p) and lookup(s)}
    below = set(up)
    todo = list(up)
    while todo:
        p = todo.pop()
        for s in G.sites:
            if G.owner(s.body.p) == p and s.p in F.bodies and daemon(s.p) and F.bodies[s.p].kind != "closure" and s.p not in below and s.p not in enc and s.p not in dec and F.bodies[s.p].lty(0).d == RES:
                below.add(s.p)
                todo.append(s.p)
    want = (look & below) - up - disp
    todo = list(want)
    while todo:
        p = todo.pop()
        for s in G.sites:
            q = G.owner(s.body.p)
            if s.p == p and q in below and q not in up and q not in want:
                want.add(q)
                todo.append(q)
    up |= want
    Outcomes.below = want
    # bottom up
    summ, done, types, parts = {}, set(), {}, []
    left = set(up)
    while left:
        ready = [p for p in left if not any(s.p in left and s.p != p for s in G.sites if G.owner(s.body.p) == p)] or sorted(left)
        r = Outcomes(ctx, [p for p in ready], enc, dec, dict(summ), up)
        ctx.engine(r)
        parts.append(r)
        for p in ready:
            summ[p] = set(r.out.get(p, {}))
        left -= set(ready)
    handlers, direct_types = {}, {}
    for r in parts:
        for k, xs in r.reqs.items():
            for a, x in xs:
                (handlers if a == "fn" else direct_types).setdefault(k, set()).add(x)
    tyof = {}
    for r in parts:
        for h, ps in r.types.items():
            for p in ps:
                tyof.setdefault(p, set()).add(h)

    def reach(p, seen):
        if p in seen:
            return set()
        seen.add(p)
        out = set(tyof.get(p, ()))
        for s in G.sites:
            if G.owner(s.body.p) == p and s.p in summ:
                out |= reach(s.p, seen)
        return out
    replies = {}
    for k, n in kinds.items():
        hs = {p for p in handlers.get(k, ()) if p not in disp}
        ts = set(direct_types.get(k, ()))
        for p in hs:
            ts |= reach(p, set())
        replies[k] = ts
        ctx.check(len(ts) == 1, "one type of reply", n, "%s requests are answered with %s" % (n, " or ".join(sorted(x.rsplit("::", 1)[-1] for x in ts)) or "nothing"), "libshpool/src/daemon/server.rs")
    run_parts(ctx, [])
    for r in parts:
        for x in sorted(r.seen):
            ctx.ok(*x)
    # clients
    reach_c = (G.up({s.body.p for s in G.sites if s.p in dec}) | {s.body.p for s in G.sites if s.p in dec} | dec)
    roots = {G.owner(s.body.p) for s in G.sites if s.p in dec and wire_type(s.ta) not in (None, HDR, "shpool_protocol::VersionHeader") and not daemon(s.body.p) and s.body.p not in dec}
    pairs, seen = {}, set()
    while roots:
        c = Client(ctx, roots, enc, dec, dec)
        c.reach = {p for p in reach_c if p not in dec and p in seen} | makers(F)
        ctx.engine(c)
        for x in sorted(c.seen):
            ctx.ok(*x)
        for k, d in c.pairs.items():
            for h, w in d.items():
                pairs.setdefault(k, {})[h] = w
        seen |= roots
        roots = {G.owner(s.body.p) for p, h in c.open for s in G.sites if s.p == p} - seen
    for k, d in pairs.items():
        for h, (p, span) in d.items():
            ctx.check({h} == replies.get(k), "reply expected", kinds[k] + " " + G.owner(p), "%s expects a %s after a %s request, but the daemon answers with %s" % (p.rsplit("::", 1)[-1], h.rsplit("::", 1)[-1], kinds[k], ", ".join(sorted(x.rsplit("::", 1)[-1] for x in replies.get(k, ()))) or "nothing"), "%s:%s" % (F.bodies[p].file, span[0]))
    for k, n in kinds.items():
        ctx.check(k in pairs, "reply expected", n + " sent", "no client waits for the answer to a %s request" % n, "")
    floors(ctx, parts, "replies")
