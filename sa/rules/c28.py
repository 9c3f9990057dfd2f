"""C28: a protocol version mismatch is reported, never ignored or fatal."""
import re

from .part import *
from .c16 import wire_fns, wire_type

EXPLAIN = ("The function that opens a client is explored with the version header unreadable, malformed or any version: a client is only handed out as matching after the component that counts (the minor one while both sides are before 1.0, "
           "the major one otherwise) of the daemon's version was compared with the client's own and found equal; everything else but a failed connection is handed out as a mismatch with a warning and a usable client. "
           "Every command is explored from its entry: after a mismatch on its first dial the warning is printed before any request is written, and the request can still be written. Threads that dial silently start after the first dial. "
           "The daemon writes a header carrying the protocol's version before it reads the request.")
ASSUME = ["splitting and parsing a version string work"]

CR = "libshpool::protocol::ClientResult"
VH = "shpool_protocol::VersionHeader"
HDR = "shpool_protocol::ConnectHeader"


def side(tags):
    return "theirs" if "theirs" in tags else "ours"


class Open(Part):
    name = "open"
    K = 24
    exact_tags = frozenset(["cmp0"])

    def __init__(self, ctx, roots, dec, plain, mism):
        Part.__init__(self, ctx, roots)
        self.dec, self.plain, self.mism = dec, plain, mism

    def opaque(self, body):
        return body.kind != "closure" and (body.p in self.dec or not body.p.startswith("libshpool::protocol") and "ClientResult" not in body.lty(0).s)

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if ev.p in self.dec and wire_type(ev.ta) == VH:
            self.ok("headers read", ev)
            f = [E.fresh(S, x, ["theirs"]) for x, t in fields(E.F, VH)]
            return Act(forks=[(S.st | {"read"}, agg(RES, 0, (agg(VH, 0, tuple(f)),))), (S.st | {"unreadable"}, agg(RES, 1, (E.fresh(S, "unreadable"),)))])
        if l == "index" and n == 2 and "Vec" in ev.argty(0).s:
            v, i = E.load(S.env, ev.args[0]), E.load(S.env, ev.args[1])
            k = i.a[0] if i.k == "i" else None
            return Act(ret=E.fresh(S, "part", [("part", side(E.deep_tags(S.env, v)), k)]))
        if l in ("cmp", "partial_cmp", "eq", "ne") and n == 2:
            a, b = (E.load(S.env, x) for x in ev.args)
            ta, tb = (E.deep_tags(S.env, x) for x in (a, b))
            pa, pb = (next((t for t in x if isinstance(t, tuple) and t[0] == "part"), None) for x in (ta, tb))
            if pa is None and pb is None and not ("theirs" in ta) ^ ("theirs" in tb):
                return None
            good, why = True, ""
            if pa and pb:
                z = {t for t in S.st if isinstance(t, tuple) and t[0] in ("zero", "nonzero")}
                if pa[1] == pb[1] or pa[2] != pb[2]:
                    good, why = False, "does not compare the same component of the two versions"
                elif pa[2] == 0 and ("zero", "ours") in z and ("zero", "theirs") in z:
                    good, why = False, "compares the major version although both are before 1.0"
                elif pa[2] == 0 and not any(t[0] == "nonzero" for t in z):
                    good, why = False, "compares the major version without having found one of them to be 1.0 or later"
                elif pa[2] == 1 and any(t[0] == "nonzero" for t in z) or pa[2] not in (0, 1):
                    good, why = False, "compares another component than the major version"
            elif pa or pb or not ("theirs" in ta) ^ ("theirs" in tb):
                good, why = False, "does not compare the two versions"
            if not good:
                self.rep(S, "comparison", ev, why)
            else:
                self.ok("comparisons", ev)
            eq, ne = S.st | {"equal"}, S.st | {"unequal"}
            if l in ("eq", "ne"):
                return Act(forks=[(eq, B(int(l == "eq"))), (ne, B(int(l == "ne")))])
            o = lambda x: agg("std::cmp::Ordering", x, ())
            f = [(ne, o(0)), (eq, o(1)), (ne, o(2))]
            return Act(forks=f if l == "cmp" else [(s, agg(OPT, 1, (x,))) for s, x in f])
        return None

    def on_branch(self, S, v, val):
        zero = None
        if v.k == "op" and v.a[0] in ("Eq", "Ne") and val in (0, 1):
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if b.k == "i" and b.a[0] == 0:
                    zero, v = (val == 1) == (v.a[0] == "Eq"), a
                    break
        elif isinstance(val, int):
            zero = val == 0
        elif 0 in val[1]:
            zero = False
        while v.k == "drf":
            v = v.a[0]
        p = next((t for t in v.a[1] if isinstance(t, tuple) and t[0] == "part" and t[2] == 0), None) if v.k == "S" else None
        if p and zero is not None:
            self.drop2(S, p[1])
            self.add(S, ("zero" if zero else "nonzero", p[1]))

    def drop2(self, S, who):
        S.st = frozenset(t for t in S.st if not (isinstance(t, tuple) and t[0] in ("zero", "nonzero") and t[1] == who))

    def on_end(self, S, v):
        E = self.E
        v = E.load(S.env, v)
        ev = type("e", (), {"body": S.frame.body})
        if not (v.k == "agg" and v.a[0] == RES):
            return
        if v.a[1] == 1:
            if S.st & {"read", "unreadable"}:
                self.rep(S, "fatal", ev, "a version that does not match or cannot be read makes opening a client fail")
            return
        c = E.load(S.env, v.a[2][0])
        k = c.a[1] if c.k == "agg" else None
        if k == self.plain:
            if "equal" not in S.st:
                self.rep(S, "ignored", ev, "a client is handed out as matching although its version was not found equal to the daemon's")
            else:
                self.ok("matching clients", ev)
        elif k == self.mism:
            if "equal" in S.st and "unequal" not in S.st:
                self.rep(S, "false-warning", ev, "equal versions are reported as a mismatch")
            else:
                self.ok("mismatches " + ("unreadable" if "unreadable" in S.st else "unequal" if "unequal" in S.st else "malformed"), ev)
        else:
            self.rep(S, "ignored", ev, "cannot tell whether the client handed out is marked as matching")


class Use(Part):
    name = "use"
    K = 16

    def __init__(self, ctx, roots, enc, opens, plain, mism, follow):
        Part.__init__(self, ctx, roots)
        self.enc, self.opens, self.plain, self.mism, self.follow = enc, opens, plain, mism, follow
        self.silent = set()

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def on_call(self, S, ev):
        E = self.E
        if ev.p in self.opens:
            self.ok("dials", ev)
            st = S.st - {"mm"}
            first = "dialed" not in S.st
            cl = E.fresh(S, "client", ["client"])
            mf = [x for x in E.F.adts[CR]["v"][self.mism]["f"]]
            vals = tuple(E.fresh(S, x[0], ["warning"]) if E.F.adts[CR]["tab"][x[1]].s.endswith("String") else cl for x in mf)
            return Act(forks=[(st | {"dialed"}, agg(RES, 0, (agg(CR, self.plain, (cl,)),))),
                              (st | {"dialed"} | ({"mm", "first"} if first else set()), agg(RES, 0, (agg(CR, self.mism, vals),))),
                              (st, agg(RES, 1, (E.fresh(S, "noconn"),)))])
        if ev.p in self.enc or last(ev) == "write_connect_header":
            if any(E.load(S.env, a).k == "agg" and E.load(S.env, a).a[0] == HDR or ev.argty(i).mentions(HDR) for i, a in enumerate(ev.args)):
                if "mm" in S.st:
                    self.rep(S, "unwarned", ev, "a request is sent although the user was not warned of the version mismatch")
                if "first" in S.st:
                    fr = S.frame
                    while fr.parent is not None:
                        fr = fr.parent
                    self.ok("continued " + fr.body.p, ev)
                return Act(ret=self.result(S, "sent"))
        if last(ev) in ("_eprint", "_print"):
            if "mm" in S.st and any("warning" in E.deep_tags(S.env, a) for a in ev.args):
                self.ok("warnings", ev)
                self.drop(S, "mm")
        return None

    def on_spawn(self, S, ev, clo):
        if clo is not None and clo.k == "clo" and clo.a[0] in self.threads:
            if "dialed" not in S.st:
                self.rep(S, "silent-first", ev, "a thread that dials silently is started before the first dial")
            elif "mm" in S.st:
                self.rep(S, "unwarned", ev, "a thread that dials silently is started although the user was not warned of the version mismatch")
            else:
                self.ok("threads that dial", ev)
                self.spawned.add(clo.a[0])

    spawned = set()

    def on_end(self, S, v):
        if "mm" in S.st:
            v = self.E.load(S.env, v)
            k = v.a[1] if v.k == "agg" else self.E.known(S.env, mk("discr", v))
            if k != 1:
                self.rep(S, "unwarned", type("e", (), {"body": S.frame.body}), "a command succeeds without having warned of the version mismatch")


class Announce(Part):
    name = "announce"
    K = 8

    def __init__(self, ctx, roots, enc, dec, follow):
        Part.__init__(self, ctx, roots)
        self.enc, self.dec, self.follow = enc, dec, follow

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def on_call(self, S, ev):
        if ev.p in self.enc and wire_type(ev.ta) == VH:
            self.ok("versions sent first", ev)
            self.add(S, "sent")
            return Act(ret=self.result(S, "sent"))
        if ev.p in self.enc | self.dec and wire_type(ev.ta):
            if "sent" not in S.st:
                self.rep(S, "late", ev, "something else is read or written before the version has been sent")
            return Act(ret=self.result(S, "done"))
        return None


def run(ctx):
    ctx.rule("matching client => compared and equal; mismatch on the first dial => warning before the first request, and the request still possible")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    vs = F.adts[CR]["v"]
    plain = [i for i, v in enumerate(vs) if len(v["f"]) == 1]
    mism = [i for i, v in enumerate(vs) if len(v["f"]) != 1]
    if len(plain) != 1 or len(mism) != 1:
        ctx.bad("anchor", "client results", "cannot tell the matching from the mismatching client result", CR)
        return
    plain, mism = plain[0], mism[0]
    opens = {G.owner(s.body.p) for s in G.sites if s.p in dec and wire_type(s.ta) == VH}
    raw = {p for p in opens if p.startswith("libshpool::")}
    opens = {p for p in raw if "ClientResult" in F.bodies[p].lty(0).s} | {p for p in F.bodies if "ClientResult" in F.bodies[p].lty(0).s and F.bodies[p].kind != "closure" and raw & reach_until(G, {p}, lambda x: not x.startswith("libshpool::protocol"))}
    opens = {p for p in opens if not any(s.body.p == p and s.p in opens for s in G.sites)} or opens
    ctx.floor("functions that open a client", len(opens), 1)
    a = Open(ctx, opens, dec, plain, mism)
    up = {p for p in G.up(opens) | opens if p.startswith("libshpool::")}
    tops = {b.p for b in F.bodies.values() if b.kind != "closure" and any(b.lty(i).d == "libshpool::Args" for i in range(1, b.argc + 1))}
    roots = {s.p for s in G.sites if s.p in up and s.p not in opens and G.owner(s.body.p) in tops and s.p not in tops}
    ctx.floor("commands that dial", len(roots), 1)
    tell = {G.owner(s.body.p) for s in G.sites if s.p.rsplit("::", 1)[-1] in ("_eprint", "_print")} - opens   # helpers that warn
    b = Use(ctx, roots, enc, opens, plain, mism, up - opens | tell)
    b.threads = {p for p in up if F.bodies.get(p) is not None and F.bodies[p].kind == "closure"}
    b.spawned = set()
    run_parts(ctx, [a, b])
    floors(ctx, [a, b], "headers read", "comparisons", "matching clients", "mismatches unreadable", "mismatches unequal", "dials", "warnings")
    for r in sorted(roots):
        n = len({x for x in b.seen if x[0] == "continued " + r})
        ctx.check(n > 0 or any(v["key"].startswith("unwarned") for v in ctx.viol), "fatal", r, "after a version mismatch the command cannot continue", r)
    # every place that opens a client is one of these commands or a thread they start
    reach = reach_until(G, roots, lambda x: x in opens)
    for s in G.sites:
        if s.p in opens and not s.body.p.startswith("libshpool::daemon::"):
            ctx.check(s.body.p in reach or G.owner(s.body.p) in reach or G.owner(s.body.p) in tops, "unseen", G.owner(s.body.p), "a client is opened outside the commands looked at", s.where())
    # the daemon's header
    writes = {G.owner(s.body.p) for s in G.sites if s.p in enc and wire_type(s.ta) == VH}
    reads = {G.owner(s.body.p) for s in G.sites if s.p in dec and wire_type(s.ta) == HDR}
    ctx.floor("version headers written", len(writes), 1)
    uw, ur = G.up(writes) | writes, G.up(reads) | reads
    conns = {p for p in uw & ur if p.startswith("libshpool::daemon") and not any(q in uw & ur for q in G.succ.get(p, ()) if q != p)}
    ctx.floor("connection handlers", len(conns), 1)
    c = Announce(ctx, conns, enc, dec, uw | ur)
    run_parts(ctx, [c])
    floors(ctx, [c], "versions sent first")
    m = 0
    version = lambda xs: {x[1] for x in xs if x[0] == "const" and re.fullmatch(r"[0-9]+\.[0-9]+\.[0-9]+\S*", x[1])}
    own = set()
    for s in G.sites:
        if s.body.p in reach_until(G, opens, lambda x: x in dec):
            for i in range(len(s.t[2])):
                own |= version(sources(s.body, s.t[2][i]))
    for body in F.bodies.values():
        if not body.p.startswith("libshpool::"):
            continue
        for bb in body.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == VH:
                    m += 1
                    got = version(sources_up(ctx, body, st[2][2][0]))
                    ctx.check(got and got == own, "announced", G.owner(body.p), "the version announced (%s) is not the protocol's (%s)" % (sorted(got), sorted(own)), body.p)
    ctx.floor("version headers made", m, 1)
