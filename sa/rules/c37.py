"""C37: a forced attach detaches the current client, once, and then retries a bounded number of times."""
import itertools

from .part import *
from .c16 import wire_fns, wire_type
from ..engine import PRUNE

EXPLAIN = ("The attach command is explored from the program's entry with every answer to an attach request left open (no connection, busy, attached, refused). A detach request is only sent for exactly the session whose attach was answered 'busy', only when the force option is set, and at most once until attached, "
           "or, in background mode, for the session just attached while the program still holds that attachment; with force a busy answer is always followed by the detach request before the next attach request; in background mode the terminal is never connected. "
           "Every cycle of the control flow through an attach request raises a counter that is compared with a constant on the same cycle and left when it is passed.")
ASSUME = ["the daemon's answer is true (C03)", "the daemon detaches the client of a connection that was closed (C07)"]

HDR = "shpool_protocol::ConnectHeader"
STATUS = "shpool_protocol::AttachStatus"
REPLY = "shpool_protocol::AttachReplyHeader"
CLIENT = "libshpool::protocol::Client"
COPY = {"clone", "to_string", "to_owned", "as_str", "deref", "as_ref", "into", "from", "borrow", "to_vec"}


class Force(Part):
    name = "force"
    K = 8
    exact_tags = frozenset([("opt", "force"), ("opt", "background")])

    def __init__(self, ctx, roots, enc, dec, follow, params):
        Part.__init__(self, ctx, roots)
        self.enc, self.dec, self.follow, self.params = enc, dec, follow, params
        self.exact_tags = self.exact_tags | {("made", p) for p in ctx.F.bodies}
        self.hdrs = [v["n"] for v in ctx.F.adts[HDR]["v"]]
        self.stats = [v["n"] for v in ctx.F.adts[STATUS]["v"]]

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def root_tags(self, body, i):
        return [("opt", o) for o in self.params.get((body.p, i), ())]

    def roots(self, E):
        for r in self._roots:
            b = self.ctx.F.bodies[r]
            for st in itertools.product((0, 1), repeat=2):
                at = [None] * b.argc
                known = []
                for i in range(b.argc):
                    o = self.params.get((r, i), set())
                    if len(o) == 1 and b.lty(i + 1).s == "bool":
                        k = ("force", "background").index(next(iter(o)))
                        at[i] = B(st[k])
                        known.append((next(iter(o)), st[k]))
                yield r, tuple(at), frozenset(known)

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple) and f[0] in ("name", "conn")]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) and f[0] in ("name", "conn") else f for f in st)

    def val(self, S, n):
        return next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == n), None)

    def option(self, v):
        """is this a command line option's value? its name"""
        while v.k == "drf":
            v = v.a[0]
        os = {t[1] for t in origin(v) if isinstance(t, tuple) and t[0] == "opt"}
        if v.k == "S" and len(os) == 1:
            return next(iter(os))
        if v.k in ("fld", "vf") and os:
            return next((x for x in v.a if x in ("force", "background")), None)
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            o = self.option(a)
            if o in ("force", "background") and isinstance(x, (int, bool)):
                if self.val(S, o) not in (None, int(x)):
                    return PRUNE
                self.add(S, (o, int(x)))

    def same(self, S, a, b):
        """the same session's name (a join may have given it a new symbol)"""
        a, b = self.E.load(S.env, a), self.E.load(S.env, b)
        if a == b:
            return True
        if not {t for t in origin(a) if isinstance(t, tuple) and t[0] == "made"} & origin(b):
            return False
        fs = [next((x for x in v.a[1:] if isinstance(x, str)), None) if v.k in ("fld", "vf") else None for v in (a, b)]
        return fs[0] == fs[1] or None in fs and (a.k == "S" or b.k == "S")

    def result_tags(self, S, ev):
        """a value made by one of the program's own functions that are not looked into"""
        if ev.p.startswith("libshpool") and ev.dest and ev.p not in self.follow:
            return [("made", ev.p)]

    def root_sym(self, S, v):
        v = self.E.load(S.env, v)
        while v.k in ("fld", "vf", "dc", "drf"):
            v = v.a[0]
        return v

    def on_drop(self, S, v, ty, root, path):
        c = self.val(S, "conn")
        if c is not None and mentions(v, c):
            self.add(S, "closed")

    def on_call(self, S, ev):
        E, l, n = self.E, last(ev), len(ev.ops)
        if ev.p in self.enc:
            hdr = next((v for i in range(n) for v in [E.load(S.env, ev.args[i])] if ev.argty(i).mentions(HDR) or v.k == "agg" and v.a[0] == HDR), None)
            if hdr is not None:
                return self.sent(S, ev, hdr)
        if ev.p in self.dec and wire_type(ev.ta) == REPLY:
            return self.answered(S, ev)
        if ev.dest and "ClientResult" in ev.destty().s and ev.p.startswith("libshpool") and ev.p not in self.follow:
            c = E.fresh(S, "daemon", ["conn"])
            E.discr_n.setdefault(mk("discr", c), ("libshpool::protocol::ClientResult", tuple(range(len(E.F.adts["libshpool::protocol::ClientResult"]["v"])))))
            return Act(forks=[(S.st, agg(RES, 0, (c,))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "noconn"),)))])
        if n and ev.argty(0).peel().d == CLIENT and ev.dest and "PipeBytesResult" in ev.destty().s:
            if self.val(S, "background") != 0 and self.has(S, "background"):
                self.rep(S, "background", ev, "the terminal is connected to the session in background mode")
            elif not self.has(S, "background"):
                self.rep(S, "background", ev, "the terminal is connected without asking whether this is background mode")
            else:
                self.ok("terminals connected", ev)
            self.drop(S, "status", "asked", "attached", "name", "conn", "closed", "busy", "failed")
            r = E.fresh(S, "piped")
            return Act(forks=[(S.st, agg(RES, 0, (r,))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "broken"),)))])
        if l == "drop" and n == 1 and ev.p.endswith("mem::drop"):
            c = self.val(S, "conn")
            if c is not None and mentions(E.load(S.env, ev.args[0]), c):
                self.add(S, "closed")
        if n == 1 and l in COPY and "String" in ev.argty(0).s + ev.destty().s and "Vec" not in ev.destty().s and "anyhow" not in ev.destty().s and "Error" not in ev.destty().s:
            v = E.load(S.env, ev.args[0])
            if v.k in ("S", "fld", "vf", "dc", "drf", "idx", "s"):
                return Act(ret=v)
        # which error is it?
        if ev.dest and ev.destty().s.endswith("anyhow::Error") and n and l in ("from", "into", "new", "msg"):
            v = E.load(S.env, ev.args[0])
            t = ev.argty(0)
            if t.k == "adt" and t.d in self.ctx.F.adts and self.ctx.F.adts[t.d]["local"]:
                return Act(ret=E.fresh(S, "err", [("err", t.d)]))
        if l in ("downcast", "downcast_ref", "is") and "anyhow" in ev.p and n:
            ty = next((t.d for t in ev.ta if t.k == "adt" and t.d in self.ctx.F.adts and self.ctx.F.adts[t.d]["local"]), None)
            if ty:
                mine = ("err", ty) in E.deep_tags(S.env, ev.args[0])
                x = E.load(S.env, ev.args[0])
                if l == "is":
                    return Act(ret=B(int(mine)))
                if l == "downcast_ref":
                    return Act(ret=agg(OPT, 1, (E.fresh(S, "busy"),)) if mine else agg(OPT, 0, ()))
                return Act(ret=agg(RES, 0, (E.fresh(S, "busy"),)) if mine else agg(RES, 1, (x,)))
        return None

    def sent(self, S, ev, v):
        E = self.E
        k = self.hdrs[v.a[1]] if v.k == "agg" and isinstance(v.a[1], int) else None
        if k is None:
            self.rep(S, "request", ev, "cannot tell which request is sent")
            return None
        fail = (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "unsent"),)))
        if k == "Attach":
            n = E.load(S.env, E.get(E.get(v, ("f", 0, "0")), ("f", [f[0] for f in fields(E.F, "shpool_protocol::AttachHeader")].index("name"), "name")))
            if "busy" in S.st and self.val(S, "force") == 1 and "asked" not in S.st:
                self.rep(S, "retry", ev, "the attach is tried again without the current client having been detached")
            if "attached" in S.st:
                self.rep(S, "again", ev, "another attach is requested while attached")
            if "asked" in S.st and not (self.has(S, "name") and self.same(S, self.val(S, "name"), n)):
                self.rep(S, "session", ev, "another session is attached to than the one whose client was detached")
            conn = self.root_sym(S, ev.args[1] if len(ev.args) > 1 else ev.args[0])
            for i in range(len(ev.ops)):
                x = self.root_sym(S, ev.args[i])
                if x.k == "S" and "conn" in x.a[1]:
                    conn = x
            self.drop(S, "name", "conn", "busy", "closed", "failed")
            self.add(S, ("name", n), ("conn", conn))
            self.ok("attach requests", ev)
        elif k == "Detach":
            ses = E.load(S.env, E.get(E.get(v, ("f", 0, "0")), ("f", 0, "sessions")))
            who = self.val(S, "name")
            if not (ses.k == "agg" and len(ses.a[2]) == 1 and who is not None and self.same(S, ses.a[2][0], who)):
                self.rep(S, "session", ev, "other sessions than the one attached to are detached")
            elif "attached" in S.st:
                if self.val(S, "background") != 1:
                    self.rep(S, "disturb", ev, "the client just attached is detached outside background mode")
                elif "closed" in S.st:
                    self.rep(S, "late", ev, "the session is detached after the program let go of its own attachment: another client may have taken it")
                elif "left" in S.st:
                    self.rep(S, "twice", ev, "the session is detached a second time")
                else:
                    self.ok("own attachments ended", ev)
                return Act(forks=[(S.st | {"left"}, agg(RES, 0, (UNIT,))), fail])
            elif "busy" not in S.st:
                self.rep(S, "disturb", ev, "a session is detached that was not found busy")
            elif self.val(S, "force") != 1:
                self.rep(S, "disturb", ev, "the attached client is disturbed without the force option")
            elif "asked" in S.st:
                self.rep(S, "twice", ev, "the session is detached a second time")
            else:
                self.ok("detach requests", ev)
            return Act(forks=[(S.st | {"asked"}, agg(RES, 0, (UNIT,))), fail])
        return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), fail])

    def answered(self, S, ev):
        E = self.E
        out = [(S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "noanswer"),)))]
        nf = [f[0] for f in fields(E.F, REPLY)]
        for i, s in enumerate(self.stats):
            a = agg(STATUS, i, tuple(E.fresh(S, "f%d" % i) for _ in E.F.adts[STATUS]["v"][i]["f"]))
            st = frozenset(f for f in S.st if f != "busy" and not (isinstance(f, tuple) and f[0] == "status")) | {("status", i)}
            st |= {"busy"} if s == "Busy" else {"attached"} if s in ("Attached", "Created") else {"failed"}
            out.append((st, agg(REPLY, None, tuple(a if x == "status" else E.fresh(S, x) for x in nf))))
        self.ok("attach answers", ev)
        return Act(forks=[out[0]] + [(st, agg(RES, 0, (x,))) for st, x in out[1:]])

    def over(self, S, ev, good):
        if "busy" in S.st:
            if self.val(S, "force") == 1:
                if good:
                    self.rep(S, "gaveup", ev, "a forced attach that found the session busy ends without an error and without being attached")
                elif "failed" not in S.st and "asked" not in S.st:
                    self.rep(S, "gaveup", ev, "a forced attach gives up without having asked for the current client to be detached")
                else:
                    self.ok("forced attaches given up", ev)
            elif self.val(S, "force") is None:
                self.rep(S, "gaveup", ev, "a busy session is given up without looking at the force option")
            else:
                self.ok("busy without force", ev)
        if "attached" in S.st and good:
            if not ("left" in S.st or "closed" in S.st or ev.p is not None):
                self.rep(S, "background", ev, "the background attach stays attached")

    def on_end(self, S, v):
        v = self.E.load(S.env, v)
        k = v.a[1] if v.k == "agg" else self.E.known(S.env, mk("discr", v))
        self.over(S, type("e", (), {"body": S.frame.body, "p": "main"}), k == 0)

    def on_diverge(self, S, ev):
        if ev.p.endswith("process::exit"):
            self.over(S, ev, False)


def cycles_without(body, site, cut, leave):
    """can the block be reached from itself without passing one of the blocks in cut?"""
    seen, todo = set(), [site]
    while todo:
        b = todo.pop()
        for n in succs(body.blocks[b]["t"]):
            if n == site:
                return True
            if n not in seen and n not in cut and not body.blocks[n].get("cl"):
                seen.add(n)
                todo.append(n)
    return False


def succs(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if t[0] == "drop":
        return [t[3]]
    if t[0] == "call":
        return [t[4]] if t[4] is not None else []
    if t[0] == "assert":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1:]
    return []


def bounded(ctx, body, site):
    """every cycle through the site raises a counter and leaves the cycle by a comparison of it with a constant"""
    blocks = body.blocks
    if not cycles_without(body, site, (), None):
        return None
    # an iterator over a range of constants
    cut = set()
    for i, bb in enumerate(blocks):
        t = bb["t"]
        if t[0] == "call":
            f = (t[1].get("k") or {}).get("fn") or {}
            if (f.get("p") or "").endswith("Iterator::next") or (f.get("r") or "").endswith("::next"):
                if t[2] and any("std::ops::Range" in str(body.tys[x].s) for x in [body.locals[(t[2][0].get("m") or t[2][0].get("c"))[0]]] if isinstance(x, int)):
                    cut.add(i)
    if cut and not cycles_without(body, site, cut, None):
        return "a range"
    # a counter
    defs = {}
    for i, bb in enumerate(blocks):
        for st in bb["s"]:
            if st[1] is not None and len(st[1]) == 1:
                defs.setdefault(st[1][0], []).append((i, st[2]))
    def const(o):
        return "k" in o
    def var(o, d=4):
        p = o.get("c") or o.get("m")
        if not p or d == 0:
            return None
        if len(p) > 1:
            # the value part of a checked operation
            if len(p) != 2 or not isinstance(p[1], list):
                return None
            ds = defs.get(p[0], [])
            if len(ds) != 1 or ds[0][1][0] != "bin":
                return None
            return var(ds[0][1][2], d - 1) if const(ds[0][1][3]) else None
        ds = defs.get(p[0], [])
        if len(ds) == 1 and ds[0][1][0] == "bin" and ds[0][1][1] in ("Add", "Sub") and const(ds[0][1][3]):
            return var(ds[0][1][2], d - 1)
        if len(ds) == 1 and ds[0][1][0] in ("use", "cast"):
            o2 = ds[0][1][1 if ds[0][1][0] == "use" else 2]
            return var(o2, d - 1) if not const(o2) else None
        return p[0]
    for c, ds in defs.items():
        if c <= body.argc or len(ds) < 2:
            continue
        inc, fine = set(), True
        for i, rv in ds:
            if rv[0] == "use" and const(rv[1]):
                if cycles_without(body, i, (), None) and site_reach(body, site, i):
                    fine = False
                continue
            step = None
            if rv[0] == "use":
                p = rv[1].get("c") or rv[1].get("m")
                if p and len(p) == 2:
                    for _, r2 in defs.get(p[0], []):
                        step = r2
                elif p:
                    for _, r2 in defs.get(p[0], []):
                        step = r2
            else:
                step = rv
            if step and step[0] == "bin" and step[1] in ("AddWithOverflow", "Add", "AddUnchecked") and var(step[2]) == c and const(step[3]) or step and step[0] == "bin" and step[1] in ("SubWithOverflow", "Sub") and var(step[2]) == c and const(step[3]):
                inc.add(i)
            elif site_reach(body, site, i):     # anything else than the value it starts with
                fine = False
        if not fine or not inc:
            continue
        tests = set()
        for i, bb in enumerate(blocks):
            t = bb["t"]
            if t[0] != "switch":
                continue
            p = t[1].get("c") or t[1].get("m")
            if not p:
                continue
            if var(t[1]) == c and any(not site_reach(body, x, site) for x in succs(t)):
                tests.add(i)
            for _, rv in defs.get(p[0], []):
                if rv[0] == "bin" and rv[1] in ("Gt", "Ge", "Lt", "Le", "Eq", "Ne"):
                    vs = [var(o) for o in rv[2:4]]
                    if c in vs and any(const(o) for o in rv[2:4]):
                        # one side leaves the cycle
                        if any(not site_reach(body, x, site) for x in succs(t)):
                            tests.add(i)
        if tests and not cycles_without(body, site, inc, None) and not cycles_without(body, site, tests, None):
            return "a counter"
    return False


def site_reach(body, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen or body.blocks[x].get("cl"):
            continue
        seen.add(x)
        todo.extend(succs(body.blocks[x]["t"]))
    return False


def run(ctx):
    ctx.rule("detach request => (force & busy answer for exactly that session & first) or (background & own attachment still held); every cycle of attach requests is bounded by a counter")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    tops = {b.p for b in F.bodies.values() if b.kind != "closure" and any(b.lty(i).d == "libshpool::Args" for i in range(1, b.argc + 1)) and b.lty(0).d == RES}
    daemon = {b.p for b in F.bodies.values() if b.p.startswith("libshpool::daemon::")}
    asks = {p for p in made_in(F, G, {"shpool_protocol::AttachHeader"}) if p.startswith("libshpool::")}
    ctx.floor("functions that ask to attach", len(asks), 1)
    stop = lambda p: not p.startswith("libshpool::") and not p.startswith("shpool::") or p in enc or p in dec or p in daemon or p in F.bodies and ("ClientResult" in F.bodies[p].lty(0).s or "PipeBytesResult" in F.bodies[p].lty(0).s)
    ups = {p for p in G.up(asks) | asks if p.startswith("libshpool::") and p not in daemon}
    below = reach_until(G, ups - tops, lambda p: stop(p) or p in tops)
    # what sends requests or reads answers is looked into, the rest is not
    talk = {p for p in below if reach_until(G, {p}, lambda x: not x.startswith("libshpool::") or x in daemon) & (enc | dec)} | {p for p in below if p in F.bodies and CLIENT in {F.bodies[p].lty(i).peel().d for i in range(F.bodies[p].argc + 1)} | {t.d for t in F.bodies[p].lty(0).args}}
    follow = ups - tops | talk | makers(F) | readers(F)
    roots, params = set(), {}
    for s in G.sites:
        if G.owner(s.body.p) in tops and s.p in ups - tops and reach_until(G, {s.p}, stop) & asks:
            roots.add(s.p)
            for i, o in enumerate(s.t[2]):
                for f in ("force", "background"):
                    if ("field", f) in sources(s.body, o):
                        params.setdefault((s.p, i), set()).add(f)
    ctx.floor("functions that run the attach command", len(roots), 1)
    p = Force(ctx, roots, enc, dec, follow, params)
    run_parts(ctx, [p])
    floors(ctx, [p], "attach requests", "attach answers", "detach requests", "own attachments ended", "terminals connected", "busy without force", "forced attaches given up")
    # retries end
    n = 0
    for s in G.sites:
        if s.p in G.up(asks) | asks and s.body.p.startswith("libshpool::") and s.body.p not in daemon:
            t = F.bodies.get(s.p)
            if t is not None and reach_until(G, {s.p}, lambda x: not x.startswith("libshpool::")) & {b.p for b in F.bodies.values() if "PipeBytesResult" in b.lty(0).s}:
                continue  # a whole attachment: goes on only after the session sent the client elsewhere
            r = bounded(ctx, s.body, s.bb)
            if r is None:
                continue
            n += 1
            ctx.check(bool(r), "bound", G.owner(s.body.p), "attach requests may be repeated forever", s.where())
    ctx.floor("retry loops", n, 1)
