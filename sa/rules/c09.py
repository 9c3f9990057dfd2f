"""C09: event subscribers never slow down or break the daemon or each other."""
from .locklib import *
from .part import *

EXPLAIN = ("Path-sensitive typestate analysis of the event bus, in four parts. Publishing: takes no lock, performs no blocking operation, hands the event over before it wakes the "
           "sink. Descriptors: both ends of each wake pair, the listener and each subscriber stream are made non-blocking before use; the hand-off channel and each subscriber queue "
           "have a constant bound. Writing: an event leaves a queue only after all its bytes were accepted, and the position is advanced by exactly the bytes accepted. Sink: every "
           "event is queued for every subscriber not marked dropped, a failing subscriber is marked dropped and neither ends the sink nor skips the others, and exactly the marked "
           "subscribers are removed, before the next wait.")
ASSUME = ["unwinding paths are not followed", "the socket accepts the bytes it reports as written"]
LINE = "std::sync::Arc<str"
LIMIT = 1 << 20
SCOPE = ("daemon::events", BUS)
SENDS = ("write", "write_all", "write_vectored", "write_fmt")


def is_queue(t):
    t = t.peel()
    return (t.d or "").endswith("::VecDeque") and LINE in t.s


def queue_structs(F):
    """local types with a queue of events of their own"""
    out = set()
    for d, a in F.adts.items():
        if a["local"]:
            for vv in a["v"]:
                if any(f[1] >= 0 and is_queue(a["tab"][f[1]]) and a["tab"][f[1]].k not in ("ref", "refmut") for f in vv["f"]):
                    out.add(d)
    return out


class Publish(Part):
    scope = SCOPE
    name = "publish"

    def on_acquire(self, S, g, ev, trying):
        if not trying:
            self.rep(S, "publish-blocks", ev, "publishing waits for a lock")

    def on_call(self, S, ev):
        p, last = ev.p, ev.p.rsplit("::", 1)[-1]
        if p in self.E.F.bodies:
            return None
        wake = p in ("nix::unistd::write", "libc::write") or last in SENDS and "Write" in ev.q
        bl = blocking(ev)
        if bl is not None and not (wake and last == "write"):
            self.rep(S, "publish-blocks", ev, "publishing performs a blocking operation (%s: %s)" % (bl, p), " " + last)
        if last == "try_send":
            r = self.E.fresh(S, "sent")
            self.E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
            self.sent = mk("discr", r)
            self.ok("event hand-offs", ev)
            if "woke" in S.st:
                self.rep(S, "wake-before-send", ev, "the sink is woken before the event is handed over")
            return Act(ret=r)
        if wake:
            self.drop(S, "sent")
            self.add(S, "woke")
            self.ok("wakes", ev)
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a == getattr(self, "sent", None) and x == 0:
                self.add(S, "sent")

    def on_end(self, S, v):
        if "sent" in S.st:
            self.rep(S, "no-wake", None, "an event is handed over without waking the sink")


class Bounds(Part):
    scope = SCOPE
    name = "bounds-and-descriptors"

    def on_call(self, S, ev):
        E = self.E
        p, last, n = ev.p, ev.p.rsplit("::", 1)[-1], len(ev.ops)
        if p in E.F.bodies:
            return None
        if ("mpsc" in p and last in ("sync_channel", "channel") or "crossbeam_channel" in p and last in ("bounded", "unbounded")) and ev.ta and (LINE in ev.ta[0].s or EVENT in ev.ta[0].s):
            c = ev.load(0) if n else None
            if c is not None and c.k == "i" and c.a[0] <= LIMIT:
                self.ok("bounded channels", ev)
            else:
                self.rep(S, "unbounded-channel", ev, "the hand-off channel of events has no constant bound")
        if last == "set_nonblocking" and n == 2:
            if ev.load(1).k == "i" and ev.load(1).a[0] == 1:
                self.nb = getattr(self, "nb", {})
                r = E.fresh(S, "nbres")
                E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
                kind = "stream" if "UnixStream" in p else "listener"
                x = E.load(S.env, ev.args[0]) if ev.args[0].k == "ref" else ev.args[0]
                self.nb[mk("discr", r)] = ("nb", kind, x)
                return Act(ret=r)
            self.rep(S, "blocking-descriptor", ev, "a descriptor of the event bus is made blocking")
        if last == "pair" and "UnixStream" in p:
            r = E.fresh(S, "pair")
            E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
            self.add(S, ("pair", mk("discr", r)))
            self.ok("wake pairs", ev)
            return Act(ret=r)
        if p.endswith(("unistd::pipe", "libc::pipe")):
            self.rep(S, "blocking-descriptor", ev, "a blocking pipe is used by the event bus")
        if last == "bind" and "UnixListener" in p:
            r = E.fresh(S, "bound")
            E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
            self.add(S, ("bound", mk("discr", r)))
            self.ok("listeners", ev)
            return Act(ret=r)
        if last == "push" and "Vec" in p and n == 2 and ev.argty(1).d in self.structs and not self.has(S, "nb"):
            self.rep(S, "blocking-descriptor", ev, "a subscriber is registered without its stream having been made non-blocking")
        if n and is_queue(ev.argty(0)):
            r, q = E.deref(ev.args[0])
            if last == "len":
                v = E.fresh(S, "qlen")
                self.lens = getattr(self, "lens", {})
                self.lens[v] = (r, q)
                return Act(ret=v)
            if last in ("push_back", "push_front", "extend", "append", "insert", "resize", "resize_with"):
                if last != "push_back":
                    self.rep(S, "queue-order", ev, "an event enters a subscriber queue other than at its end (%s)" % last)
                elif ("room", (r, q)) not in S.st:
                    self.rep(S, "unbounded-queue", ev, "an event is queued for a subscriber without the queue's length having been found below a constant bound")
                else:
                    self.ok("bounded queues", ev)
                self.drop(S, "room")
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a in getattr(self, "nb", {}) and x == 0:
                self.add(S, self.nb[a])
            elif a.k == "op" and a.a[0] in ("Ge", "Gt", "Lt", "Le", "Eq", "Ne") and x in (0, 1):
                op, l, r = a.a[:3]
                if l.k == "i":
                    l, r, op = r, l, {"Ge": "Le", "Gt": "Lt", "Lt": "Gt", "Le": "Ge"}.get(op, op)
                t = getattr(self, "lens", {}).get(l)
                if t is not None and r.k == "i" and r.a[0] <= LIMIT and (op in ("Ge", "Gt", "Eq")) == (x == 0):
                    self.add(S, ("room", t))

    def end_state(self, S):
        nb = [x for x in S.st if isinstance(x, tuple) and x[0] == "nb"]
        return len({x[2] for x in nb if x[1] == "stream"}), len({x[2] for x in nb if x[1] == "listener"})

    def on_spawn(self, S, ev, clo):
        if self.has(S, "bound") and not self.end_state(S)[1]:
            self.rep(S, "blocking-descriptor", ev, "the sink is started with a blocking listener")
        return None

    def on_return(self, S, fr, v):
        if fr.body.lty(0).d == RES and self.E.known(S.env, mk("discr", v)) == 1:
            return
        if v.k == "agg" and v.a[1] == 1 and fr.body.lty(0).d == RES:
            return
        if self.has(S, "pair") and fr.parent is None and self.end_state(S)[0] < 2 and "OwnedFd" in fr.body.lty(0).s:
            self.rep(S, "blocking-descriptor", None, "an end of the wake pair is left blocking", " " + fr.body.p)
        if any(fr.body.lty(0).mentions(d) for d in self.structs) and fr.parent is None and not self.end_state(S)[0]:
            self.rep(S, "blocking-descriptor", None, "a subscriber is made without its stream having been made non-blocking", " " + fr.body.p)


class Drive(Part):
    """the code that writes queued events to a subscriber"""
    scope = SCOPE
    name = "write-queue"

    def on_call(self, S, ev):
        E = self.E
        p, last, n = ev.p, ev.p.rsplit("::", 1)[-1], len(ev.ops)
        if p in E.F.bodies:
            return None
        if n and is_queue(ev.argty(0)):
            if last in ("pop_front", "pop_back", "clear", "truncate", "drain", "remove", "retain", "swap_remove_back", "swap_remove_front", "split_off"):
                if last != "pop_front":
                    self.rep(S, "queue-order", ev, "a queued event leaves a subscriber queue other than as its first (%s)" % last)
                elif "full" not in S.st:
                    self.rep(S, "event-cut", ev, "a queued event is discarded before all its bytes were accepted")
                else:
                    self.ok("events completed", ev)
                if ("zero",) not in S.st:
                    self.add(S, "reset")
                self.drop(S, "full", "adv", "advd")
                return None
        if last in SENDS and ("Write" in ev.q or "io" in p) and n >= 2:
            if last != "write":
                self.rep(S, "partial-lost", ev, "a subscriber is written to with %s, which loses count of the bytes accepted" % last)
                return None
            if self.has(S, "adv"):
                self.rep(S, "short-write", ev, "after a short write the position is not advanced before the next write")
            if "reset" in S.st:
                self.rep(S, "stale-offset", ev, "the write position is not set back to the start after an event was finished")
            if not self.tail(S, ev.args[1]):
                self.rep(S, "offset-ignored", ev, "a queued event is written without regard to how much of it was accepted before")
            r = E.fresh(S, "wrote")
            E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
            self.writes = getattr(self, "writes", {})
            self.writes[mk("discr", r)] = r
            self.drop(S, "full", "advd", ("zero",))
            self.ok("subscriber writes", ev)
            return Act(ret=r)
        return None

    def tail(self, S, v):
        """the written bytes start at a position kept in memory"""
        t = repr(v) + repr(self.E.load(S.env, v))
        return "sub" in t or "Range" in t or "slice" in t or "idx" in t

    def accepted(self, S):
        return [x[1] for x in S.st if isinstance(x, tuple) and x[0] == "adv"]

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a in getattr(self, "writes", {}):
                self.drop(S, "adv")
                if x == 0:
                    self.add(S, ("adv", self.E.get(mk("dc", self.writes[a], 0), ("f", 0, "0"))))
            elif x == 0 and a in self.accepted(S):
                self.drop(S, "adv")
            elif a.k == "op" and a.a[0] in ("Ge", "Gt", "Lt", "Le", "Eq", "Ne") and x in (0, 1):
                op, l, r = a.a[:3]
                if x == 0:
                    op = {"Ge": "Lt", "Lt": "Ge", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}[op]
                if r.k == "op" and r.a[0].startswith("Add"):
                    l, r, op = r, l, {"Ge": "Le", "Gt": "Lt", "Lt": "Gt", "Le": "Ge"}.get(op, op)
                adv = {y[1] for y in S.st if isinstance(y, tuple) and y[0] == "advd"}
                if op == "Eq" and I(0) in (l, r) and set(self.accepted(S)) & {l, r}:
                    self.drop(S, "adv")
                if (l in adv or l.k == "op" and l.a[0].startswith("Add") and set(self.accepted(S)) & set(l.a[1:])) and op in ("Ge", "Eq") and "len" in repr(r):
                    self.add(S, "full")
                # everything that was offered was accepted
                if op == "Eq" and set(self.accepted(S)) & {l, r} and any("len" in repr(z) for z in (l, r)) and I(0) not in (l, r):
                    self.add(S, "full")

    def on_store(self, S, root, path, v, body, span):
        if v.k == "op" and v.a[0].startswith("Add") and set(self.accepted(S)) & set(v.a[1:]):
            self.drop(S, "adv")
            n = self.E.fresh(S, ("pos", str(root), str(path)))      # the new position, so that it does not grow into a term
            self.E.write(S.env, root, path, n)
            self.add(S, ("advd", n))
        elif v.k == "i" and v.a[0] == 0 and (root[0] != "L" or path) and body.lty(0) is not None:
            self.drop(S, "reset")
            if "full" in S.st:
                self.add(S, ("zero",))

    def on_return(self, S, fr, v):
        if fr.parent is None:
            if self.has(S, "adv"):
                self.rep(S, "short-write", None, "after a short write the position is not advanced", " " + fr.body.p)
            if "reset" in S.st:
                self.rep(S, "stale-offset", None, "the write position is not set back to the start after an event was finished", " " + fr.body.p)


class SinkRule(Part):
    """the thread that serves all subscribers"""
    scope = SCOPE
    name = "sink"
    K = 4

    def __init__(self, ctx, roots, pushers, drivers, structs):
        Part.__init__(self, ctx, roots)
        self.pushers, self.drivers, self.structs = pushers, drivers, structs
        self.res, self.nexts, self.subs = {}, {}, set()

    def opaque(self, body):
        return Part.opaque(self, body) or body.p in self.pushers or body.p in self.drivers

    def of_subs(self, t):
        return any(d.rsplit("::", 1)[-1] in t.s for d in self.structs)

    def result(self, S, what):
        r = self.E.fresh(S, what)
        self.E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
        self.res[mk("discr", r)] = what
        return Act(ret=r)

    def boundary(self, S, ev):
        if "todo" in S.st:
            self.rep(S, "event-skipped", ev, "an event is neither queued for a subscriber nor the subscriber marked dropped")
        if "failed" in S.st:
            self.rep(S, "not-dropped", ev, "a subscriber that failed or lost an event is not marked dropped")
        if "want" in S.st:
            self.rep(S, "not-polled", ev, "a subscriber with undelivered events is not waited for")
        self.drop(S, "todo", "failed", "want", "cur")
        if last(ev).endswith("poll") and "left" in S.st:
            self.rep(S, "not-removed", ev, "a subscriber marked dropped is kept: its connection stays open, and nothing it is owed will ever be sent")

    def on_call(self, S, ev):
        E = self.E
        p, last, n = ev.p, ev.p.rsplit("::", 1)[-1], len(ev.ops)
        if p in self.pushers:
            self.drop(S, "todo")
            self.ok("broadcasts", ev)
            return self.result(S, "push") if E.F.bodies[p].lty(0).d == RES else Act(opaque=True)
        if p in self.drivers:
            self.ok("deliveries", ev)
            return self.result(S, "drive") if E.F.bodies[p].lty(0).d == RES else Act(opaque=True)
        if p in E.F.bodies:
            return None
        if n and is_queue(ev.argty(0)):
            if last == "push_back":
                self.drop(S, "todo")
                self.ok("broadcasts", ev)
            if last == "is_empty":
                r = E.fresh(S, "empty")
                self.res[r] = "empty"
                return Act(ret=r)
            if last == "len":
                r = E.fresh(S, "qlen")
                self.res[r] = "len"
                return Act(ret=r)
        if last == "write" and n >= 2 and "Write" in ev.q:
            return self.result(S, "drive")
        if last in ("any", "all") and n and self.of_subs(ev.argty(0)):
            r = E.fresh(S, last)
            self.res[r] = last
            return Act(ret=r)
        if last == "filter" and n and self.of_subs(ev.argty(0)) and "IntoIter" in ev.argty(0).s:
            self.drop(S, "left")
        if last == "recv" and "mpsc" in p or last == "sleep":
            self.rep(S, "sink-blocks", ev, "the sink waits for something other than its descriptors")
        if last == "new" and "PollFd" in p:
            self.drop(S, "want")
        if p in ("nix::poll::poll", "libc::poll", "nix::poll::ppoll") or last == "try_recv":
            if "mid" in S.st and last == "try_recv":
                self.rep(S, "skips-others", ev, "the sink goes on before it has offered the event to every subscriber")
            self.boundary(S, ev)
            self.drop(S, "mid", "iter")
            if last == "try_recv":
                self.ok("event drains", ev)
                r = E.fresh(S, "line")
                E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
                self.res[mk("discr", r)] = "line"
                return Act(ret=r)
            self.drop(S, "line")
        if last == "next" and n and self.of_subs(ev.argty(0)) and "Iter" in ev.argty(0).s:
            self.boundary(S, ev)
            r = E.fresh(S, "sub")
            E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
            self.nexts[mk("discr", r)] = r
            self.subs.add(r)
            self.drop(S, "mid", "iter")
            if "IterMut" not in ev.argty(0).s:
                self.add(S, "iter")
            return Act(ret=r)
        if n and "Vec" in p and self.of_subs(ev.argty(0)):
            if last in ("retain", "retain_mut", "extract_if"):
                self.drop(S, "left")
                self.ok("removals of dropped subscribers", ev)
            if last in ("clear", "truncate", "drain", "pop", "remove", "swap_remove", "split_off", "dedup"):
                self.rep(S, "drops-others", ev, "subscribers are removed without regard to which of them failed (%s)" % last)
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            w = self.res.get(a)
            if w in ("push", "drive") and x == 1:
                self.add(S, "failed")
            elif w in ("any", "all"):
                if (w == "any") == (x == 0):
                    self.drop(S, "left")
            elif w == "line" and x == 0:
                self.add(S, "line")
            elif w == "line":
                self.drop(S, "line")
            elif w == "empty" and x == 0 and "iter" in S.st:
                self.add(S, "want")
            elif a in self.nexts:
                self.drop(S, "mid", "todo")
                if x == 1 and "line" in S.st and "iter" not in S.st:
                    self.add(S, "mid", "todo")
            elif x == 1 and "todo" in S.st and any(mentions(a, r) for r in self.subs) and a.k != "discr":
                self.drop(S, "todo")

    def on_store(self, S, root, path, v, body, span):
        if v.k == "i" and v.a[0] == 1 and path and path[-1][0] == "f":
            if S.st & {"todo", "failed"}:
                self.add(S, "left")
            self.drop(S, "todo", "failed")

    def on_end(self, S, v):
        if "failed" in S.st or "mid" in S.st:
            self.rep(S, "sink-dies", None, "the sink ends because of one subscriber")

    def on_diverge(self, S, ev):
        if "failed" in S.st or "mid" in S.st:
            self.rep(S, "sink-dies", ev, "the sink panics because of one subscriber")

    on_unwrap_fail = on_diverge


def retains(ctx, structs):
    """every retain on the subscribers keeps those whose flag is not set: a closure that returns the negation of one of its argument's fields"""
    F, G = ctx.F, ctx.G
    for s in G.sites:
        last = s.p.rsplit("::", 1)[-1]
        if (last in ("retain", "retain_mut") or last == "filter" and "IntoIter" in s.argty(0).s) and s.t[2] and any(d.rsplit("::", 1)[-1] in s.argty(0).s for d in structs):
            c = s.argty(1)
            b = F.bodies.get(c.d)
            neg = b is not None and any(st[1] == [0] and st[2][0] == "un" and st[2][1] == "Not" for bb in b.blocks for st in bb["s"] if st[1] is not None)
            ctx.check(neg, "removal", G.owner(s.body.p), "subscribers other than those marked dropped are removed", s.where())


def run(ctx):
    ctx.rule("publish: no lock, no blocking call, hand over then wake; descriptors non-blocking; constant bounds; whole events to every subscriber")
    F, G = ctx.F, ctx.G
    pub = {s.p for s in G.sites if publish_site(s)}
    structs = queue_structs(F)
    qsites = [s for s in G.sites if s.t[2] and is_queue(s.argty(0))]
    pushers = {G.owner(s.body.p) for s in qsites if s.p.rsplit("::", 1)[-1].startswith(("push", "extend", "append", "insert", "resize"))}
    drivers = {G.owner(s.body.p) for s in qsites if s.p.rsplit("::", 1)[-1] in ("pop_front", "pop_back", "clear", "truncate", "drain", "remove", "retain", "split_off")}
    aggs = lambda ds: {G.owner(b.p) for b in F.bodies.values() if any(st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] in ds for bb in b.blocks for st in bb["s"])}
    starts = {b for b in aggs({BUS})}
    makers = aggs(structs)
    pairs = {G.owner(s.body.p) for s in G.sites if s.p.endswith("UnixStream::pair") and "daemon::events" in s.body.p}
    sink = {G.owner(s.body.p) for s in G.sites if s.p.rsplit("::", 1)[-1] == "try_recv" and LINE in (s.ta[0].s if s.ta else "")}
    rs = [Publish(ctx, pub), Bounds(ctx, pushers | starts | makers | pairs), Drive(ctx, drivers), SinkRule(ctx, sink, pushers - sink, drivers - sink, structs)]
    rs[1].structs = structs
    for r in rs:
        ctx.engine(r)
        for x in sorted(r.seen):
            ctx.ok(*x)
    retains(ctx, structs)
    n = lambda c: len({x for r in rs for x in r.seen if x[0] == c})
    for c in ("event hand-offs", "wakes", "bounded channels", "wake pairs", "listeners", "bounded queues", "subscriber writes", "events completed", "broadcasts", "deliveries", "event drains"):
        ctx.floor(c, n(c), 1)
