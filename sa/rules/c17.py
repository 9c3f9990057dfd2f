"""C17: one bad session does not spoil a request that covers several."""
from .part import *
from .c16 import wire_fns, wire_type

EXPLAIN = ("The handlers of the requests that concern several sessions (detach, kill, variable change) are explored with the result of every call left open. Every loop in them ends only when there is nothing left "
           "to go through, no consumer that stops at the first failure is used, each session that was found has been acted on before the next one is looked at, each name that was not found has been put on a list "
           "that becomes the reply's list of unknown names, and once a session has been acted on the handler ends only after having written the reply.")
ASSUME = ["unwinding paths are not followed"]

MSG = "libshpool::daemon::shell::ClientConnectionMsg"
SESSION = "libshpool::daemon::shell::Session"
CTL = "libshpool::daemon::shell::ShellToClientCtl"
REQS = {"shpool_protocol::DetachRequest": "detach", "shpool_protocol::KillRequest": "kill", "shpool_protocol::ModifyVarRequest": "change"}
SHORT = {"try_for_each", "try_fold", "any", "all", "find", "find_map", "position", "take_while", "map_while", "scan", "take", "skip", "step_by", "nth", "last", "min", "max", "first", "reduce"}
CHOOSE = {"filter", "filter_map", "skip_while"}


class Each(Part):
    name = "each-session"
    K = 4

    def __init__(self, ctx, roots, what, enc, ops, follow):
        Part.__init__(self, ctx, roots)
        self.what, self.enc, self.ops, self.follow = what, enc, ops, follow
        self.gets = set()
        self.name = "each-session-" + what

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def op(self, S, ev):
        self.ok("sessions acted on", ev)
        self.add(S, "op", "acted")

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l, n = ev.p, last(ev), len(ev.ops)
        if p in self.enc:
            if wire_type(ev.ta) is None or any(t.peel().d == "std::vec::Vec" for t in ev.ta):
                return None
            for i in range(n):
                v = E.load(S.env, ev.args[i])
                if v.k == "agg" and str(v.a[0]).startswith("shpool_protocol::"):
                    self.lists(S, ev, v)
            self.ok("replies", ev)
            if self.has(S, "more"):
                self.rep(S, "stops-early", ev, "a %s request is answered although some sessions have not been looked at" % self.what)
            self.add(S, "replied")
            return Act(ret=self.result(S, "replied"))
        if l == "next" and n == 1 and (ev.trait == "std::iter::Iterator" or "Iterator" in ev.q):
            t = ev.argty(0)
            if not (t.mentions(SESSION) or t.mentions(CTL) or self.what != "change" and t.mentions("std::string::String")):
                return None
            self.turn(S, ev)
            st = S.st - {"acted", "found", "unknown", "pushed"}
            it = E.load(S.env, ev.args[0])
            site = ("more", ev.body.p, str(ev.span))
            return Act(forks=[(st - {site}, agg(OPT, 0, ())), (st | {site}, agg(OPT, 1, (E.fresh(S, "item"),)))])
        if l in SHORT and (ev.trait == "std::iter::Iterator" or "Iterator" in ev.q) and S.frame.body.p in self.follow | set(self._roots):
            self.rep(S, "stops-early", ev, "%s over the sessions of a %s request may leave some of them out" % (l, self.what))
        if self.what == "change" and l in CHOOSE and n and (ev.trait == "std::iter::Iterator" or "Iterator" in ev.q) and (ev.argty(0).mentions(SESSION) or ev.argty(0).mentions(CTL)):
            f = ev.args[1] if n > 1 else UNIT
            if not (f.k == "clo" and f.a[0] in self.ops):
                self.rep(S, "not-everyone", ev, "a change is sent only to some of the sessions (%s)" % l)
        if l == "collect" and any(t.d in (RES, OPT) for t in ev.ta):
            self.rep(S, "stops-early", ev, "collecting into a Result stops at the first session of a %s request that fails" % self.what)
        if l in ("get", "get_mut", "contains_key", "entry", "remove", "remove_entry", "get_key_value") and n == 2 and is_table(ev.argty(0).peel()):
            if l in ("get", "get_mut", "get_key_value", "contains_key"):
                r = E.fresh(S, "entry")
                if l == "contains_key":
                    self.gets.add(r)
                else:
                    E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
                    self.gets.add(mk("discr", r))
                return Act(ret=r)
        if l in ("push", "push_back", "insert", "extend", "insert_unique") and n == 2 and "String" in ev.argty(0).s and not is_table(ev.argty(0).peel()):
            a = ev.args[0]
            if a.k == "ref" and self.has(S, "more"):
                tag = "unknown" if "unknown" in S.st else "known"
                if tag == "unknown":
                    self.add(S, "pushed", "any-unknown")
                E.write(S.env, a.a[0], a.a[1], E.fresh(S, "list", sorted(E.read(S.env, a.a[0], a.a[1]).tags | {tag})))
                return Act(ret=UNIT)
        if self.what == "change" and l in ("push", "push_back", "insert") and self.has(S, "more"):
            self.add(S, "acted")
        if l.startswith("send") and "crossbeam_channel" in p and any(t.d == ("shpool_protocol::MaybeSwitch" if self.what == "change" else MSG) for t in ev.ta):
            self.op(S, ev)
            return Act(ret=self.result(S, "sent"))
        b = F.bodies.get(p)
        if b is not None and p in self.ops and self.opaque(b):
            self.op(S, ev)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def lists(self, S, ev, v):
        for (n, t), x in zip(fields(self.E.F, v.a[0]), v.a[2]):
            if "not_found" in n:
                if "known" in deep(x):
                    self.rep(S, "wrong-list", ev, "sessions that were found are reported as unknown")
                if "any-unknown" in S.st and "unknown" not in deep(x):
                    self.rep(S, "unknown-not-listed", ev, "names that were not found are not listed in the reply")
                self.ok("unknown names listed", ev)
            elif t is not None and "String" in t.s and "unknown" in deep(x):
                self.rep(S, "wrong-list", ev, "names that were not found are put on another list of the reply")

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a in self.gets:
                self.drop(S, "found", "unknown")
                self.add(S, "found" if x == 1 else "unknown")

    def turn(self, S, ev):
        if self.has(S, "more"):
            if "found" in S.st and "acted" not in S.st:
                self.rep(S, "skipped", ev, "a session named in a %s request is found, but nothing is done about it" % self.what)
            if "unknown" in S.st and "pushed" not in S.st:
                self.rep(S, "unknown-not-listed", ev, "a name in a %s request that was not found is not listed" % self.what)
            if self.what == "change" and "acted" not in S.st:
                self.rep(S, "skipped", ev, "a session is not told about a change")

    def on_end(self, S, v):
        if self.has(S, "more"):
            self.rep(S, "stops-early", None, "a %s request ends although some sessions have not been looked at" % self.what, " " + S.frame.body.p)
        if "op" in S.st and "replied" not in S.st:
            self.rep(S, "no-reply", None, "a %s request ends without a reply after a session failed" % self.what, " " + S.frame.body.p)


def deep(v, d=5):
    if not isinstance(v, V) or d == 0:
        return frozenset()
    out = frozenset(v.a[1]) if v.k == "S" else frozenset()
    for x in v.a:
        for y in flat(x):
            out |= deep(y, d - 1)
    return out


def parts_for(ctx, only=None):
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    kills = G.up(G.calling(lambda s: s.p in ("nix::sys::signal::kill", "libc::kill") or last(s) == "kill" and s.p.startswith("nix::"))) | G.calling(lambda s: s.p == "nix::sys::signal::kill")
    sends = G.calling(lambda s: last(s).startswith("send") and "crossbeam_channel" in s.p and any(t.d == MSG for t in s.ta))
    sends = G.up(sends) | sends
    sw = G.calling(lambda s: last(s).startswith("send") and "crossbeam_channel" in s.p and any(t.d == "shpool_protocol::MaybeSwitch" for t in s.ta))
    sw = G.up(sw) | sw
    out = []
    for req, what in REQS.items():
        if only and what != only:
            continue
        roots = {b.p for b in F.bodies.values() if b.kind != "closure" and b.p.startswith("libshpool::daemon::") and any(b.lty(i).peel().d == req for i in range(1, b.argc + 1))}
        ops = {"detach": sends, "kill": kills, "change": sw}[what]
        # helpers that are handed the whole list or the whole table are followed
        lists = lambda t: "String" in t.s and ("Vec" in t.s or "[" in t.s) or is_table(t.peel()) or "Vec" in t.s and "ShellToClientCtl" in t.s or "UnixStream" in t.s or t.peel().d in REQS
        follow = {p for p, b in F.bodies.items() if b.kind != "closure" and p.startswith("libshpool::daemon::server::") and p not in enc and any(lists(b.lty(i)) for i in range(2, b.argc + 1))}
        out.append(Each(ctx, roots, what, enc, ops, follow))
        ctx.floor("handlers of %s requests" % what, len(roots), 1)
    return out


def run(ctx):
    ctx.rule("requests on several sessions: all of them, independently")
    parts = parts_for(ctx)
    run_parts(ctx, parts)
    for r in parts:
        floors(ctx, [r], "sessions acted on", "replies")
