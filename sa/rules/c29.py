"""C29: each lifecycle hook fires on its own transition and cannot break it."""
from .part import *
from .attachlib import is_wait, REPLY, STATUS
from .c10 import is_waitpid

EXPLAIN = ("The handling of one attach is followed over all its paths, with every hook both succeeding and failing. At its end the hooks called are compared with what the path did: a session it created has had the new-session hook once, a running session it took over (found running under the table lock) the reattach hook once, an attach answered busy the busy hook once; "
           "an attachment it recorded ends with exactly one of the disconnect hooks, the shell's only when the shell was found to have ended and the client's only when it was not. No path ends with a hook's own error, panics on it, or skips the bookkeeping after it. Hooks are called from nowhere else and get the name out of the request.")
ASSUME = ["the function that relays between a client and a shell returns Ok(true) exactly when the shell has ended (C10)", "ExitNotifier::wait returns Some exactly when the shell has ended (C10)", "unwinding paths are not followed"]
TECH = "path-sensitive typestate over MIR"
HOOK = "::hooks::Hooks::on_"
ONE = {"new": "on_new_session", "re": "on_reattach", "busy": "on_busy", "cd": "on_client_disconnect", "sd": "on_shell_disconnect"}
NAMES = {v: k for k, v in ONE.items()}


def hook(p):
    return NAMES.get(p.rsplit("::", 1)[-1], "?") if HOOK in p else None


def relay(F, s):
    """serves a client until it or the shell is gone, and says which"""
    b = F.bodies.get(s.p)
    if b is None or b.kind == "closure" or b.lty(0).d != RES or "Result<bool" not in b.lty(0).s:
        return False
    return b.argc > 0 and b.lty(1).peel().d == INNER


class Hooks(Part):
    name = "hooks"
    K = 6

    def __init__(self, ctx, roots, follow):
        Part.__init__(self, ctx, roots)
        self.follow = follow
        self.waits = set()
        self.names = [v["n"] for v in ctx.F.adts[STATUS]["v"]]

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def on_call(self, S, ev):
        E, p, n = self.E, ev.p, len(ev.ops)
        h = hook(p)
        if h:
            return self.fire(S, ev, h)
        op = table_op(ev)
        if op is not None:
            if "attached" in S.st:
                self.add(S, "again")
            if op in ("insert", "insert_entry") or op.startswith("or_insert"):
                self.add(S, "created")
            return None
        if is_publish(ev):
            if event_variant(E, ev) == "SessionAttached":
                self.add(S, "attached")
                if "created" not in S.st and "alive" not in S.st:
                    self.add(S, "blind")
            return Act(ret=UNIT)
        if is_wait(ev):
            self.drop(S, "unsure")
            st = S.st - {"alive", "exited"}
            return Act(forks=[(st | {"alive"} if "attached" not in st else st, agg(OPT, 0, ())), (st | {"ended" if "attached" in st else "exited"}, agg(OPT, 1, (E.fresh(S, "status"),)))])
        i = next((i for i in range(n) if ev.argty(i).peel().d == REPLY), None)
        if i is not None and p in E.F.bodies:
            st = E.load(S.env, E.get(ev.load(i), ("f", 0, "status")))
            v = self.names[st.a[1]] if st.k == "agg" and st.a[0] == STATUS else None
            if v == "Busy":
                self.add(S, "busyreply")
            elif v not in ("Attached", "Created"):
                self.add(S, "otherreply")
            self.ok("replies", ev)
            return Act(ret=self.result(S, "reply"))
        if relay(E.F, ev):
            self.ok("relays", ev)
            return Act(forks=[(S.st | {"ended"}, agg(RES, 0, (B(1),))), (S.st, agg(RES, 0, (B(0),))), (S.st | {"unsure"}, agg(RES, 1, (E.fresh(S, "relayerr"),)))])
        b = E.F.bodies.get(p)
        if b is not None and p in self.spawners:
            self.add(S, "spawned")
        return None

    def fire(self, S, ev, h):
        E = self.E
        self.ok("hook " + ONE.get(h, "?"), ev)
        if h == "?":
            self.rep(S, "unknown-hook", ev, "an unknown hook is called")
            return None
        f = "h:" + h
        if f in S.st:
            self.rep(S, "twice", ev, "the %s hook is called twice for one transition" % ONE[h], " " + h)
        if h == "sd" and "ended" not in S.st:
            self.rep(S, "not-ended", ev, "the shell-disconnect hook is called although the shell was not found to have ended")
        if h == "cd" and ("ended" in S.st or "unsure" in S.st):
            self.rep(S, "not-left", ev, "the client-disconnect hook is called although the shell has ended, or may have")
        if h in ("cd", "sd") and "attached" not in S.st:
            self.rep(S, "unattached", ev, "a disconnect hook is called although no client was attached")
        if h == "re" and "alive" not in S.st:
            self.rep(S, "unconfirmed", ev, "the reattach hook is called although the session was not found to be running")
        st = S.st | {f}
        e = E.fresh(S, "hookerr", ["hookerr"])
        return Act(forks=[(st, agg(RES, 0, (UNIT,))), (st, agg(RES, 1, (e,)))])

    def on_unwrap_fail(self, S, ev, pay):
        if pay is not None and "hookerr" in tags(pay):
            self.rep(S, "hook-panic", ev, "an error of a hook makes the daemon panic")

    def on_end(self, S, v):
        st = S.st
        e = type("e", (), {"body": self.root(S).body})
        bad = lambda cat, msg: self.rep(S, cat, e, msg)
        if "hookerr" in tags(v):
            bad("hook-error", "an attach ends with the error of a hook")
        took = "attached" in st and "created" not in st
        made = "created" in st
        busy = "busyreply" in st
        if made and "h:new" not in st:
            bad("no-new", "a session is created without the new-session hook having been called")
        if took and "h:new" in st or "h:new" in st and not made and "spawned" not in st:
            bad("new", "the new-session hook is called although no session is created")
        if took and "h:re" not in st:
            bad("no-re", "a session is taken over without the reattach hook having been called")
        if took and "blind" in st:
            bad("blind", "a session is taken over although it was not found to be running")
        if "h:re" in st and not took:
            bad("re", "the reattach hook is called although no session is taken over")
        if busy and "h:busy" not in st:
            bad("no-busy", "an attach is answered busy without the busy hook having been called")
        if "h:busy" in st and ("attached" in st or "otherreply" in st):
            bad("busy", "the busy hook is called although the attach is not refused as busy")
        if "attached" in st:
            if not ("h:cd" in st or "h:sd" in st):
                bad("no-disconnect", "an attached client goes away without one of the disconnect hooks having been called")
            if "h:cd" in st and "h:sd" in st:
                bad("both", "both disconnect hooks are called for the end of one attachment")
            if "again" not in st:
                bad("no-bookkeeping", "an attachment ends without the session table having been looked at again")

    def root(self, S):
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        return fr


def tags(v, d=8):
    if not isinstance(v, V) or d == 0:
        return frozenset()
    out = frozenset(v.a[1]) if v.k == "S" else frozenset()
    for x in v.a:
        if isinstance(x, V):
            out |= tags(x, d - 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    out |= tags(y, d - 1)
    return out


def run(ctx):
    F, G = ctx.F, ctx.G
    ctx.rule("hooks called on a path = transitions of that path")
    hs = [s for s in G.sites if hook(s.p) and "::test_hooks" not in s.body.p]
    hb = {s.body.p for s in hs}
    # the function that serves one attach: it alone sees all of its hooks
    cand = None
    ins = {s.body.p for s in G.sites if relay(F, s)}
    for p in sorted(hb) + sorted(ins):
        u = {q for q in G.up({p}) if q in F.bodies and F.bodies[q].kind != "closure"}
        cand = u if cand is None else cand & u
    low = {p for p in cand or () if not (G.reach([p]) - {p}) & (cand or set())}
    kinds = {hook(s.p) for s in hs}
    for k in ONE:
        ctx.check(k in kinds, "called", ONE[k], "the %s hook is called from nowhere" % ONE[k], "")
    below = G.reach(low)
    spawn = {s.body.p for s in G.sites if s.p.startswith("shpool_pty::fork::Fork::") and last(s) in ("from_ptmx", "new")}
    follow = G.up(hb | {s.body.p for s in G.sites if (table_site(s) or publish_site(s) or is_wait(s, True)) and s.body.p in below} | {s.body.p for s in G.sites if relay(F, s)}
                  | {s.body.p for s in G.sites if any(s.argty(i).peel().d == REPLY for i in range(len(s.t[2])))}) & (below | low)
    follow = {p for p in follow if not p.startswith(NOTIFIER) and not p.startswith(BUS)}
    r = Hooks(ctx, low, follow)
    r.spawners = (G.up(spawn) & below) - G.up(hb)
    parts = [r]
    run_parts(ctx, parts)
    for k in ONE.values():
        floors(ctx, parts, "hook " + k)
    floors(ctx, parts, "relays", "replies")
    # the name handed to a hook is the one of the request
    for s in hs:
        src = sources_up(ctx, s.body, s.t[2][1]) if len(s.t[2]) > 1 else set()
        ctx.check(("field", "name") in src, "hook-name", "%s:%s" % (G.owner(s.body.p), last(s)), "a hook is not given the name of the session of the request", s.where())


NOTIFIER = "libshpool::daemon::exit_notify::"
