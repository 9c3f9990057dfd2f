"""C11: a session's shell is hung up first, killed only when that did not help, and never signalled once it is known to be dead."""
from .part import *
from .c10 import is_waiter

EXPLAIN = ("Every function that signals a process is explored from entry to return with the exit notifier's answers and the signal calls' results left open. A hangup is sent only after the "
           "notifier said that the shell is still running, an unconditional kill only after a hangup and a bounded wait that ended with the shell still running; whoever returns success has "
           "seen the shell's end or has sent the kill, or was told 'no such process'; that answer is never passed on as an error.")
ASSUME = ["unwinding paths are not followed", "the exit notifier is right (C10)"]
SIG = {"SIGHUP": "hup", "SIGKILL": "kill", 1: "hup", 9: "kill"}
SIGNAL = "nix::sys::signal::Signal"
ERRNO = "nix::errno::Errno"


def is_kill(p):
    return p in ("nix::sys::signal::kill", "nix::sys::signal::killpg", "libc::kill", "libc::killpg")


class Escalation(Part):
    name = "kill-escalation"
    K = 12

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.waits, self.sent, self.nos = set(), set(), set()
        ad = ctx.F.adts.get(ERRNO)
        self.esrch = 3
        for v in (ad or {"v": []})["v"]:
            if v["n"] == "ESRCH":
                self.esrch = int(v["d"])

    def sig(self, v):
        if v.k == "agg" and v.a[0] == OPT:
            if v.a[1] == 0:
                return "probe"
            v = v.a[2][0]
        if v.k == "agg" and v.a[0] == SIGNAL:
            ad = self.E.F.adts.get(SIGNAL)
            return SIG.get(ad["v"][v.a[1]]["n"] if ad else v.a[1], "other")
        if v.k == "i":
            return "probe" if v.a[0] == 0 else SIG.get(v.a[0], "other")
        return "other"

    def on_call(self, S, ev):
        E = self.E
        if is_waiter(E.F, ev.p):
            t = ev.load(1)
            self.ok("looks at the shell's state", ev)
            self.drop(S, "alive", "over", "zero")
            if not (t.k == "agg" and t.a[1] == 1):
                self.rep(S, "unbounded-wait", ev, "there is no bound to the time the shell is given to exit")
            elif "zero" in t.tags or str(t.a[2][0]) in ("Duration(0, ()#0(0))", "0") or "ZERO" in str(t.a[2][0]):
                self.add(S, "zero")
            r = self.result(S, "state", OPT)
            self.waits.add(mk("discr", r))
            return Act(ret=r)
        if ev.p.startswith("std::time::Duration::from_") and ev.ops and ev.load(0) == I(0):
            return Act(ret=E.fresh(S, "zero", ["zero"]))
        if is_kill(ev.p):
            s = self.sig(ev.load(1))
            if s == "probe":
                return None
            self.ok("signals", ev)
            if "dead" in S.st:
                self.rep(S, "dead-shell-signalled", ev, "a signal is sent although the shell is known to be dead")
            if s == "kill":
                if "hup" not in S.st:
                    self.rep(S, "impolite", ev, "the shell is killed without having been sent a hangup")
                elif "over" not in S.st:
                    self.rep(S, "no-grace", ev, "the shell is killed without having been given time to exit and found to be still running")
            elif "alive" not in S.st and "hup" not in S.st:
                self.rep(S, "maybe-dead-signalled", ev, "a signal is sent without a look at whether the shell is still running")
            self.drop(S, "failed", "alive", "other")
            if s in ("hup", "kill"):
                self.add(S, "try" + s)
                self.drop(S, "trykill" if s == "hup" else "tryhup")
            r = self.result(S, "killed")
            self.sent.add(mk("discr", r))
            self.nos.add(mk("discr", E.get(mk("dc", r, 1), ("f", 0, "0"))))
            self.nos.add(E.get(mk("dc", r, 1), ("f", 0, "0")))
            if ev.p.startswith("libc"):
                self.sent.add(r)
            return Act(ret=r)
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val) or [(v, val)]:
            self.branch(S, a, x)
        if isinstance(val, tuple):
            self.branch(S, v, val)

    def branch(self, S, v, val):
        if v in self.waits:
            if val == 1:
                self.add(S, "dead")
            elif val == 0:
                self.add(S, "alive")
                if "zero" not in S.st and "hup" in S.st:
                    self.add(S, "over")
        elif v in self.sent:
            if val == 0:
                for s in ("hup", "kill"):
                    if "try" + s in S.st:
                        self.add(S, s)
            else:
                self.add(S, "failed")
        elif v in self.nos:
            if val == self.esrch:
                self.add(S, "dead", "esrch")
            else:
                self.add(S, "other")
        elif v.k == "op" and v.a[0] == "Eq" and any(x in self.nos for x in v.a[1:]):
            w = [x for x in v.a[1:] if x not in self.nos]
            if w and ("ESRCH" in str(w[0]) or w[0] == I(self.esrch) or w[0].k == "agg" and self.variant(w[0]) == "ESRCH"):
                self.branch(S, [x for x in v.a[1:] if x in self.nos][0], self.esrch if val else -1)

    def variant(self, v):
        ad = self.E.F.adts.get(v.a[0])
        return ad["v"][v.a[1]]["n"] if ad and v.a[1] is not None and v.a[1] < len(ad["v"]) else None

    def on_return(self, S, fr, v):
        if fr.parent is not None or not ({"dead", "alive", "hup", "tryhup", "trykill"} & S.st or any(fr.body.lty(i).mentions(SESSION) for i in range(1, fr.body.argc + 1))):
            return
        if v.k == "agg" and v.a[0] == RES and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            if "esrch" in S.st or "failed" in S.st and "other" not in S.st:
                self.rep(S, "gone-is-an-error", None, "'no such process' is reported as a failure", " " + fr.body.p)
            return
        self.seen.add(("successful ends", fr.body.p))
        if not ("dead" in S.st or "kill" in S.st):
            self.rep(S, "left-running", None, "success is reported although the shell may still be running", " " + fr.body.p)


def run(ctx):
    ctx.rule("look (running?) -> hangup -> bounded wait -> kill")
    F, G = ctx.F, ctx.G
    roots = {G.owner(s.body.p) for s in G.sites if is_kill(s.p) and s.body.p.startswith("libshpool::") and "test_hooks" not in s.body.p}
    about = {G.owner(b.p) for b in F.bodies.values() if any(b.lty(i).mentions(SESSION) for i in range(len(b.locals)))}
    waiting = {G.owner(s.body.p) for s in G.sites if is_waiter(F, s.p)}
    direct, work, seen = set(), sorted(roots), set(roots)
    while work:                 # a helper that is only handed a pid is judged where the session is known
        r = work.pop()
        if r in about and (r in waiting or not any(s.p == r for s in G.sites)):
            direct.add(r)
            continue
        for s in G.sites:
            o = G.owner(s.body.p)
            if s.p == r and o not in seen:
                seen.add(o)
                work.append(o)
    parts = [Escalation(ctx, direct)]
    run_parts(ctx, parts)
    floors(ctx, parts, "looks at the shell's state", "signals", "successful ends")
