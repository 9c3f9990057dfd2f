"""C26: the sockets and the pid file are cleaned up on every orderly end."""
from .part import *
from ..models import call_clo
from .startlib import Start, roots, handlers, dtors, is_unlink, is_sigiter, walk

EXPLAIN = ("The daemon's start is explored to the point where it serves connections: by then a signal handler runs whose list contains every file this daemon made (control socket if it bound it itself, events socket, pid file), and not a control socket it was handed. The handler thread is explored for one signal: it removes every file of its list, a failed removal does not stop it, "
           "takes no lock, and then ends the process; the forced exit on a second signal is armed only after it was registered, and the signals handled are all termination signals. Every destructor of a type that stands for a file removes that file on all paths, and on an orderly end every file is removed or owned by such a type.")
ASSUME = ["unwinding paths are not followed", "the process does not die by SIGKILL"]
TECH = "path-sensitive typestate over MIR"
PARTLY = {"skip", "take", "take_while", "skip_while", "map_while", "step_by", "filter", "nth", "find", "first", "last", "get"}
NEED = {15, 2, 3}


class Orderly(Start):
    name = "orderly-end"
    cats = ("unhandled", "not-cleaned", "not-ours", "left-behind")


class Handler(Part):
    name = "signal-handler"
    K = 8

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if is_sigiter(p):
            self.ok("signal loops", ev)
            return Act(ret=E.fresh(S, "signals", ["signals"]))
        if l == "next" and n and ("Signals" in ev.argty(0).s or "signal_hook" in ev.argty(0).s):
            return Act(ret=agg(OPT, 1, (E.fresh(S, "signal"),)))
        if n and "Path" in ev.argty(0).s and l == "next":
            if "pending" in S.st:
                self.rep(S, "skipped", ev, "a file of the list is not removed")
            self.drop(S, "pending")
            return Act(forks=[(S.st | {"pending", "some"}, agg(OPT, 1, (E.fresh(S, "file", ["item"]),))), (S.st | {"all"}, agg(OPT, 0, ()))])
        if l == "for_each" and n == 2 and "Path" in ev.argty(0).s:
            self.add(S, "pending", "all")
            return Act(states=call_clo(E, S, ev, ev.args[1], [E.fresh(S, "file", ["item"])], ("raw",), "each"))
        if n and l in PARTLY and "Path" in ev.argty(0).s and "Path" in ev.destty().s:
            self.rep(S, "skipped", ev, "only a part of the list of files is gone through")
        if l in ("exists", "try_exists") and n and "item" in E.deep_tags(S.env, ev.args[0]):
            yes, no = B(1), B(0)
            if l == "try_exists":
                return None
            return Act(forks=[(S.st - {"pending"}, no), (S.st, yes)])
        if is_unlink(p):
            self.ok("removals on a signal", ev)
            if "item" not in E.deep_tags(S.env, ev.args[0]):
                self.rep(S, "other-file", ev, "a file that is not on the list is removed")
            self.drop(S, "pending")
            return Act(ret=self.result(S, "removed"))
        if p in ("std::process::exit", "libc::_exit", "signal_hook::low_level::exit"):
            self.ok("exits on a signal", ev)
            if "all" not in S.st or "pending" in S.st:
                self.rep(S, "skipped", ev, "the process exits before every file of the list was removed")
            return Act(end=True)
        return None

    def on_acquire(self, S, g, ev, trying):
        if not trying:
            self.rep(S, "waits", ev, "waits for a lock before the files are removed")

    def on_unwrap_fail(self, S, ev, pay):
        self.rep(S, "panics", ev, "a failure ends the handler thread before the process does")

    def on_end(self, S, v):
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        self.rep(S, "runs-on", type("e", (), {"body": fr.body}), "a termination signal does not end the daemon")


class Drop(Part):
    """a destructor that stands for a file"""
    name = "file-owner"

    def root_tags(self, body, i):
        return ["self"]

    def on_call(self, S, ev):
        if is_unlink(ev.p):
            self.ok("removals on drop", ev)
            if "self" not in self.E.deep_tags(S.env, ev.args[0]):
                self.rep(S, "other-file", ev, "removes another file than its own")
            self.add(S, "removed")
            return Act(ret=self.result(S, "removed"))
        return None

    def on_end(self, S, v):
        if "removed" not in S.st:
            fr = S.frame
            while fr.parent is not None:
                fr = fr.parent
            self.rep(S, "kept", type("e", (), {"body": fr.body}), "the file is not removed when the object that stands for it goes away")


class Arm(Part):
    """registering the handler: the second signal's exit before the arming, all termination signals"""
    name = "signal-registration"
    K = 6

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if l == "next" and n and ev.body.p in self._roots:
            self.drop(S, "armed", "cond")
        if "signal_hook::flag::register_conditional" in p:
            self.ok("forced exits", ev)
            if "armed" in S.st:
                self.rep(S, "armed-first", ev, "the forced exit is armed by the first signal: the files are not removed")
            if "true" in str(E.load(S.env, ev.args[n - 1])) or "armedflag" in E.deep_tags(S.env, ev.args[n - 1]):
                self.rep(S, "armed-first", ev, "the forced exit is armed from the start: the files are not removed")
            r = self.result(S, "registered")
            return Act(ret=r)
        if p.startswith("signal_hook::flag::register"):
            self.add(S, "armed")
            return Act(ret=self.result(S, "registered"))
        if "Atomic" in p and l == "new" and n and ev.load(0) == B(1):
            return Act(ret=E.fresh(S, "flag", ["armedflag"]))
        if "SignalsInfo" in p and l == "new" and n:
            src = sources_up(self.ctx, ev.body, ev.ops[0])
            nums = {x.a[0] for x in walk(E.load(S.env, ev.args[0])) if x.k == "i"}
            self.ok("signals handled", ev)
            if not any(x[0] == "const" and x[1].endswith("::TERM_SIGNALS") for x in src) and not NEED <= nums:
                self.rep(S, "signals", ev, "not every termination signal (SIGTERM, SIGQUIT, SIGINT) is handled by the clean-up thread")
            return None
        if p.startswith("signal_hook::low_level::register") or p in ("libc::signal", "nix::sys::signal::signal", "nix::sys::signal::sigaction"):
            self.rep(S, "other-handler", ev, "termination signals are handled by other means than the clean-up thread")
        return None


def run(ctx):
    ctx.rule("file made -> removed on a signal, on drop, at an orderly end")
    F, G = ctx.F, ctx.G
    low, _ = roots(ctx)
    ctx.floor("functions that start the daemon", len(low), 1)
    hand = handlers(ctx)
    top = {p for p in hand if not any(p.startswith(q + "::") for q in hand if q != p)}
    regs = {G.owner(p) for p in hand}
    parts = [Orderly(ctx, low), Handler(ctx, top), Arm(ctx, regs), Drop(ctx, set(dtors(ctx).values()))]
    run_parts(ctx, parts)
    floors(ctx, parts, "serves", "signal handlers", "signal loops", "removals on a signal", "exits on a signal", "signals handled", "removals on drop")
