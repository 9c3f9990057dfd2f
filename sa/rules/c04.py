"""C04: a session disappears only because of its own exit, kill or ttl."""
from .attachlib import *

EXPLAIN = ("Path-sensitive typestate analysis: each removal from the session table, each signal to a table session's shell and each 'detached' mark must, on "
           "every path and under the same table lock, be justified by a kill (detach) request naming it or by a pointer identity check against the session "
           "the caller means; a removal needs, in addition, the observed exit of that shell or a signal sent to it. Flags meaning 'the shell exited' may only "
           "be raised where the exit was observed.")
ASSUME = ["unwinding paths are not followed", "that a ttl timer fires at the right time is not decided here"]
CATS = {"stray-kill", "stray-detach", "stray-removal", "removal-reason", "exit-flag"}


def run(ctx):
    ctx.rule("removal / signal / detach mark on a table entry => kill or detach request, or identity check under the held guard; removal => exit evidence")
    r = run_attach(ctx, CATS, {"removal-justified", "signal-justified", "detach-identity", "identity-check", "exit-flag-raised-on-exit"})
    n = lambda c: len([x for x in r.seen if x[0] == c])
    ctx.floor("removals", n("removal-justified"), 1)
    ctx.floor("signals", n("signal-justified"), 1)
    ctx.floor("detach marks", n("detach-identity"), 1)
    ctx.floor("exit flags", n("exit-flag-raised-on-exit"), 1)
