"""C03: a live session is never taken over or replaced by another attach."""
from .attachlib import *

EXPLAIN = ("Path-sensitive typestate analysis of all session table users: attach locks of table sessions may only be probed, never waited for; a path that "
           "failed the probe must answer busy and change nothing; an insert that replaces an entry needs, under the same table lock, evidence that the "
           "replaced entry's shell exited; the new session's attach lock must be held when it becomes visible; the lock may not be given up while the "
           "client is recorded as attached; a session that lost the creation race must be killed.")
ASSUME = ["unwinding paths are not followed", "ExitNotifier::wait returns Some only after the shell was reaped (decided by C10)"]
CATS = {"attach-waits", "busy-ignored", "busy-unanswered", "spurious-busy", "clobber", "insert-unlocked", "takeover-unlocked", "attach-lock-dropped", "orphan-shell"}


def run(ctx):
    ctx.rule("probe-only attach locks; busy => busy reply and no change; insert over an entry => exited evidence under the same guard")
    r = run_attach(ctx, CATS, {"attach-lock-probed", "busy-justified", "insert-judged", "attachment-recorded", "session-created"})
    n = lambda c: len([x for x in r.seen if x[0] == c])
    ctx.floor("attach lock probes", n("attach-lock-probed"), 1)
    ctx.floor("busy answers", n("busy-justified"), 1)
    ctx.floor("table inserts", n("insert-judged"), 1)
    ctx.floor("attachments recorded", n("attachment-recorded"), 1)
    ctx.floor("sessions created", n("session-created"), 1)
