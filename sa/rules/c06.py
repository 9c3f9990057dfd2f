"""C06: a client that goes away is always recorded as gone."""
from .attachlib import *

EXPLAIN = ("Path-sensitive debt analysis: storing an attachment in a table session (or inserting a session that has one) opens a debt for the serving thread; every "
           "path to the end of that thread must, under the table lock, remove the entry, find it gone or replaced, or store None and publish SessionDetached.")
ASSUME = ["unwinding paths are not followed"]
CATS = {"attachment-leak", "detach-unannounced", "detach-unrecorded", "attachment-unknown"}


def run(ctx):
    ctx.rule("attachment debt discharged on every path to the end of the serving thread")
    r = run_attach(ctx, CATS, {"attachment-recorded", "detach-recorded", "debt-removed", "identity-check"})
    n = lambda c: len([x for x in r.seen if x[0] == c])
    ctx.floor("attachments recorded", n("attachment-recorded"), 1)
    ctx.floor("detaches recorded", n("detach-recorded"), 1)
    ctx.floor("removals while attached", n("debt-removed"), 1)
