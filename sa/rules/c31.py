"""C31: starting a second daemon leaves a running one untouched."""
from .part import *
from .startlib import Start, roots

EXPLAIN = ("The daemon's start is explored from its entry to serving and to every return, and so is the client's code that starts a daemon, with every answer of the system left open (socket handed over, connection accepted, refused or failed otherwise, bind taken, pid file locked). The control socket's file is removed only after a connection attempt on that very path was refused or when this daemon holds it; "
           "every other file or socket is removed, bound, emptied or written only when the control socket is held (the pid file: when its lock is); the lock is kept while serving; a start without the control socket ends in an error.")
ASSUME = ["a refused connection means nobody listens on the socket", "failed system calls change nothing"]
TECH = "path-sensitive typestate over MIR"


class Second(Start):
    name = "second-daemon"
    cats = ("served-socket", "too-early", "clobber", "unlocked", "unowned", "silent")


def run(ctx):
    ctx.rule("control socket held -> everything else")
    low, cl = roots(ctx)
    ctx.floor("functions that start the daemon", len(low), 1)
    p = [Second(ctx, low | cl)]
    run_parts(ctx, p)
    floors(ctx, p, "sockets bound", "connection attempts", "files removed", "serves")
