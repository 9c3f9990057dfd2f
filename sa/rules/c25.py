"""C25: a forked child becomes the requested program or exits; it never runs on as a second daemon."""
from .part import *
from .c10 import is_waitpid
from .c11 import is_kill
from .c33 import is_fork_p, FORK
from .c38 import cyclic

EXPLAIN = ("Every place that starts a process by forking is explored from the function that also replaces the process, following the child only, with its copy of the result (success or failure of the terminal setup) and with the results of all later calls left open. Every path of the child ends in a successful exec or in a process exit "
           "with a failure status; it returns to no daemon code, cannot panic, takes no lock, and touches no client, channel, thread, file or process. Every exec comes after all descriptors beyond standard input, output and error have been closed.")
ASSUME = ["a failed exec leaves the process unchanged", "printing to standard error does not panic"]
TECH = "path-sensitive typestate over MIR (child side of every fork)"
EXITS = ("std::process::exit", "libc::_exit", "libc::exit", "nix::libc::_exit", "libc::quick_exit")


def is_exec(p):
    n = p.rsplit("::", 1)[-1]
    return n == "exec" and "CommandExt" in p or p.startswith(("nix::unistd::exec", "libc::exec")) or n == "fexecve"


def is_close(p):
    return p in ("nix::unistd::close", "libc::close", "nix::libc::close")


class Child(Part):
    name = "forked-child"
    K = 6

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.starts, self.used = {}, set()
        vs = [v["n"] for v in ctx.F.adts[FORK]["v"]] if FORK in ctx.F.adts else ["Parent", "Child"]
        self.child = vs.index("Child")
        G = ctx.G
        self.closers = {s.body.p for s in G.sites if is_close(s.p) and cyclic(s.body)}
        self.useful = G.up({s.body.p for s in G.sites if is_fork_p(s.p) or is_exec(s.p)})

    def inchild(self, S):
        return "child" in S.st

    def bad(self, S, ev, what):
        self.rep(S, "daemon-work", ev, "the forked child %s" % what)

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if p in ("std::process::id", "libc::getpid", "nix::unistd::getpid"):
            return Act(ret=I(4243 if self.inchild(S) else 4242))
        if is_fork_p(p):
            if self.inchild(S):
                self.bad(S, ev, "forks again")
            self.ok("forks", ev)
            st = S.st | {"child"}
            f = agg(FORK, self.child, (E.fresh(S, "slave"),))
            if not p.startswith("shpool_pty"):
                return Act(forks=[(st, I(0) if p.startswith("libc") else agg(RES, 0, (E.fresh(S, "child"),)))])
            return Act(forks=[(st, agg(RES, 0, (f,))), (st, agg(RES, 1, (E.fresh(S, "nopty"),)))])
        if not self.inchild(S):
            b = self.E.F.bodies.get(p)
            return Act(opaque=True) if b is not None and p not in self.useful and b.kind != "closure" else None
        if p.startswith("shpool_pty::fork::Fork::") and n and ev.argty(0).peel().d == FORK and l in ("is_parent", "is_child", "child_pid"):
            x = E.fresh(S, "slave")
            return Act(ret={"is_parent": agg(RES, 1, (x,)), "is_child": agg(RES, 0, (x,)), "child_pid": agg(OPT, 0, ())}[l])
        if is_exec(p):
            self.ok("programs executed", ev)
            if "closed" not in S.st:
                self.rep(S, "descriptors", ev, "the program is started with the daemon's descriptors open")
            return None
        if p in EXITS:
            self.ok("child exits", ev)
            v = ev.load(0)
            if v == I(0):
                self.rep(S, "exit-status", ev, "the child reports success although it did not become the program")
            return Act(end=True)
        if p in ("std::process::abort", "libc::abort"):
            self.ok("child exits", ev)
            return Act(end=True)
        if p in ("libc::syscall", "nix::libc::syscall") and n >= 4:
            nr, a, z, fl = (ev.load(i) for i in range(4))
            if nr == I(436) and a == I(3) and fl == I(0) and z.k == "i" and not 0 <= z.a[0] < 1 << 20:
                return Act(forks=[(S.st | {"closed"}, I(0)), (S.st, I(-1))])
        if is_close(p):
            v = ev.load(0)
            if v.k == "i":
                self.starts.setdefault(ev.body.p, set()).add(v.a[0])
            return None
        if l == "into_iter" and n and ev.body.p in self.closers:
            v = ev.load(0)
            if v.k == "agg" and "Range" in str(v.a[0]) and v.a[2] and v.a[2][0].k == "i":
                self.starts.setdefault(ev.body.p, set()).add(v.a[2][0].a[0])
        if p.startswith(("std::thread::spawn", "std::thread::Builder::spawn")):
            self.bad(S, ev, "starts a thread")
        elif "crossbeam_channel" in p and l in ("send", "recv", "send_timeout", "recv_timeout", "try_send", "try_recv") or "std::sync::mpsc" in p:
            self.bad(S, ev, "uses the daemon's channels")
        elif n and ("UnixStream" in ev.argty(0).s or "UnixListener" in ev.argty(0).s) and l not in ("drop", "clone", "as_raw_fd", "as_fd"):
            self.bad(S, ev, "talks to the daemon's clients")
        elif is_kill(p) or is_waitpid(p):
            self.bad(S, ev, "signals or waits for a process")
        elif p.startswith("std::fs::") and l in ("write", "remove_file", "remove_dir", "remove_dir_all", "create_dir", "create_dir_all", "rename", "set_permissions", "copy"):
            self.bad(S, ev, "changes the daemon's files")
        elif p.startswith("std::process::Command::") and l in ("spawn", "output", "status"):
            self.bad(S, ev, "starts another process")
        return None

    def on_acquire(self, S, g, ev, trying):
        if self.inchild(S):
            self.bad(S, ev, "takes a lock, which another thread of the daemon may hold forever in the child's memory")

    def on_unwrap_fail(self, S, ev, pay):
        if self.inchild(S):
            self.rep(S, "panic", ev, "the forked child may panic and so unwind into daemon code")

    def on_diverge(self, S, ev):
        if self.inchild(S) and ev.p not in EXITS and ("panic" in ev.p or "fail" in ev.p):
            self.rep(S, "panic", ev, "the forked child may panic and so unwind into daemon code")

    def on_return(self, S, fr, v):
        if self.inchild(S) and fr.body.p in self.closers:
            self.used.add(fr.body.p)
            self.add(S, "closed")

    def on_end(self, S, v):
        if not self.inchild(S):
            return
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        self.rep(S, "runs-on", type("e", (), {"body": fr.body}), "the forked child returns into daemon code")


def run(ctx):
    ctx.rule("child of a fork -> exec or exit")
    F, G = ctx.F, ctx.G
    # putting the daemon itself into the background is no fork to run a program
    fk = {G.owner(s.body.p) for s in G.sites if is_fork_p(s.p) and (s.p not in ("libc::fork", "nix::unistd::fork") or s.body.p.startswith("libshpool::daemon::"))}
    ex = G.up({G.owner(s.body.p) for s in G.sites if is_exec(s.p)})
    roots = set()
    for f in fk:
        cand = {G.owner(p) for p in G.up({f}) & ex if p in F.bodies}
        low = {p for p in cand if not (G.reach([p]) - {p}) & cand}
        roots |= low or {f}
    # a caller that does not reach an exec by itself still must not get the child back
    for f in fk:
        for s in G.sites:
            if s.p == f and not G.reach(roots) & {G.owner(s.body.p)}:
                roots.add(G.owner(s.body.p))
    ctx.floor("functions that fork", len(roots), 1)
    r = Child(ctx, roots)
    run_parts(ctx, [r])
    for c in sorted(r.used):
        ctx.check(3 in r.starts.get(c, ()) or any(x <= 3 for x in r.starts.get(c, ())), "descriptors", c, "does not close all descriptors from 3 on", c)
    floors(ctx, [r], "forks", "programs executed", "child exits")
