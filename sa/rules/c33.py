"""C33: however the motd pager ends, its process is gone, its slot is empty and its terminal is closed."""
from .part import *
from .c10 import is_waitpid
from .c11 import is_kill, SIGNAL

EXPLAIN = ("Every function that both registers a pager's control handles and starts its process is explored from entry to every return, error returns and destructors included, with the results of all i/o left open. At every end the control slot that was filled has been emptied again, and the process either was seen to have ended (the flag its reaper thread sets) "
           "or has been sent an unconditional kill; a thread that waits for it was started before. The reaper sets the flag on all its paths and only after the wait. The loop that serves the pager never waits without bound, looks at the flag each time round and ends when the client's stream does. "
           "Nothing keeps the pager's terminal open (no leaked descriptor owner).")
ASSUME = ["unwinding paths are not followed (the same destructors run then)", "a process that was sent SIGKILL ends"]
TECH = "path-sensitive typestate over MIR (resource obligations discharged by destructors)"

CTL = "libshpool::daemon::pager::PagerCtl"
FORK = "shpool_pty::fork::Fork"
MASTER = "shpool_pty::fork::Master"
FLAG = "sync::atomic::Atomic"


def is_fork_p(p):
    return p.startswith("shpool_pty::fork::Fork::") and last_seg(p) in ("from_ptmx", "new", "from_pts", "fork") or p in ("libc::fork", "nix::unistd::fork", "libc::forkpty", "nix::pty::forkpty")


def last_seg(p):
    return p.rsplit("::", 1)[-1]


def atomic(ev, what):
    return FLAG in ev.p.replace("core::", "std::") and last(ev) in what or "AtomicBool" in ev.p and last(ev) in what


class Pager(Part):
    name = "pager-lifetime"
    K = 8

    def __init__(self, ctx, roots, reapers):
        Part.__init__(self, ctx, roots)
        self.reapers, self.flags, self.loads, self.sent, self.lens = reapers, set(), set(), set(), {}
        self.parent = next((i for i, v in enumerate(ctx.F.adts[FORK]["v"]) if v["n"] == "Parent"), 1) if FORK in ctx.F.adts else 1

    def root_tags(self, body, i):
        return ["slot"] if body.lty(i + 1).mentions(CTL) else []

    def target(self, v):
        while isinstance(v, V) and v.k in ("ref", "drf"):
            v = v.a[0]
        return v

    def on_store(self, S, root, path, v, body, span):
        r = root[1] if isinstance(root, tuple) and len(root) > 1 and root[0] == "D" else root
        if v.k == "agg" and v.a[0] == OPT and isinstance(r, V) and "slot" in origin(r):
            e = type("e", (), {"body": body})
            if v.a[1] == 1:
                self.ok("registrations", e)
                self.add(S, "slot")
            elif "slot" not in S.st:
                self.rep(S, "foreign-slot", e, "a slot that this pager did not fill is emptied")
            else:
                self.ok("deregistrations", e)
                self.drop(S, "slot")

    def on_call(self, S, ev):
        E, l, p = self.E, last(ev), ev.p
        n = len(ev.ops)
        if is_fork_p(p):
            self.ok("processes started", ev)
            if "slot" not in S.st:
                self.rep(S, "unregistered", ev, "the pager is started without its control handles being registered: resizes do not reach it")
            f = agg(FORK, self.parent, (E.fresh(S, "pid", ["pid"]), E.fresh(S, "master", ["master"])))
            return Act(forks=[(S.st | {"proc", "unreaped"}, agg(RES, 0, (f,))), (S.st, agg(RES, 1, (E.fresh(S, "nofork"),)))])
        if n and ev.argty(0).peel().d == FORK:
            if l == "is_child":
                return Act(ret=agg(RES, 1, (E.fresh(S, "noslave"),)))
            if l == "clone":
                return Act(ret=E.load(S.env, ev.args[0]))
        if l in ("forget", "leak", "into_raw_fd", "into_raw") and n and (ev.argty(0).mentions(FORK) or ev.argty(0).mentions(MASTER)) or "ManuallyDrop" in p and l == "new" and (ev.argty(0).mentions(FORK) or ev.argty(0).mentions(MASTER)):
            self.rep(S, "leak", ev, "the pager's terminal is kept open")
        if l == "load" and atomic(ev, ("load",)):
            t = self.target(ev.args[0])
            if t in self.flags:
                self.ok("looks whether it ended", ev)
                st = frozenset(x for x in S.st if x != "polled")
                if "gone" in S.st:
                    S.st = st
                    return Act(ret=B(1))
                return Act(forks=[(st - {"proc"} | {"gone"}, B(1)), (st, B(0))])
            return None
        if is_kill(p):
            pid, s = ev.load(0), self.sig(ev.load(1))
            if s == "probe":
                return None
            self.ok("signals", ev)
            if "pid" not in E.deep_tags(S.env, ev.args[0]):
                self.rep(S, "wrong-process", ev, "a signal is sent to something else than the pager's process")
            if "gone" in S.st:
                self.rep(S, "dead-signalled", ev, "a signal is sent to a process that is known to have ended")
            ok, no = S.st, S.st - {"proc"}
            if s == "SIGKILL":
                ok = ok - {"proc"}
            if p.startswith("libc"):
                return Act(forks=[(ok, I(0)), (no, I(-1))])
            return Act(forks=[(ok, agg(RES, 0, (UNIT,))), (no, agg(RES, 1, (E.fresh(S, "nosuch"),)))])
        if l == "join" and "JoinHandle" in p and "proc" in S.st:
            self.rep(S, "endless-wait", ev, "waits for a thread while the pager may be running")
        if is_waitpid(p) and "proc" in S.st:
            self.rep(S, "endless-wait", ev, "waits for the pager's end on the session's own thread")
        if "poll" in l and p in ("nix::poll::poll", "libc::poll", "nix::poll::ppoll", "libc::ppoll"):
            self.ok("waits of the serving loop", ev)
            t = ev.load(n - 1) if n < 3 else ev.load(2)
            if "PollTimeout" in str(t) and t.k == "agg" and t.a[2]:
                t = t.a[2][0]
            if t.k == "i" and t.a[0] < 0 or "NONE" in str(t) or t.k == "agg" and t.a[0] == OPT and t.a[1] == 0:
                self.rep(S, "endless-wait", ev, "the pager is served by a wait without bound")
            if "slot" not in S.st:
                self.rep(S, "unregistered", ev, "the pager is served without its control handles being registered: resizes do not reach it")
            if "polled" in S.st:
                self.rep(S, "end-missed", ev, "goes round again without looking whether the pager ended")
            if "eof" in S.st:
                self.rep(S, "hangup-missed", ev, "goes on although the client's stream has ended")
            if "len" in S.st:
                self.rep(S, "hangup-missed", ev, "goes on without looking whether the client's stream has ended")
            self.drop(S, "eof", "len")
            if "proc" in S.st:
                self.add(S, "polled")
            return None
        if l in ("read", "recv") and n and "UnixStream" in ev.argty(0).s and ev.dest and ev.destty().s.replace("std::result::", "").startswith("Result<usize"):
            self.ok("client reads", ev)
            x = E.fresh(S, "len")
            self.lens[x] = 1
            st = S.st - {"eof"}
            return Act(forks=[(st | {"len"}, agg(RES, 0, (x,))), (st - {"len"}, agg(RES, 1, (E.fresh(S, "noread"),)))])
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val) or [(v, val)]:
            if a in self.lens:
                self.drop(S, "len", "eof")
                if x == 0 and not isinstance(x, tuple):
                    self.add(S, "eof")
            elif a.k == "op" and any(y in self.lens for y in a.a[1:]):
                y = [z for z in a.a[1:]]
                self.drop(S, "len", "eof")
                one = I(1) in y
                zero = I(0) in y
                if a.a[0] == "Eq" and zero and x == 1 or a.a[0] == "Ne" and zero and x == 0 or a.a[0] == "Gt" and zero and a.a[2] == I(0) and x == 0 or a.a[0] == "Lt" and one and a.a[2] == I(1) and x == 1:
                    self.add(S, "eof")

    def sig(self, v):
        if v.k == "agg" and v.a[0] == OPT:
            if v.a[1] == 0:
                return "probe"
            v = v.a[2][0]
        if v.k == "agg" and v.a[0] == SIGNAL:
            ad = self.E.F.adts.get(SIGNAL)
            return ad["v"][v.a[1]]["n"] if ad else str(v.a[1])
        if v.k == "i":
            return {0: "probe", 9: "SIGKILL"}.get(v.a[0], "other")
        return "SIGKILL" if "SIGKILL" in str(v) else "other"

    def on_spawn(self, S, ev, clo):
        if clo.k == "clo" and clo.a[0] in self.reapers:
            self.ok("reapers started", ev)
            self.drop(S, "unreaped")
            self.flags |= {self.target(c) for c in clo.a[1]}
        return None

    def on_end(self, S, v):
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        e = type("e", (), {"body": fr.body})
        self.ok("ends", e)
        if "slot" in S.st:
            self.rep(S, "slot-left", e, "the pager's control handles are left registered after it ended: resizes no longer reach the shell")
        if "proc" in S.st:
            self.rep(S, "process-left", e, "the pager's process may still be running")
        if "unreaped" in S.st:
            self.rep(S, "never-reaped", e, "nobody waits for the pager's process")


class Reaper(Part):
    """the thread that waits for the pager: the flag is set after the wait, on every path"""
    name = "pager-reaper"
    K = 4

    def on_call(self, S, ev):
        if is_waitpid(ev.p):
            self.ok("waits", ev)
            self.add(S, "waited")
            r = self.result(S, "status", RES)
            return Act(ret=r)
        if atomic(ev, ("store", "swap", "fetch_or")):
            v = ev.load(1)
            if v.k == "b" and v.a[0] or v.k == "i" and v.a[0]:
                self.ok("ends announced", ev)
                if "waited" not in S.st:
                    self.rep(S, "early", ev, "the process is declared ended before it was waited for")
                self.add(S, "told")
            else:
                self.rep(S, "unset", ev, "the process is declared to be running by its reaper")
        return None

    def on_end(self, S, v):
        if "told" not in S.st:
            fr = S.frame
            while fr.parent is not None:
                fr = fr.parent
            self.rep(S, "untold", type("e", (), {"body": fr.body}), "the pager's end is never announced")


def run(ctx):
    ctx.rule("slot filled -> emptied; process started -> seen ended or killed, and reaped; at every end")
    F, G = ctx.F, ctx.G
    regs = made_in(F, G, {CTL})
    a, b = G.up(regs), G.up({s.body.p for s in G.sites if is_fork_p(s.p)})
    cand = {G.owner(p) for p in a & b if p in F.bodies}
    roots = {p for p in cand if not (G.reach([p]) - {p}) & cand}
    ctx.floor("functions that run a pager", len(roots), 1)
    waits = {p for p in G.up({s.body.p for s in G.sites if is_waitpid(s.p)})}
    below = G.reach(roots)
    reapers = {p for p in below & waits if F.bodies[p].kind == "closure"} if roots else set()
    spawned = {p for p in reapers}
    parts = [Pager(ctx, roots, spawned), Reaper(ctx, {p for p in spawned if not any(q != p and p.startswith(q + "::") for q in spawned)})]
    run_parts(ctx, parts)
    floors(ctx, parts, "registrations", "deregistrations", "processes started", "reapers started", "looks whether it ended", "signals", "waits of the serving loop", "client reads", "ends", "waits", "ends announced")
