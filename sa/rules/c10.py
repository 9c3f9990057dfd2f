"""C10: the shell's exit status reaches the attached user's process."""
from .part import *

EXPLAIN = ("The exit status is followed through every thread that carries it. Watcher: on every path, after the shell has been reaped and not before, its end is recorded exactly once "
           "with the exit code taken from the wait status (1 when there is none), and every started session has a watcher. Notifier: recording stores the status and wakes all waiters; "
           "a waiter looks before it sleeps and never reports 'running' without looking. Supervisor and stream loop: the end is reported exactly when the notifier said so. Relay: after "
           "being told of the exit, and at the terminal's hangup, every orderly end with a client attached has written that status as an exit frame before the connection was shut. "
           "Client: the status read from the frame is the one the process exits with.")
ASSUME = ["unwinding paths are not followed", "failed i/o on the client connection excuses the rest of the exchange"]

NOTIFIER = "libshpool::daemon::exit_notify::ExitNotifier"
MSG = "libshpool::daemon::shell::ClientConnectionMsg"
KIND = "shpool_protocol::ChunkKind"
CHUNK = "shpool_protocol::Chunk"
PIPE = "libshpool::protocol::PipeBytesResult"
ONE = I(1)


def variant(F, adt, name):
    for i, v in enumerate(F.adts[adt]["v"]):
        if v["n"] == name:
            return i
    return None


def dval(F, adt, name):
    for v in F.adts[adt]["v"]:
        if v["n"] == name:
            return int(v["d"])
    return None


def is_notify(F, p):
    b = F.bodies.get(p)
    return b is not None and p.startswith(NOTIFIER + "::") and any(b.lty(i).s == "i32" for i in range(1, b.argc + 1))


def is_waiter(F, p):
    b = F.bodies.get(p)
    return b is not None and p.startswith(NOTIFIER + "::") and b.lty(0).s.replace("std::option::", "") == "Option<i32>"


def is_waitpid(p):
    return p in ("libc::waitpid", "nix::sys::wait::waitpid", "libc::wait4", "libc::waitid") or p.endswith("::wait_for_exit")


class Watcher(Part):
    name = "child-watcher"

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l = ev.p, last(ev)
        if is_notify(F, p):
            self.ok("recordings", ev)
            v = ev.load(1)
            if "reaped" not in S.st:
                self.rep(S, "recorded-before-reaped", ev, "the shell's end is recorded before the shell was reaped")
            if "told" in S.st:
                self.rep(S, "recorded-twice", ev, "the shell's end is recorded twice")
            if "exited" in S.st and not v.tags & {"code"} and not (v.k == "S" and "code" in v.tags):
                self.rep(S, "wrong-status", ev, "the status recorded is not the exit code of a shell that exited")
            if "exited" not in S.st and v != ONE:
                self.rep(S, "wrong-status", ev, "a shell without an exit code is not recorded as 1")
            self.add(S, "told")
            return Act(ret=UNIT)
        if is_waitpid(p):
            fl = ev.load(2) if len(ev.ops) > 2 else None
            if fl is not None and not (fl.k == "i" and fl.a[0] & ~1 == 0):
                self.rep(S, "not-an-end", ev, "stops or continuations of the shell are taken for its end")
            self.ok("waits", ev)
            if len(ev.args) > 1 and ev.args[1].k == "ref":
                E.write(S.env, ev.args[1].a[0], ev.args[1].a[1], E.fresh(S, "status"))
            r = E.fresh(S, "pid")
            self.pid = r
            self.drop(S, "reaped", "exited")
            return Act(ret=r)
        if l in ("WIFEXITED", "WIFSIGNALED", "WIFSTOPPED", "WIFCONTINUED"):
            r = E.fresh(S, l)
            self.tests = getattr(self, "tests", {})
            self.tests[r] = l
            return Act(ret=r)
        if l == "WEXITSTATUS":
            return Act(ret=E.fresh(S, "code", ["code"]))
        return None

    def on_branch(self, S, v, val):
        if v == getattr(self, "pid", None):
            if val == 0 or isinstance(val, tuple) and 0 not in val[1]:
                return
            # -1 (nobody to wait for) or a pid: the shell is gone
            self.add(S, "reaped")
        for a, x in both(v, val):
            if a.k == "op" and a.a[1] == getattr(self, "pid", None) and a.a[2].k == "i":
                c, op = a.a[2].a[0], a.a[0]
                if op in ("Ne", "Eq") and (op == "Ne") == (x == 0) and c != 0 or op in ("Gt", "Lt") and x == 1 or op in ("Ge", "Le") and c == 0 and x == 0 or op in ("Eq", "Ne") and c == 0 and (op == "Eq") == (x == 0):
                    self.add(S, "reaped")
            t = getattr(self, "tests", {}).get(a)
            if t == "WIFEXITED" and x == 1:
                self.add(S, "exited")
            elif t in ("WIFSTOPPED", "WIFCONTINUED") and x == 1:
                self.drop(S, "reaped")

    def on_end(self, S, v):
        if "told" not in S.st:
            self.rep(S, "end-not-recorded", None, "the watcher of a shell ends without recording the shell's end")

    def on_diverge(self, S, ev):
        if "told" not in S.st and not ev.p.endswith("::exit"):
            self.rep(S, "end-not-recorded", ev, "the watcher of a shell panics without recording the shell's end")


class Starter(Part):
    """every session handed out has a watcher"""
    name = "session-start"
    scope = ()

    def on_spawn(self, S, ev, clo):
        if clo is not None and clo.k == "clo" and clo.a[0] in self.watchers:
            self.add(S, "watched")
        return None

    def on_call(self, S, ev):
        if last(ev) in ("spawn", "spawn_unchecked") and "thread" in ev.p:
            for i in range(len(ev.ops)):
                if ev.argty(i).peel().d in self.watchers:
                    self.add(S, "watched")
                    self.ok("watchers", ev)
        return None

    def on_return(self, S, fr, v):
        if fr.parent is None and v.k == "agg" and v.a[1] == 0 and fr.body.lty(0).mentions(SESSION) and "watched" not in S.st:
            self.rep(S, "unwatched", None, "a session is handed out without anybody waiting for its shell", " " + fr.body.p)


class Notifier(Part):
    name = "exit-notifier"

    def on_call(self, S, ev):
        p, l = ev.p, last(ev)
        if "Condvar" in p:
            if l == "notify_all":
                self.add(S, "woken")
            elif l == "notify_one":
                self.rep(S, "one-waiter", ev, "only one of the threads waiting for the shell's end is woken")
            elif l.startswith("wait"):
                if "looked" not in S.st:
                    self.rep(S, "sleeps-first", ev, "a waiter goes to sleep without having looked whether the shell has already ended")
                self.add(S, "slept")
                # what the slot holds may have changed
                for a in ev.args:
                    g = self.E.load(S.env, a)
                    if g.k == "guard":
                        r, q = (g.a[3], g.a[4])
                        self.E.write(S.env, r, q, self.E.fresh(S, "slot"))
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and S.env.held and self.E.discr_n.get(a, (None,))[0] == OPT and a.a[0] not in self.params(S):
                self.add(S, "looked")

    def params(self, S):
        return [self.E.read(S.env, ("L", S.frame.fid, i), ()) for i in range(1, S.frame.body.argc + 1)]

    def on_store(self, S, root, path, v, body, span):
        if v.k == "agg" and v.a[0] == OPT and self.setter(body):
            if v.a[1] == 1 and v.a[2] and v.a[2][0].k in ("S", "drf") and S.env.held:
                self.add(S, "set")
            self.drop(S, "woken")

    def setter(self, body):
        return any(body.lty(i).s == "i32" for i in range(1, body.argc + 1))

    def on_return(self, S, fr, v):
        if fr.parent is not None:
            return
        if self.setter(fr.body):
            if "set" not in S.st:
                self.rep(S, "status-lost", None, "the status is not stored under the lock", " " + fr.body.p)
            if "woken" not in S.st:
                self.rep(S, "nobody-woken", None, "the threads waiting for the shell's end are not woken after it was recorded", " " + fr.body.p)
            self.seen.add(("notifications", fr.body.p))
        elif v.k == "agg" and v.a[1] == 0 and "looked" not in S.st or v == NONE and "slept" in S.st:
            self.rep(S, "status-ignored", None, "a waiter reports the shell as running without looking at what was recorded", " " + fr.body.p)
        else:
            self.seen.add(("lookups", fr.body.p))


class Supervisor(Part):
    """threads that turn the notifier's answer into a flag"""
    name = "supervisor"

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        if is_waiter(F, ev.p):
            r = self.result(S, "ended", OPT)
            self.w = getattr(self, "w", set())
            self.w.add(mk("discr", r))
            self.drop(S, "ended")
            return Act(ret=r)
        if last(ev) in ("store", "swap") and "Atomic" in ev.p and ev.ops and ("Bool" in ev.p or "bool" in ev.p or ev.ta and ev.ta[0].s == "bool"):
            self.ok("flag stores", ev)
            v = ev.load(1)
            if "ended" not in S.st and v != I(0):
                self.rep(S, "false-end", ev, "the shell is reported as ended although the notifier did not say so")
            if v == ONE:
                self.drop(S, "ended")
                self.add(S, "flagged")
        return None

    def on_branch(self, S, v, val):
        if v in getattr(self, "w", ()) and val == 1 and "flagged" not in S.st:
            self.add(S, "ended")

    def on_end(self, S, v):
        if "ended" in S.st:
            self.rep(S, "end-unreported", None, "the supervisor learns of the shell's end and does not report it")


class Stream(Part):
    """the stream loop: which message the relay gets and what the caller is told"""
    name = "stream-loop"
    K = 4
    scope = ()

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.loads, self.waits = set(), {}

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self._roots

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        if is_waiter(F, ev.p):
            r = self.result(S, "status", OPT, ["status"])
            self.waits[mk("discr", r)] = r
            self.drop(S, "none")
            return Act(ret=r)
        if last(ev) == "load" and "Atomic" in ev.p:
            r = E.fresh(S, "flag")
            self.loads.add(r)
            return Act(ret=r)
        if last(ev).startswith("send") and "crossbeam_channel" in ev.p and ev.ta and MSG in [t.d for t in ev.ta]:
            self.ok("messages to the relay", ev)
            m = ev.load(1)
            if m.k == "agg":
                n = F.adts[MSG]["v"][m.a[1] or 0]["n"]
                if n == "DisconnectExit":
                    x = m.a[2][0]
                    if "ended" not in S.st:
                        self.rep(S, "false-end", ev, "the relay is told of an exit although the shell has not ended")
                    if not self.status(S, x):
                        self.rep(S, "wrong-status", ev, "the status the relay is told is not the one that was recorded")
                elif n == "Disconnect" and "ended" in S.st:
                    self.rep(S, "status-lost", ev, "the shell has ended and the relay is not told its exit status")
        return None

    def status(self, S, x):
        if x.k == "op":
            return x.a[0] == "unwrap_or" and x.a[1] in self.waits.values() and x.a[2] == ONE
        return x.tags and "status" in origin(x) or x == ONE and "none" in S.st

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a in self.waits and x == 0:
                self.add(S, "none")
            if a in self.loads:
                self.drop(S, "ended", "running")
                self.add(S, "ended" if x else "running")

    def on_return(self, S, fr, v):
        if fr.parent is not None or not (v.k == "agg" and v.a[1] == 0 and v.a[2]) or fr.body.lty(0).args[:1] and fr.body.lty(0).args[0].s != "bool":
            return
        x = v.a[2][0]
        if x in self.loads or x.k == "i" and ("ended" if x.a[0] else "running") in S.st:
            self.seen.add(("reported ends", fr.body.p))
        else:
            self.rep(S, "false-end", None, "what is reported about the shell's end is not what the supervisor said", " " + fr.body.p)


class Relay(Part):
    """the shell->client thread"""
    name = "relay"
    K = 4

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.msgs, self.waits, self.chans, self.ios = {}, {}, set(), {}
        self.new, self.exit = dval(ctx.F, MSG, "New"), dval(ctx.F, MSG, "DisconnectExit")

    def opaque(self, body):
        return not (body.p.startswith("libshpool::daemon::shell::") or CHUNK in body.p or "ChunkExt" in body.p) or "test_hooks" in body.p

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l, n = ev.p, last(ev), len(ev.ops)
        if is_waiter(F, p):
            r = self.result(S, "status", OPT, ["status"])
            self.waits[mk("discr", r)] = r
            self.drop(S, "sent", "noend")
            return Act(ret=r)
        if l in ("to_le_bytes", "to_be_bytes", "to_ne_bytes") and n == 1:
            v = ev.load(0)
            return Act(ret=E.fresh(S, "bytes", ["bytes", "status" if v.k != "i" and "status" in origin(v) else "zero" if v == I(0) else "other", l]))
        if l in ("recv", "try_recv") and "crossbeam_channel" in p:
            r = self.result(S, ("got", ev.span[0]), RES, ["status"])
            self.chans.add(mk("discr", r))
            self.drop(S, "noatt", "gone", "newmsg")
            if any(MSG == t.d for i in range(n) for t in [ev.argty(i).peel()] + list(ev.argty(i).peel().args)):
                self.msgs[mk("discr", E.get(mk("dc", r, 0), ("f", 0, "0")))] = E.get(mk("dc", r, 0), ("f", 0, "0"))
            return Act(ret=r)
        if l == "write_to" and ("ChunkExt" in ev.q or CHUNK in p) and n:
            c = E.load(S.env, ev.args[0])
            if c.k != "agg":
                return None
            fs = [f[0] for f in F.adts[CHUNK]["v"][0]["f"]]
            kind, buf = c.a[2][fs.index("kind")], c.a[2][fs.index("buf")]
            if kind.k == "agg" and F.adts[KIND]["v"][kind.a[1] or 0]["n"] == "ExitStatus" or kind.k == "i" and kind.a[0] == dval(F, KIND, "ExitStatus"):
                self.ok("exit frames", ev)
                t = origin(E.load(S.env, buf)) | origin(buf)
                if "to_le_bytes" not in t:
                    self.rep(S, "exit-frame-layout", ev, "an exit frame does not carry the little endian status")
                elif "status" in t:
                    self.add(S, "sent")
                elif not ("zero" in t and "newmsg" in S.st):
                    self.rep(S, "wrong-status", ev, "the exit frame does not carry the shell's own exit status")
            r = self.result(S, "io")
            self.ios[mk("discr", r)] = r
            return Act(ret=r)
        if l in ("poll", "ppoll", "select"):
            self.drop(S, "noatt")
        if l == "shutdown" and "UnixStream" in p:
            if "told" in S.st and "newmsg" not in S.st and "sent" not in S.st:
                self.rep(S, "closed-first", ev, "the connection is shut before the exit status was sent")
        if l.startswith("send") and "crossbeam_channel" in p:
            r = self.result(S, "ack")
            self.ios[mk("discr", r)] = r
            return Act(ret=r)
        return None

    def on_branch(self, S, v, val):
        E = self.E
        if v in self.msgs and val == self.exit:
            self.drop(S, "sent")
            self.add(S, "told")
            self.seen.add(("exit notices", self.ctx.G.owner(S.frame.body.p)))
        elif v in self.msgs:
            self.add(S, "newmsg")
        elif v in self.chans and val == 1:
            self.add(S, "gone")
        elif v in self.waits:
            if val == 0:
                self.add(S, "noend")
        elif v.k == "discr" and E.discr_n.get(v, (None,))[0] == MSG:
            self.client(S, val == self.new)

    def on_discr(self, S, v, ty, n):
        if ty.d == MSG:
            self.client(S, n == self.new)

    def client(self, S, there):
        # partially moved connections are looked at again when they are dropped, so this is sticky until the next wait
        if not there:
            self.add(S, "noatt")

    def on_end(self, S, v):
        if v.k == "agg" and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            return
        if "gone" in S.st or "sent" in S.st or "noatt" in S.st or "noend" in S.st:
            self.seen.add(("orderly ends", "relay"))
            return
        self.rep(S, "status-not-sent", None, "the relay ends although a client may be attached and was not sent the shell's exit status")


class Reader(Part):
    """the attach command's side"""
    name = "attach-client"
    K = 4
    scope = ()

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)

    def opaque(self, body):
        return body.p not in self._roots and self.ctx.G.owner(body.p) not in {self.ctx.G.owner(r) for r in self._roots}

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l = ev.p, last(ev)
        if l == "read_into" and "ChunkExt" in ev.q:
            if "frame" in S.st:
                self.rep(S, "status-dropped", ev, "an exit frame is read and its status not kept")
            self.drop(S, "frame")
            self.ok("frame reads", ev)
            return Act(ret=self.result(S, "chunk"))
        if l in ("read_i32", "from_le_bytes", "from_be_bytes", "from_ne_bytes", "read_i32_into"):
            le = l == "from_le_bytes" or any("LittleEndian" in t.s for t in ev.ta)
            if not le:
                self.rep(S, "endianness", ev, "the exit status is not read in the byte order it is written in")
            r = E.fresh(S, "stat", ["stat"])
            if not l.startswith("from"):
                E.discr_n.setdefault(mk("discr", r), (RES, (0, 1)))
            return Act(ret=r)
        return None

    def on_branch(self, S, v, val):
        n = self.E.discr_n.get(v, (None,))[0] if v.k == "discr" else None
        if n == KIND and val == dval(self.E.F, KIND, "ExitStatus"):
            self.add(S, "frame")
        for a, x in both(v, val):
            if a.k == "discr" and self.E.discr_n.get(a, (None,))[0] == OPT and S.env.held and isinstance(x, int):
                self.add(S, "empty" if x == 0 else "full")

    def on_release(self, S, g, *a):
        self.drop(S, "empty", "full")

    def on_store(self, S, root, path, v, body, span):
        if v.k == "agg" and v.a[0] == OPT and v.a[1] == 1 and v.a[2] and v.a[2][0].k == "agg" and v.a[2][0].a[0] == PIPE:
            r = v.a[2][0]
            if self.E.F.adts[PIPE]["v"][r.a[1] or 0]["n"] == "Exit":
                x = r.a[2][0]
                if "stat" in origin(x) and x.k != "op":
                    self.drop(S, "frame")
                    self.seen.add(("statuses kept", self.ctx.G.owner(body.p)))
                elif "empty" not in S.st:
                    self.E.report(S, "status-overwritten", self.ctx.G.owner(body.p), "a made up exit status may replace the one the daemon sent")
                elif "frame" in S.st:
                    self.E.report(S, "wrong-status", self.ctx.G.owner(body.p), "the status kept is not the one read from the exit frame")

    def on_end(self, S, v):
        if "frame" in S.st and not (v.k == "agg" and v.a[1] == 1) and self.E.known(S.env, mk("discr", v)) != 1:
            self.rep(S, "status-dropped", None, "an exit frame is read and its status not kept")


class Exit(Part):
    """the attach command's own end"""
    name = "attach-exit"
    K = 4

    def __init__(self, ctx, roots, pipes):
        Part.__init__(self, ctx, roots)
        self.pipes, self.res = pipes, {}

    def opaque(self, body):
        return not body.p.startswith(self.mod) or body.p in self.pipes

    def on_call(self, S, ev):
        E = self.E
        if ev.p in self.pipes:
            self.ok("streaming calls", ev)
            r = self.result(S, "streamed")
            self.res[mk("discr", E.get(mk("dc", r, 0), ("f", 0, "0")))] = E.get(mk("dc", r, 0), ("f", 0, "0"))
            return Act(ret=r)
        if ev.p in ("std::process::exit", "libc::_exit", "libc::exit") and "ended" in S.st:
            self.ok("exits", ev)
            want = {E.get(mk("dc", r, variant(E.F, PIPE, "Exit")), ("f", 0, "0")) for r in self.res.values()}
            if ev.load(0) not in want:
                self.rep(S, "wrong-status", ev, "the attach command does not exit with the shell's exit status")
            self.drop(S, "ended")
        return None

    def on_branch(self, S, v, val):
        if v in self.res and val == dval(self.E.F, PIPE, "Exit"):
            self.add(S, "ended")

    def on_end(self, S, v):
        if "ended" in S.st:
            self.rep(S, "status-ignored", None, "the attach command carries on or succeeds although the shell ended with a status of its own")


def run(ctx):
    ctx.rule("exit status: wait status -> notifier -> supervisor -> stream loop -> relay -> exit frame -> client -> process exit")
    F, G = ctx.F, ctx.G
    meth = [p for p in F.bodies if p.startswith(NOTIFIER + "::") and F.bodies[p].kind != "closure" and "promoted" not in p]
    notify = {p for p in meth if is_notify(F, p)}
    waiters = {p for p in meth if is_waiter(F, p)}
    up_notify = G.up(notify)
    spawned = set()
    for s in G.sites:
        if last(s).startswith("spawn") and "thread" in s.p and "test_hooks" not in s.body.p:
            for i in range(len(s.t[2])):
                if s.argty(i).peel().k == "closure" and s.argty(i).peel().d in F.bodies:
                    spawned.add(s.argty(i).peel().d)
    cand = {c for c in spawned if c in up_notify}
    watchers = {c for c in cand if not (G.reach([c]) - {c}) & cand}
    flags = {s.body.p for s in G.sites if last(s) in ("store", "swap") and "Atomic" in s.p} & G.calling(lambda s: s.p in waiters)
    flags = {p for p in flags if p in spawned}
    msgs = [s for s in G.sites if "crossbeam_channel" in s.p and last(s).startswith("send") and s.ta and any(t.d == MSG for t in s.ta)]
    streams = {G.owner(s.body.p) for s in msgs} & {G.owner(p) for p in G.calling(lambda s: last(s) == "load" and "Atomic" in s.p)}
    relays = {s.body.p for s in G.sites if "crossbeam_channel" in s.p and last(s) in ("recv", "try_recv") and any(t.d == MSG for i in range(len(s.t[2])) for t in [s.argty(i).peel()] + list(s.argty(i).peel().args))}
    reads = {s.body.p for s in G.sites if last(s) == "read_into" and "ChunkExt" in s.q}
    pipes = {G.owner(p) for p in reads}
    others = set()
    for b in F.bodies.values():
        if G.owner(b.p) in pipes and b.p not in reads and any(st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == PIPE for bb in b.blocks for st in bb["s"]):
            others.add(b.p)
    callers = {G.owner(s.body.p) for s in G.sites if s.p in pipes}
    parts = [Watcher(ctx, watchers), Starter(ctx, {p for p in made_in(F, G, {SESSION})}), Notifier(ctx, notify | waiters), Supervisor(ctx, flags), Stream(ctx, streams), Relay(ctx, relays),
             Reader(ctx, reads | others), Exit(ctx, callers, pipes)]
    parts[1].watchers = watchers
    parts[7].mod = tuple(sorted({c.rsplit("::", 2)[0] for c in callers}))
    run_parts(ctx, parts)
    floors(ctx, parts, "recordings", "waits", "watchers", "notifications", "lookups", "flag stores", "messages to the relay", "reported ends", "exit notices", "exit frames", "orderly ends", "frame reads",
           "statuses kept", "streaming calls", "exits")
