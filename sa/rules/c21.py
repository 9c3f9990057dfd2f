"""C21: the user's terminal settings are restored however attach ends."""
from .part import *
from .c08 import Threads
from .c16 import wire_fns

EXPLAIN = ("The program is explored from main through everything that touches the terminal's settings, dials the daemon or ends the process, destructors included, with all other results open. From the moment settings are changed, the original ones (read from the same terminal while it was untouched, and "
           "unmodified) are owned by a value whose destructor puts them back, so that a return, an error or a panic restores them; no path reaches a process exit, an exec, the end of main or another session's dialling while the terminal is changed; and no thread of the attach command can end the process behind the back of that value's owner.")
ASSUME = ["an unwinding thread runs the destructors of what its frames own", "death by an unhandled signal is outside the property", "a failed attempt to restore the settings cannot be repaired"]

HDR = "shpool_protocol::AttachHeader"
EXITS = ("std::process::exit", "std::process::abort", "std::intrinsics::abort", "libc::_exit", "libc::exit", "libc::abort", "nix::unistd::_exit")
CALM = ("std::ops::", "std::convert::", "core::ops::", "anyhow::", "tracing", "std::fmt::", "core::fmt::", "std::clone::", "std::io::Error", "std::mem::drop", "log::")


def is_exit(p):
    return p in EXITS or p.endswith("process::CommandExt>::exec") or p.endswith("CommandExt::exec") or p.startswith(("libc::exec", "nix::unistd::exec", "nix::unistd::fexec"))


def is_set(p):
    return p in ("nix::sys::termios::tcsetattr", "libc::tcsetattr")


def is_get(p):
    return p in ("nix::sys::termios::tcgetattr", "libc::tcgetattr")


def holds(v, adts, d=7):
    """does a value own a restorer that has the original settings?"""
    if not isinstance(v, V) or d == 0 or v.k == "ref":
        return False
    if v.k == "agg" and v.a[0] in adts and "orig" in v.tags:
        return True
    return any(holds(y, adts, d - 1) for x in v.a for y in flat(x) if isinstance(y, V))


class Tty(Part):
    name = "terminal-settings"
    K = 6

    def __init__(self, ctx, roots, follow, restorers, enc):
        Part.__init__(self, ctx, roots)
        self.follow, self.restorers, self.enc = follow, restorers, enc
        self.dials = ctx.G.calling(lambda s: "UnixStream" in s.p and s.p.endswith("::connect"))
        self.dials = {p for p in ctx.F.bodies if p not in follow and ctx.G.reach({p}) & self.dials}

    def opaque(self, body):
        return not (body.p in self.follow or body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def keep(self, st):
        return [f[i] for f in st if isinstance(f, tuple) for i in (1, 2) if len(f) > i]

    def rename(self, st, sub):
        return frozenset((f[0],) + tuple(sub(x) for x in f[1:]) if isinstance(f, tuple) else f for f in st)

    def pins(self, v):
        return holds(v, self.restorers)

    def raw(self, S):
        return next((f for f in S.st if isinstance(f, tuple) and f[0] == "raw"), None)

    def fd(self, S, v):
        E = self.E
        for _ in range(6):
            w = E.load(S.env, v)
            if w.k == "drf":
                w = w.a[0]
            if w == v:
                break
            v = w
        return v

    def val(self, S, v):
        return self.fd(S, v)

    def on_call(self, S, ev):
        E, l, n, p = self.E, last(ev), len(ev.ops), ev.p
        if l in ("borrow_raw", "from_raw_fd") and n == 1:
            return Act(ret=self.fd(S, ev.args[0]))
        if l in ("as_fd", "as_raw_fd") and n == 1 and "Std" in ev.argty(0).s:
            t = ev.argty(0).s
            return Act(ret=I(0 if "Stdin" in t else 1 if "Stdout" in t else 2))
        if l in ("as_fd", "as_raw_fd") and n == 1 and "BorrowedFd" in ev.argty(0).s:
            return Act(ret=self.fd(S, ev.args[0]))
        if l == "clone" and n == 1 and "Termios" in ev.argty(0).s:
            return Act(ret=self.val(S, ev.args[0]))
        if is_get(p):
            self.ok("settings read", ev)
            fd = self.fd(S, ev.args[0])
            if self.raw(S):
                x = E.fresh(S, "changed-settings")
                return Act(forks=[(S.st, agg(RES, 0, (x,))), (S.st, agg(RES, 1, (E.fresh(S, "noget"),)))])
            x = E.fresh(S, "settings", ["orig"])
            st = frozenset(f for f in S.st if not (isinstance(f, tuple) and f[0] == "orig")) | {("orig", x, fd)}
            return Act(forks=[(st, agg(RES, 0, (x,))), (S.st, agg(RES, 1, (E.fresh(S, "noget"),)))])
        if is_set(p):
            fd, v = self.fd(S, ev.args[0]), self.val(S, ev.args[2] if n > 2 else ev.args[-1])
            r = self.raw(S)
            o = next((f for f in S.st if isinstance(f, tuple) and f[0] == "orig"), None)
            if r is not None:
                if r[1] == fd and v.k == "S" and (r[2] == v or "orig" in v.a[1] or "orig" in origin(v)):
                    self.ok("settings restored", ev)
                    self.drop(S, "raw", "orig")
                elif v.k in ("fld", "vf", "dc", "drf") and "orig" in origin(v) and r[1] == fd:
                    self.ok("settings restored", ev)
                    self.drop(S, "raw", "orig")
                elif "dropping" in S.st or r[1] != fd:
                    self.rep(S, "not-original", ev, "settings that are not the original ones of this terminal are put back")
                return Act(ret=self.result(S, "set"))
            if o is not None and v == o[1]:
                return Act(ret=self.result(S, "set"))
            self.ok("settings changed", ev)
            if o is None or o[2] != fd:
                self.rep(S, "not-saved", ev, "the terminal's settings are changed without the original ones having been read")
                return Act(ret=self.result(S, "set"))
            return Act(forks=[(S.st | {("raw", fd, o[1])}, agg(RES, 0, (UNIT,))), (S.st, agg(RES, 1, (E.fresh(S, "notset"),)))])
        if not self.raw(S):
            if is_exit(p):
                self.ok("process exits", ev)
                return Act(end=True) if p in EXITS else None
            if p in self.dials or "UnixStream" in p and l == "connect":
                self.ok("dials", ev)
            return None
        if is_exit(p):
            self.rep(S, "exit", ev, "the process ends (or is replaced) while the terminal's settings are changed")
            return Act(end=True) if p in EXITS else None
        if l in ("forget", "leak") and n or l == "new" and "ManuallyDrop" in p:
            if any(holds(E.load(S.env, a), self.restorers) for a in ev.args) or n and any(ev.argty(0).mentions(x) for x in self.restorers):
                self.rep(S, "leaked", ev, "what would put the settings back is leaked")
        if p in self.dials or "UnixStream" in p and l == "connect":
            self.rep(S, "redial", ev, "a session is dialled while the terminal's settings are still changed")
        if p in E.F.bodies and p not in self.follow and E.F.bodies[p].p.startswith("libshpool::tty::"):
            return None
        if not any(x in p or p.startswith("<" + x) for x in CALM) and "Try>" not in p and "FromResidual" not in p and "Context" not in p:
            if not self.owned(S):
                self.rep(S, "unguarded", ev, "nothing puts the settings back should %s panic" % p.rsplit("::", 1)[-1])
            self.ok("calls under a guard", ev)
        return None

    def owned(self, S):
        return any(holds(v, self.restorers) for v in S.env.mem.values()) or "dropping" in S.st

    def on_drop(self, S, v, ty, root, path):
        if self.raw(S) and ty is not None and any(ty.mentions(x) for x in self.restorers):
            self.add(S, "dropping")

    def on_spawn(self, S, ev, clo):
        return None

    def on_return(self, S, frame, v):
        if self.raw(S) is None:
            self.drop(S, "dropping")
        elif frame.parent is not None and frame.body.kind != "closure":
            if not holds(v, self.restorers) and not self.owned(S):
                self.rep(S, "unguarded", type("e", (), {"body": frame.body}), "the terminal's settings are changed, and nothing that would put them back is returned")

    def on_end(self, S, v):
        self.ok("ends", type("e", (), {"body": S.frame.body}))
        if self.raw(S):
            self.rep(S, "end", None, "the program ends while the terminal's settings are changed")


def run(ctx):
    ctx.rule("settings changed -> owned by a restoring destructor -> restored, before every way out")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    daemon = lambda p: p.startswith(("libshpool::daemon::", "libshpool::<daemon::")) or "daemonize" in p
    sets = {b for b in G.calling(lambda s: is_set(s.p)) if not daemon(b)}
    gets = G.calling(lambda s: is_get(s.p))
    # destructors that set terminal settings
    up = G.up(sets)
    restorers = {k for k, a in F.adts.items() if a.get("local") and a.get("dtor") in up}
    ctx.floor("destructors that put settings back", len(restorers), 1)
    main = {p for p in F.bodies if p == "shpool::main"} or {p for p in F.bodies if p == "libshpool::run"}
    exits = {s.body.p for s in G.sites if is_exit(s.p)}
    # the functions of the attach command: those that reach a change of settings from main, and what ends the process below them
    reach = reach_until(G, main, daemon)
    inner = {p for p in up & reach if not daemon(p)}
    top = G.up(sets | exits | {s.body.p for s in G.sites if s.p in enc and any(t.peel().d in (HDR,) for t in s.ta)})
    follow = {p for p in top & reach if not daemon(p)} - enc
    follow |= {F.adts[k]["dtor"] for k in restorers}
    follow |= {p for p in reach if p.startswith("libshpool::tty::") and p in up}
    # daemon start-up is another program: autodaemonize and the like only matter as far as they end the process
    r = Tty(ctx, main, follow, restorers, enc)
    run_parts(ctx, [r])
    floors(ctx, [r], "settings read", "settings changed", "settings restored", "process exits", "dials", "calls under a guard", "ends")
    # threads of the client
    th = Threads(ctx)
    n = 0
    attach = {p for p in inner if p != "libshpool::run"} - main
    below = G.reach(attach)
    for c, rr in sorted(th.threads.items()):
        if daemon(c) or c not in below and G.owner(c) not in below:
            continue
        n += 1
        bad = sorted({s.p for s in G.sites if is_exit(s.p) and s.body.p in rr | {c} and not daemon(s.body.p)})
        ctx.check(not bad, "thread-exit", c, "a thread of the attach command may end the process (%s) while the terminal's settings are changed" % ", ".join(bad), c)
        bad = sorted({s.body.p for s in G.sites if is_set(s.p) and s.body.p in rr | {c} and not daemon(s.body.p)})
        ctx.check(not bad, "thread-sets", c, "a thread of the attach command may change the terminal's settings", c)
    ctx.floor("threads of the attach command", n, 1)
