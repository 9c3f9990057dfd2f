"""the daemon's start, its files and its signal handler, as one exploration that C26 and C31 judge"""
from .part import *

SAME = {"clone", "as_ref", "deref", "as_path", "to_path_buf", "to_owned", "borrow", "as_os_str", "into", "from", "into_os_string", "as_mut_os_str"}
KINDS = "std::io::ErrorKind"
LIST = ("Vec<std::path::PathBuf", "Vec<PathBuf", "[std::path::PathBuf", "[PathBuf", "Iter<'_, std::path::PathBuf", "Iter<'_, PathBuf")
TRUNC = ("std::fs::File::create", "std::fs::write", "std::fs::rename", "std::fs::copy")


def is_bind(p):
    return p == "std::os::unix::net::UnixListener::bind" or p.endswith("UnixListener::bind_addr")


def is_connect(p):
    return p == "std::os::unix::net::UnixStream::connect" or p.endswith("UnixStream::connect_addr")


def is_unlink(p):
    return p in ("std::fs::remove_file", "nix::unistd::unlink", "libc::unlink")


def is_accept(p):
    return "UnixListener::" in p and last_of(p) in ("accept", "incoming")


def last_of(p):
    return p.rsplit("::", 1)[-1]


def is_sigiter(p):
    return "SignalsInfo" in p and last_of(p) in ("into_iter", "forever", "wait", "pending")


def accepting(ctx):
    """functions that serve connections on the calling thread"""
    F, G = ctx.F, ctx.G
    out = {s.body.p for s in G.sites if is_accept(s.p) and s.body.kind != "closure"}
    todo = list(out)
    while todo:
        p = todo.pop()
        for q in {s.body.p for s in G.sites if s.p == p}:
            if q in F.bodies and F.bodies[q].kind != "closure" and q not in out:
                out.add(q)
                todo.append(q)
    return out


def handlers(ctx):
    """closures of the daemon that run the signal loop"""
    F, G = ctx.F, ctx.G
    its = {s.body.p for s in G.sites if is_sigiter(s.p) and s.body.p.startswith("libshpool::daemon::")}
    return {p for p in G.up(its) if p in F.bodies and F.bodies[p].kind == "closure" and p.startswith("libshpool::daemon::") and (p in its or G.reach([p]) & its)}


def dtors(ctx):
    """types whose destructor removes a file, with that destructor"""
    F, G = ctx.F, ctx.G
    un = G.up({s.body.p for s in G.sites if is_unlink(s.p)})
    out = {}
    for p in un:
        b = F.bodies.get(p)
        if b is not None and p.endswith(" as std::ops::Drop>::drop") and p.startswith("libshpool::<"):
            d = b.lty(1).peel().d
            if d:
                out[d] = p
    return out


def walk(v, d=6):
    """the values stored in a structure"""
    yield v
    if d and isinstance(v, V):
        xs = v.a[2] if v.k == "agg" else v.a[1] if v.k == "clo" else [x for _, x in v.a[1]] if v.k == "ov" else ()
        for x in xs:
            yield from walk(x, d - 1)


class Start(Part):
    name = "daemon-start"
    K = 8
    exact_tags = frozenset(["derived"])
    cats = ()

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        F, G = ctx.F, ctx.G
        self.acc = accepting(ctx) - set(roots)
        self.hand = handlers(ctx)
        self.dt = dtors(ctx)
        vs = [v["n"] for v in F.adts[KINDS]["v"]]
        self.refused = vs.index("ConnectionRefused")
        near = G.up({s.body.p for s in G.sites if is_bind(s.p) or is_connect(s.p) or is_unlink(s.p) or "Flock" in s.p or "set_file_name" in s.p or "with_file_name" in s.p} | self.hand)
        self.follow = {p for p in near if p not in self.acc} | {b.p for b in F.bodies.values() if len(b.blocks) <= 12 and b.argc and "Path" in b.lty(0).s}
        self.other = set()

    def judge(self, S, cat, ev, msg, extra=""):
        if cat in self.cats:
            self.rep(S, cat, ev, msg, extra)

    def opaque(self, body):
        return False

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple) and isinstance(f[1], V)]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) and isinstance(f[1], V) else f for f in st)

    def path(self, S, v):
        E = self.E
        for _ in range(6):
            w = E.load(S.env, v)
            while w.k == "drf":
                w = w.a[0]
            if w == v or w.k != "ref":
                return w
            v = w
        return w

    def paths(self, S, v):
        return {self.path(S, x) for x in walk(self.E.load(S.env, v))}

    def on_drop(self, S, v, ty, root, path):
        if ty.mentions("nix::fcntl::Flock") and ty.peel().d == "nix::fcntl::Flock":
            self.drop(S, "pidlock")

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        own = "own" in S.st
        if p in self.acc:
            return self.serving(S, ev)
        if is_bind(p):
            v = self.path(S, ev.args[0])
            main = "derived" not in origin(v)
            self.ok("sockets bound", ev)
            if not main and not own:
                self.judge(S, "too-early", ev, "another socket is bound before the control socket is held")
            good = S.st | {("file", v)} | ({"own"} if main or own else set()) | ({"bound"} if main else set())
            return Act(forks=[(good, agg(RES, 0, (E.fresh(S, "listener"),))), (S.st, agg(RES, 1, (E.fresh(S, "inuse"),)))])
        if ev.dest and ev.destty().d == RES and "UnixListener" in ev.destty().s and p.startswith("libshpool::") and p not in self.ctx.G.up({s.body.p for s in self.ctx.G.sites if is_bind(s.p)}):
            return Act(forks=[(S.st | {"own", "inherited"}, agg(RES, 0, (E.fresh(S, "listener"),))), (S.st, agg(RES, 1, (E.fresh(S, "noactivation"),)))])
        if is_connect(p):
            v = self.path(S, ev.args[0])
            self.ok("connection attempts", ev)
            st = frozenset(x for x in S.st if x != ("refused", v))
            e = E.fresh(S, "connerr", [])
            return Act(forks=[(st, agg(RES, 0, (E.fresh(S, "stream"),))), (frozenset(x for x in st if not (isinstance(x, tuple) and x[0] in ("err", "lost"))) | {("err", e), ("errof", v)}, agg(RES, 1, (e,)))])
        if l == "kind" and "io::Error" in p and n:
            e = self.path(S, ev.args[0])
            if ("err", e) in S.st:
                v = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "errof"), None)
                o = E.fresh(S, "otherkind")
                self.other.add(o)
                E.discr_n.setdefault(mk("discr", o), (KINDS, tuple(range(len(E.F.adts[KINDS]["v"])))))
                k = agg(KINDS, self.refused, ())
                if ("refused", v) in S.st:
                    return Act(ret=k)
                return Act(forks=[(S.st | {("refused", v)}, k), (S.st, o)])
        if l in ("eq", "ne") and n == 2 and "ErrorKind" in p:
            a, b = self.path(S, ev.args[0]), self.path(S, ev.args[1])
            if a.k == "agg" and b.k == "agg":
                return Act(ret=B(int((a == b) == (l == "eq"))))
            for x, y in ((a, b), (b, a)):
                if x in self.other and y.k == "agg" and y.a[1] == self.refused:
                    return Act(ret=B(int(l == "ne")))
        if is_unlink(p):
            return self.unlink(S, ev)
        if l == "set_file_name" or l in ("push", "pop", "set_extension") and "std::path::PathBuf" in p:
            r = E.load(S.env, ev.args[0]) if ev.args[0].k != "ref" else ev.args[0]
            if r.k == "ref":
                E.write(S.env, r.a[0], r.a[1], E.fresh(S, "sibling", ["derived"]))
            return Act(ret=UNIT)
        if l in ("with_file_name", "join", "with_extension", "parent") and "std::path::Path" in p:
            return Act(ret=E.fresh(S, "sibling", ["derived"]))
        if n == 1 and l in SAME and "Path" in ev.argty(0).s + (ev.destty().s if ev.dest else "") and "Error" not in ev.argty(0).s:
            v = self.path(S, ev.args[0])
            if v.k not in ("agg", "ov") or "Option" not in str(v.a[0]):
                return Act(ret=v)
        if ev.dest and n and any(x in ev.argty(0).s + ev.destty().s for x in ("PathBuf",)) and not p.startswith("libshpool"):
            r = self.listing(S, ev, l)
            if r is not None:
                return r
        # files
        if p == "std::fs::OpenOptions::truncate" or l == "create_new" and "OpenOptions" in p:
            self.drop(S, "trunc")
            if ev.load(1) != B(0) and l == "truncate":
                self.add(S, "trunc")
        elif p == "std::fs::OpenOptions::new" or p == "std::fs::File::options":
            self.drop(S, "trunc")
        elif p == "std::fs::OpenOptions::open" and "OpenOptions" in p:
            self.ok("files opened", ev)
            if "trunc" in S.st and not own and "pidlock" not in S.st:
                self.judge(S, "clobber", ev, "a file another daemon may use is emptied before it is known that none does")
            v = self.path(S, ev.args[1])
            return Act(forks=[(S.st | {("opened", v)}, agg(RES, 0, (E.fresh(S, "file", ["file"]),))), (S.st, agg(RES, 1, (E.fresh(S, "noopen"),)))])
        elif p in TRUNC or p == "std::fs::File::set_len" or l in ("write_all", "write_fmt", "write") and n and "fs::File" in ev.argty(0).s:
            self.ok("files written", ev)
            if not own and "pidlock" not in S.st:
                self.judge(S, "clobber", ev, "a file another daemon may use is written before it is known that none does")
        elif "Flock" in p and l == "lock":
            ad = E.F.adts.get("nix::fcntl::FlockArg")
            v = ev.load(1)
            nm = ad["v"][v.a[1]]["n"] if ad and v.k == "agg" and v.a[1] is not None else str(v)
            st = S.st
            if "Exclusive" in nm or not ad:
                st = st | {"pidlock"} | {("pid", x[1]) for x in st if isinstance(x, tuple) and x[0] == "opened"}
            return Act(forks=[(st, agg(RES, 0, (E.fresh(S, "lock"),))), (S.st, agg(RES, 1, (E.fresh(S, "locked"),)))])
        b = E.F.bodies.get(p)
        if b is not None and b.kind != "closure" and p not in self.follow:
            return Act(opaque=True)
        return None

    def listing(self, S, ev, l):
        """lists of paths: what was put into them"""
        E, n = self.E, len(ev.ops)
        if l in ("iter", "into_iter", "cloned", "copied") and n == 1:
            v = self.path(S, ev.args[0])
            if v.k == "agg" and v.a[0] == OPT:
                return Act(ret=v)
        if any(x in ev.argty(0).s + ev.destty().s for x in LIST):
            for i in range(n):
                if any(x in ev.argty(i).s for x in LIST) and self.path(S, ev.args[i]).k == "S":
                    continue
                for x in self.paths(S, ev.args[i]):
                    if x.k in ("S", "fld", "vf", "dc", "idx"):
                        self.add(S, ("listed", x))
        return None

    def unlink(self, S, ev):
        v = self.path(S, ev.args[0])
        self.ok("files removed", ev)
        main = "derived" not in origin(v)
        mine = ("file", v) in S.st or ("pid", v) in S.st
        if main and not ("own" in S.st or ("refused", v) in S.st):
            self.judge(S, "served-socket", ev, "a socket file is removed although no refused connection attempt proved that nobody listens on it")
        if main and "inherited" in S.st and ("refused", v) not in S.st:
            self.judge(S, "not-ours", ev, "a control socket that the daemon did not create is removed")
        if not main and not ("own" in S.st or ("pid", v) in S.st and "pidlock" in S.st):
            self.judge(S, "too-early", ev, "a file another daemon may use is removed before the control socket is held")
        S.st = frozenset(x for x in S.st if x != ("file", v) and x != ("refused", v))
        return None

    def serving(self, S, ev):
        E = self.E
        self.ok("serves", ev)
        if "own" not in S.st:
            self.judge(S, "unowned", ev, "connections are served without the control socket being held")
        if any(isinstance(x, tuple) and x[0] == "pid" for x in S.st) and "pidlock" not in S.st:
            self.judge(S, "unlocked", ev, "the pid file is not kept locked while the daemon runs")
        if "handled" not in S.st:
            self.judge(S, "unhandled", ev, "connections are served without termination signals being handled")
        else:
            for x in S.st:
                if isinstance(x, tuple) and x[0] in ("file", "pid") and ("cleans", x[1]) not in S.st:
                    what = "pid file" if x[0] == "pid" else "events socket" if "derived" in origin(x[1]) else "control socket"
                    self.judge(S, "not-cleaned", ev, "the %s is not removed when a termination signal arrives" % what, " " + what)
            if "inherited" in S.st and any(isinstance(x, tuple) and x[0] == "cleans" and "derived" not in origin(x[1]) for x in S.st):
                self.judge(S, "not-ours", ev, "a control socket that the daemon did not create is removed when a termination signal arrives")
        r = self.result(S, "served")
        return Act(ret=r)

    def on_spawn(self, S, ev, clo):
        if clo.k != "clo":
            return None
        if clo.a[0] in self.hand:
            self.ok("signal handlers", ev)
            S.st = frozenset(("cleans", x[1]) if isinstance(x, tuple) and x[0] == "listed" else x for x in S.st) | {"handled"}
        for x in walk(clo, 8):
            if x.k == "agg" and x.a[0] in self.dt:
                for y in x.a[2]:
                    v = self.path(S, y)
                    if ("file", v) in S.st:
                        self.add(S, ("guarded", v))
        return None

    def on_end(self, S, v):
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        if not any(isinstance(x, tuple) for x in S.st) and "own" not in S.st:
            return
        e = type("e", (), {"body": fr.body})
        bad = v.k == "agg" and v.a[0] == RES and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1
        if bad:
            return
        if not fr.body.p.startswith("libshpool::daemon::"):
            return
        self.ok("orderly ends", e)
        if "own" not in S.st:
            self.judge(S, "silent", e, "success is reported although the control socket is not held")
        for x in S.st:
            if isinstance(x, tuple) and x[0] == "file" and ("guarded", x[1]) not in S.st:
                what = "events socket" if "derived" in origin(x[1]) else "control socket"
                self.judge(S, "left-behind", e, "the %s is left behind at an orderly end" % what, " " + what)


def roots(ctx):
    F, G = ctx.F, ctx.G
    acc = accepting(ctx)
    binds = {s.body.p for s in G.sites if is_bind(s.p) and "test_hooks" not in s.body.p}
    both_ = None
    for b in binds:
        u = {G.owner(p) for p in G.up({b}) if p in F.bodies}
        both_ = u if both_ is None else both_ & u
    both_ = {p for p in both_ or () if G.reach([p]) & acc}
    low = {p for p in both_ if not (G.reach([p]) - {p}) & both_}
    con = G.up({s.body.p for s in G.sites if is_connect(s.p)}) & G.up({s.body.p for s in G.sites if is_unlink(s.p)})
    below = G.reach(low)
    cand = {G.owner(p) for p in con if p in F.bodies and G.owner(p) not in below}
    cand = {p for p in cand if not G.reach([p]) & low}
    # whoever removes a file outside of the daemon's own working
    un = {G.owner(s.body.p) for s in G.sites if is_unlink(s.p) and s.body.p not in below and not s.body.p.startswith("libshpool::daemon::") and "test_hooks" not in s.body.p}
    return low, {p for p in cand | un if not (G.reach([p]) - {p}) & (cand | un) and not p.endswith("::drop")}
