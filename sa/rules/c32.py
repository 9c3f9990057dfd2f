"""C32: what the daemon stores about a session is private to the user; the umask is the user's."""
from .part import *
from .startlib import SAME
from .c25 import is_exec

EXPLAIN = ("Every path of the daemon's attach handling that reaches a call which creates or writes a file or link is followed; paths are tracked by how they were joined together. Such a call needs, on that very path, a directory above the session's own one that was seen to be, or was made, inaccessible to group and others (metadata's mode compared with a constant, or set_permissions with such a mode that succeeded, on the same directory) and no later call that loosened it. "
           "A file creation mask that is changed has to be put back on every path to a return or to starting a program.")
ASSUME = ["nobody else changes the permissions of the sessions directory", "a path is changed only by the calls of std::path that are modelled; what the model does not know is treated as not private"]
TECH = "path-sensitive typestate over MIR"

STORE = {"std::fs::write": 0, "std::fs::File::create": 0, "std::fs::File::create_new": 0, "std::fs::OpenOptions::open": 1, "std::os::unix::fs::symlink": 1, "std::fs::hard_link": 1,
         "std::fs::copy": 1, "std::fs::rename": 1, "nix::unistd::symlinkat": 2, "std::fs::soft_link": 1}
PERM = ("std::fs::metadata", "std::fs::symlink_metadata", "std::path::Path::metadata", "std::path::Path::symlink_metadata", "std::fs::set_permissions")
UNSEEN = ("std::fs::Permissions", "std::fs::Metadata")
MASK = ("nix::sys::stat::umask", "libc::umask")


def is_umask(p):
    return p in MASK or p.endswith("::umask")


class Private(Part):
    name = "private-files"
    K = 8

    def __init__(self, ctx, roots, follow):
        Part.__init__(self, ctx, roots)
        self.follow = follow

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple)]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) else f for f in st)

    def path(self, S, v):
        E = self.E
        for _ in range(6):
            w = E.load(S.env, v)
            while w.k == "drf":
                w = w.a[0]
            if w == v or w.k != "ref":
                return w
            v = w
        return w

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if p in STORE:
            self.store(S, ev, self.path(S, ev.args[STORE[p]]))
            return None
        if p in PERM and l != "set_permissions":
            d = self.path(S, ev.args[0])
            return Act(forks=[(S.st, agg(RES, 0, (mk("op", "meta", d, E.fresh(S, "stat")),))), (S.st, agg(RES, 1, (E.fresh(S, "nostat"),)))])
        if l == "permissions" and "Metadata" in p:
            m = self.path(S, ev.args[0])
            if m.k == "op" and m.a[0] == "meta":
                return Act(ret=mk("op", "perm", m.a[1], mk("op", "mode", m.a[1], m.a[2])))
        if l in ("mode", "st_mode") and n == 1:
            m = self.path(S, ev.args[0])
            if m.k == "op" and m.a[0] == "perm":
                return Act(ret=m.a[2])
            if m.k == "op" and m.a[0] == "meta":
                return Act(ret=mk("op", "mode", m.a[1], m.a[2]))
        if l == "from_mode" and "Permissions" in p:
            return Act(ret=mk("op", "perm", UNIT, ev.load(0)))
        if l in ("set_mode", "set_readonly") and "Permissions" in p:
            r = ev.args[0]
            if r.k != "ref":
                r = E.load(S.env, r)
            if r.k == "ref":
                E.write(S.env, r.a[0], r.a[1], mk("op", "perm", UNIT, ev.load(1) if l == "set_mode" else E.fresh(S, "readonly")))
            return Act(ret=UNIT)
        if l == "set_permissions":
            if not p.startswith("std::fs::set_permissions"):
                return None
            d, m = self.path(S, ev.args[0]), self.path(S, ev.args[1])
            self.ok("permissions set", ev)
            m = m.a[2] if m.k == "op" and m.a[0] == "perm" else m
            good = m.k == "i" and m.a[0] & 0o077 == 0
            st = S.st - {("private", d)}
            return Act(forks=[(st | {("private", d)} if good else st, agg(RES, 0, (UNIT,))), (st if not good else S.st, agg(RES, 1, (E.fresh(S, "nochmod"),)))])
        # paths
        if l == "join" and n == 2 and "std::path::Path" in p:
            return Act(ret=mk("op", "join", self.path(S, ev.args[0]), self.path(S, ev.args[1])))
        if l == "push" and "std::path::PathBuf" in p:
            r = ev.args[0] if ev.args[0].k == "ref" else E.load(S.env, ev.args[0])
            if r.k == "ref":
                E.write(S.env, r.a[0], r.a[1], mk("op", "join", self.path(S, r), self.path(S, ev.args[1])))
            return Act(ret=UNIT)
        if l == "pop" and "std::path::PathBuf" in p:
            r = ev.args[0] if ev.args[0].k == "ref" else E.load(S.env, ev.args[0])
            v = self.path(S, r)
            if r.k == "ref":
                E.write(S.env, r.a[0], r.a[1], v.a[1] if v.k == "op" and v.a[0] == "join" else E.fresh(S, "popped"))
            return Act(ret=E.fresh(S, "popped"))
        if l == "parent" and "std::path::Path" in p:
            v = self.path(S, ev.args[0])
            if v.k == "op" and v.a[0] == "join":
                return Act(ret=agg(OPT, 1, (v.a[1],)))
        if n == 1 and l in SAME | {"new"} and ("Path" in ev.argty(0).s + (ev.destty().s if ev.dest else "") or "OsStr" in ev.argty(0).s) and "Error" not in ev.argty(0).s and p not in E.F.bodies:
            v = self.path(S, ev.args[0])
            if v.k not in ("agg", "ov") or "Option" not in str(v.a[0]):
                return Act(ret=v)
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            c = None
            if a.k == "op" and a.a[0] in ("Eq", "Ne") and isinstance(x, int):
                if (a.a[0] == "Eq") == bool(x):
                    m, c = (a.a[1], a.a[2]) if a.a[2].k == "i" else (a.a[2], a.a[1])
                    c = c.a[0] if c.k == "i" else None
            elif isinstance(x, int):
                m, c = a, x
            if c is None or m.k != "op":
                continue
            mask = 0o7777
            if m.a[0] == "BitAnd":
                m, k = (m.a[1], m.a[2]) if m.a[2].k == "i" else (m.a[2], m.a[1])
                mask = k.a[0] if k.k == "i" else 0
            if m.k == "op" and m.a[0] == "mode" and mask & 0o077 == 0o077 and c & 0o077 == 0:
                self.add(S, ("private", m.a[1]))

    def store(self, S, ev, v):
        self.ok("files stored", ev)
        w, below, good = v, [], False
        while w.k == "op" and w.a[0] == "join":
            below.append(w.a[2])
            w = w.a[1]
            # the directory has to be above everything that is named after a session
            if ("private", w) in S.st and not (w.k == "op" and w.a[0] == "join" and w.a[2].k != "s") and any(x.k != "s" for x in below):
                good = True
        if not good:
            self.rep(S, "exposed", ev, "a file or link is stored although the sessions directory it lies in was not made accessible to its owner only")


class Umask(Part):
    name = "umask-kept"
    K = 4

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple)]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) else f for f in st)

    def on_call(self, S, ev):
        if is_umask(ev.p) and ev.p not in self.E.F.bodies:
            self.ok("umask changes", ev)
            v = ev.load(0)
            if ("old", v) in S.st:
                self.drop(S, "old")
                return None
            r = self.E.fresh(S, "oldmask")
            if not self.has(S, "old"):
                self.add(S, ("old", r))
            return Act(ret=r)
        if is_exec(ev.p) and self.has(S, "old"):
            self.rep(S, "umask", ev, "a program is started with another file creation mask than the user's")
        return None

    def on_end(self, S, v):
        if self.has(S, "old"):
            fr = S.frame
            while fr.parent is not None:
                fr = fr.parent
            self.rep(S, "umask", type("e", (), {"body": fr.body}), "the file creation mask is not put back")


def run(ctx):
    F, G = ctx.F, ctx.G
    ctx.rule("stored => sessions directory private; umask changed => restored")
    dm = lambda b: b.startswith("libshpool::daemon::") or b.startswith("libshpool::<daemon::")
    # the pid file and the log are not about sessions: they are written by what never sees a client
    conn = {b.p for b in F.bodies.values() if b.kind != "closure" and dm(b.p) and any("UnixStream" in b.lty(i + 1).s for i in range(b.argc))}
    served = G.reach(conn)
    sites = {s.body.p for s in G.sites if s.p in STORE and dm(s.body.p) and s.body.p in served}
    up = G.up(sites)
    cand = {p for p in up & conn}
    low = {p for p in cand if not ((G.reach([p]) - {p}) & cand)}
    # nothing may be reached around the roots
    for s in sorted(sites):
        ctx.check(bool(G.up({s}) & low), "rooted", G.owner(s), "a file is stored outside of the handling of a client's request", "")
    follow = up | G.up({s.body.p for s in G.sites if s.p in PERM or "Permissions" in s.p}) | {b.p for b in F.bodies.values() if len(b.blocks) <= 12 and b.argc and ("Path" in b.lty(0).s)}
    um = {s.body.p for s in G.sites if is_umask(s.p)}
    parts = [Private(ctx, low, follow)]
    if um:
        u = Umask(ctx, um)
        u.follow = G.up({s.body.p for s in G.sites if is_umask(s.p)})
        parts.append(u)
    run_parts(ctx, parts)
    floors(ctx, parts, "files stored", "permissions set")
