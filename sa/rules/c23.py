"""C23: a resize is acknowledged only after it took effect."""
from .part import *
from .c08 import Threads
from .c16 import wire_fns

EXPLAIN = ("The handler of session messages is explored from the decoded request to the reply: a positive resize reply is only written after the requested size has been handed to, and acknowledged by, the pager if one is registered for the session, or the relay if none is (with the pager slot "
           "locked, so that none can appear meanwhile); an unknown name gets 'not found'. Every thread that receives sizes is explored with all other results open: before it acknowledges a size it has set this size on the terminal, and on the recorded history or the size kept for afterwards if it has one, "
           "and it never puts an older size back. The setters are explored for what they do with each component of a size, and what follows the pager uses the size it ended with.")
ASSUME = ["unwinding paths are not followed", "the ioctl and the terminal emulators do what they are asked to"]

SIZE = "shpool_protocol::TtySize"
REPLY = "shpool_protocol::SessionMessageReply"
RREPLY = "shpool_protocol::ResizeReply"
PAYLOAD = "shpool_protocol::SessionMessageRequestPayload"
MSG = "libshpool::daemon::shell::ClientConnectionMsg"
CONN = "libshpool::daemon::shell::ClientConnection"
CTL = "libshpool::daemon::pager::PagerCtl"
SPOOL = "libshpool::session_restore::SessionSpool"
EMUS = ("shpool_vt100::", "shpool_vterm::")


def vidx(F, adt, name):
    return next((i for i, v in enumerate(F.adts[adt]["v"]) if v["n"] == name), -1)


def peeled(E, S, v):
    for _ in range(6):
        w = E.load(S.env, v)
        if w.k == "drf":
            w = w.a[0]
        if w == v:
            break
        v = w
    return v


def sym_of(S, a):
    """origin tags of what a (reference) argument is or points to"""
    out = frozenset()
    v = a
    for _ in range(6):
        if v.k != "ref":
            break
        r = v.a[0]
        if r[0] == "D" and isinstance(r[1], V):
            v = r[1]
            out |= origin(v)
        else:
            break
    return out | origin(v)


def tags_in(v, d=6):
    if not isinstance(v, V) or d == 0:
        return frozenset()
    out = frozenset(v.a[1]) if v.k == "S" else frozenset()
    for x in v.a:
        for y in flat(x):
            out |= tags_in(y, d - 1)
    return out


class Dispatch(Part):
    name = "dispatch"
    K = 8

    def __init__(self, ctx, roots, enc, follow):
        Part.__init__(self, ctx, roots)
        self.enc, self.follow = enc, follow
        F = ctx.F
        self.resize = vidx(F, REPLY, "Resize")
        self.notfound = vidx(F, REPLY, "NotFound")
        self.asked = vidx(F, PAYLOAD, "Resize")
        self.okv = vidx(F, RREPLY, "Ok")

    def opaque(self, body):
        return not (body.p in self.follow or body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def root_tags(self, body, i):
        return ["req"] if "SessionMessageRequest" in body.lty(i + 1).s else []

    def lock_tags(self, g):
        return ["pager"] if "PagerCtl" in g.a[0] else ["shell"] if "ShellToClientCtl" in g.a[0] else []

    def held(self, S, what):
        return next((g for g in S.env.held if g.k == "guard" and what in g.a[0]), None)

    def who(self, S, ev):
        a = ev.args[0]
        t = sym_of(S, a) | self.E.deep_tags(S.env, a)
        return "pager" if "pager" in t else "shell" if "shell" in t else None

    def on_branch(self, S, v, val):
        for a, x in both(v, val) or [(v, val)]:
            if a.k == "discr" and self.E.discr_n.get(a, (None,))[0] == PAYLOAD:
                self.drop(S, "resize", "other")
                self.add(S, "resize" if x == self.asked else "other")
            if a in self.lookups:
                self.drop(S, "missed")
                if x == 0:
                    self.add(S, "missed")

    lookups = frozenset()

    def on_call(self, S, ev):
        E, l, n = self.E, last(ev), len(ev.ops)
        if l in ("get", "get_mut", "contains_key", "get_key_value") and n == 2 and is_table(ev.argty(0).peel()):
            self.ok("lookups", ev)
            if "req" not in E.deep_tags(S.env, ev.args[1]) and "req" not in sym_of(S, ev.args[1]):
                self.rep(S, "wrong-session", ev, "another session than the one named in the request is looked up")
            r = E.fresh(S, "entry")
            d = r if l == "contains_key" else mk("discr", r)
            if d is not r:
                E.discr_n.setdefault(d, (OPT, (0, 1)))
            self.lookups = self.lookups | {d}
            return Act(ret=r)
        if l.startswith(("send", "try_send")) and "crossbeam_channel" in ev.p and n and ev.argty(0).mentions(SIZE):
            who = self.who(S, ev)
            if who is None:
                self.rep(S, "nowhere", ev, "a size is sent to something that is neither the session's pager nor its relay")
                return Act(ret=self.result(S, "sent"))
            if who == "shell":
                g = self.held(S, "PagerCtl")
                v = E.read(S.env, g.a[3], g.a[4] + (("$data",),)) if g is not None else None
                if g is None:
                    self.rep(S, "pager-may-start", ev, "a size is handed to the relay without the pager slot being locked: a pager may take over the client meanwhile")
                elif not (v.k == "agg" and v.a[1] == 0 or E.known(S.env, mk("discr", v)) == 0):
                    self.rep(S, "not-to-pager", ev, "a size is handed to the relay although a pager may own the client's screen")
            if self.held(S, "PagerCtl" if who == "pager" else "ShellToClientCtl") is None:
                self.rep(S, "unlocked", ev, "sizes are exchanged with the %s without its lock" % who)
            if "req" not in sym_of(S, ev.args[1]) | E.deep_tags(S.env, ev.args[1]):
                self.rep(S, "wrong-size", ev, "another size than the requested one is handed on")
            self.ok("sizes handed to the " + who, ev)
            st = frozenset(x for x in S.st if not isinstance(x, tuple))
            return Act(forks=[(st | {("sent", who)}, agg(RES, 0, (UNIT,))), (st, agg(RES, 1, (E.fresh(S, "notsent"),)))])
        if l.startswith(("recv", "try_recv")) and "crossbeam_channel" in ev.p and n and ev.argty(0).peel().s.endswith("Receiver<()>"):
            who = self.who(S, ev)
            st = frozenset(x for x in S.st if not isinstance(x, tuple))
            good = st
            if ("sent", who) in S.st:
                good = st | {("acked", who)}
                if self.held(S, "PagerCtl" if who == "pager" else "ShellToClientCtl") is None:
                    self.rep(S, "unlocked", ev, "sizes are exchanged with the %s without its lock" % who)
            self.ok("acknowledgements awaited", ev)
            return Act(forks=[(good, agg(RES, 0, (UNIT,))), (st, agg(RES, 1, (E.fresh(S, "noack"),)))])
        if ev.p in self.enc and any(REPLY == t.peel().d for t in ev.ta):
            for i in range(n):
                v = peeled(E, S, ev.args[i])
                if v.k == "agg" and v.a[0] == REPLY or ev.argty(i).peel().d == REPLY:
                    self.judge(S, ev, v)
            self.add(S, "replied")
            return Act(ret=self.result(S, "replied"))
        return None

    def judge(self, S, ev, v):
        k = v.a[1] if v.k == "agg" else self.E.known(S.env, mk("discr", v))
        if k is None:
            self.rep(S, "unknown-reply", ev, "cannot tell what is answered to a resize request") if "resize" in S.st else None
        elif k == self.resize:
            self.ok("positive replies", ev)
            x = v.a[2][0] if v.k == "agg" else None
            if not self.has(S, "acked"):
                self.rep(S, "unacknowledged", ev, "a resize is answered positively although it was not acknowledged by the component that owns the screen")
            if "missed" in S.st:
                self.rep(S, "unknown-accepted", ev, "a resize of an unknown session is answered positively")
        elif k == self.notfound:
            self.ok("not found replies", ev)
            if "resize" in S.st and "missed" not in S.st:
                self.rep(S, "known-refused", ev, "a resize of a session that exists is answered 'not found'")
        elif "resize" in S.st:
            self.rep(S, "wrong-reply", ev, "a resize is answered with a reply of another kind")

    def on_end(self, S, v):
        if "resize" in S.st and "missed" in S.st and "replied" not in S.st:
            self.rep(S, "no-answer", None, "a resize of an unknown session is not answered 'not found'")


class Owner(Part):
    """a thread that is sent sizes"""
    name = "apply"
    K = 6

    def __init__(self, ctx, roots, setters, follow, spool, keeps):
        Part.__init__(self, ctx, roots)
        self.setters, self.follow, self.spool, self.keeps = setters, follow, spool, keeps
        F = ctx.F
        self.new = vidx(F, MSG, "New")

    def opaque(self, body):
        return not (body.p in self.follow or body.kind == "closure")

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple) and f[0] == "cur"]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) and f[0] == "cur" else f for f in st)

    def phi_tags(self, a, x, b, y):
        out = x.tags | y.tags
        for e, v in ((a, x), (b, y)):
            if v.k == "agg" and len(v.a[2]) == 1 and v.a[2][0].k == "ref" or v.k == "ref":
                out = out | self.E.deep_tags(e, v)
        return out

    def root(self, S):
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        return fr.body.p

    def cur(self, S):
        return next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "cur"), None)

    def size(self, S, v):
        """the value of a size (or of its parts)"""
        return peeled(self.E, S, v)

    def same(self, S, v):
        """is this exactly the latest size?"""
        c = self.cur(S)
        if c is None:
            return False
        if v == c:
            return True
        if v.k == "agg" and v.a[0] == SIZE:
            return all(x == self.E.get(c, ("f", i, nt[0])) or self.latest(S, x) and x.k == "fld" and x.a[1] == nt[0] for i, (nt, x) in enumerate(zip(fields(self.E.F, SIZE), v.a[2])))
        return self.latest(S, v)

    def latest(self, S, v):
        """was it taken, as it is, out of a place that only the latest size was put in?"""
        ep = next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "ep"), None)
        while v.k in ("fld", "vf", "dc", "drf"):
            v = v.a[0]
        return v.k == "S" and {t for t in v.a[1] if isinstance(t, tuple) and t[0] == "sz"} == {("sz", ep)}

    def fits(self, S, v):
        c = self.cur(S)
        return c is not None and (mentions(v, c) or {t for t in tags_in(v) if isinstance(t, tuple) and t[0] == "sz"} == {t for t in tags_in(c) if isinstance(t, tuple) and t[0] == "sz"})

    def received(self, S, ev, ty, wrap):
        """a message: wrap makes the value of the call out of it"""
        E, F = self.E, self.E.F
        S.st = frozenset(x for x in S.st if x not in ("m0", "m1", "m2", "m3", "mx"))
        st = frozenset(x for x in S.st if x not in ("tty", "spool", "saved", "got", "conn") and not isinstance(x, tuple))
        gone = (S.st | {"mx"}, wrap(None))
        ep = (next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "ep"), 0) + 1) % 3
        x = E.fresh(S, "size", [("sz", ep)])
        st = st | {("ep", ep)}
        if ty == SIZE:
            self.ok("sizes received", ev)
            need = {"tty", "got"} | ({"spool"} if self.root(S) in self.spool else set()) | ({"saved"} if self.root(S) in self.keeps else set())
            return Act(forks=[(st | {("cur", x)} | need, wrap(x)), gone])
        forks = [gone]
        for i, v in enumerate(F.adts[MSG]["v"]):
            pay = tuple(E.fresh(S, "msg") for _ in v["f"])
            if i == self.new:
                fs = fields(F, CONN)
                c = agg(CONN, None, tuple(x if n == "size" or t is not None and t.d == SIZE else E.fresh(S, n) for n, t in fs))
                forks.append((st | {("cur", x), "conn"}, wrap(agg(MSG, i, (c,) + pay[1:]))))
            else:
                forks.append((S.st | {"m%d" % min(i, 3)}, wrap(agg(MSG, i, pay))))
        return Act(forks=forks)

    def left(self, S, ev):
        if "got" in S.st:
            self.rep(S, "unanswered", ev, "a size that was received is not acknowledged")

    def on_call(self, S, ev):
        E, l, n, p = self.E, last(ev), len(ev.ops), ev.p
        if "crossbeam_channel" in p and l in ("recv", "try_recv", "recv_timeout", "next") and n:
            ts = [ev.argty(i).peel() for i in range(n)]
            ty = SIZE if any(t.mentions(SIZE) for t in ts) else MSG if any(t.mentions(MSG) for t in ts) else None
            if ty:
                if "got" in S.st:
                    self.left(S, ev)
                wrap = (lambda x: agg(OPT, 0, ()) if x is None else agg(OPT, 1, (x,))) if l == "next" else (lambda x: agg(RES, 1, (E.fresh(S, "gone"),)) if x is None else agg(RES, 0, (x,)))
                return self.received(S, ev, ty, wrap)
            return None
        if l == "clone" and n == 1 and ev.argty(0).peel().d == SIZE:
            return Act(ret=self.size(S, ev.args[0]))
        if p in self.setters or "SessionSpool" in p and l == "resize":
            i = next((i for i in range(n) if ev.argty(i).peel().d == SIZE), None)
            if i is None:
                return None
            v = self.size(S, ev.args[i])
            what = "tty" if p in self.setters else "spool"
            fail = Act(ret=self.result(S, "set")) if what == "tty" else Act(ret=UNIT)
            if self.same(S, v):
                self.ok("sizes applied to the " + ("terminal" if what == "tty" else "history"), ev)
                self.drop(S, what)
            elif self.fits(S, v):
                if "got" in S.st or what == "spool" or "conn" not in S.st:
                    self.rep(S, "changed", ev, "another size than the one received is applied")
                else:
                    self.add(S, "tty")
            elif self.cur(S) is not None:
                self.rep(S, "stale", ev, "a size that has been superseded is applied")
            return fail
        if l.startswith(("send", "try_send")) and "crossbeam_channel" in p and n and ev.argty(0).peel().s.endswith("Sender<()>"):
            if "got" in S.st:
                self.ok("acknowledgements", ev)
                for what, msg in (("tty", "set on the terminal"), ("spool", "applied to the recorded history"), ("saved", "kept for when the pager is done")):
                    if what in S.st:
                        self.rep(S, "too-early-" + what, ev, "a size is acknowledged before it is " + msg)
                self.drop(S, "got")
                gone = S.st - {"tty", "spool", "saved"}
                S.st = gone
                return Act(ret=self.result(S, "acked"))
            if "tty-ack" not in S.st and self.root(S) not in self.spool:
                self.rep(S, "spurious", ev, "something is acknowledged although no size was received")
            return Act(ret=self.result(S, "acked"))
        return None

    def on_store(self, S, root, path, v, body, span):
        if "saved" in S.st and any(g.k == "guard" and g.a[3] == root and tuple(path[:len(g.a[4]) + 1]) == g.a[4] + (("$data",),) for g in S.env.held):
            if self.same(S, v):
                self.ok("sizes kept", type("e", (), {"body": body}))
                self.drop(S, "saved")
            else:
                self.rep(S, "changed", type("e", (), {"body": body}), "another size than the one received is kept")


class Setter(Part):
    """what a function does with the components of a size"""
    name = "components"
    K = 6

    def __init__(self, ctx, roots, low):
        Part.__init__(self, ctx, roots)
        self.low = low
        self.emus = {b.p for b in ctx.F.bodies.values() if any(b.p.endswith("as session_restore::SessionSpool>::" + x) for x in ("resize",))}

    def opaque(self, body):
        return body.p in self.low or "config::" in body.p or not (body.p.startswith("libshpool::session_restore") or body.p.startswith("libshpool::tty"))

    def root_tags(self, body, i):
        return ["size"] if body.lty(i + 1).peel().d == SIZE else []

    def names(self, v, d=6):
        """the components of the size a value is made of"""
        out = set()
        while isinstance(v, V) and d:
            if v.k == "fld" and "size" in origin(v) and v.a[1] in ("rows", "cols", "xpixel", "ypixel"):
                out.add(v.a[1])
                return out
            if v.k in ("op", "un", "ov", "cast", "agg"):
                for x in v.a:
                    for y in flat(x):
                        if isinstance(y, V):
                            out |= self.names(y, d - 1)
                return out
            if v.k == "S":
                return {t[1] for t in v.a[1] if isinstance(t, tuple) and t[0] == "from"}
            if v.k in ("fld", "vf", "dc", "drf"):
                v = v.a[0]
                d -= 1
                continue
            break
        return out

    def on_call(self, S, ev):
        E, l, n, p = self.E, last(ev), len(ev.ops), ev.p
        if p in self.low:
            v = next((w for w in (peeled(E, S, a) for a in ev.args) if w.k == "agg" and "winsize" in str(w.a[0])), None)
            if v is None:
                self.rep(S, "unknown", ev, "the size given to the terminal is not one that was just put together")
                return Act(ret=self.result(S, "ioctl"))
            for (nm, t), x in zip(self.winfields(v.a[0]), v.a[2]):
                want = {"ws_row": {"rows"}, "ws_col": {"cols"}, "ws_xpixel": {"xpixel"}, "ws_ypixel": {"ypixel"}}.get(nm)
                got = self.names(x)
                self.ok("component " + str(nm), ev)
                if want is not None and (got != want or x.k not in ("fld",)):
                    self.rep(S, "component", ev, "%s of the terminal is set from %s" % (nm, ",".join(sorted(got)) or "something else"), " " + nm)
            return Act(forks=[(S.st | {"done"}, agg(RES, 0, (E.fresh(S, "rc"),))), (S.st, agg(RES, 1, (E.fresh(S, "errno"),)))])
        if p.startswith(EMUS) and l in ("set_size", "resize") and n >= 2:
            vs = [peeled(E, S, a) for a in ev.args[1:]]
            fs = [(("height", vs[0]), ("width", vs[1]))] if len(vs) == 2 else []
            if len(vs) == 1 and vs[0].k == "agg":
                nm = [f[0] for f in fields(E.F, vs[0].a[0])] if vs[0].a[0] in E.F.adts else []
                fs = [tuple(zip(nm, vs[0].a[2]))]
            for pairs in fs:
                for nm, x in pairs:
                    got = self.names(x)
                    self.ok("emulator " + str(nm), ev)
                    if nm in ("height", "rows") and got != {"rows"} or nm in ("width", "cols") and got not in (set(), {"cols"}) or nm in ("width", "cols") and not got and "cfg" not in E.deep_tags(S.env, x):
                        self.rep(S, "component", ev, "%s of the history is set from %s" % (nm, ",".join(sorted(got)) or "something else"), " " + str(nm))
            if not fs:
                self.rep(S, "unknown", ev, "the size given to the history cannot be told")
            self.add(S, "done")
            return Act(ret=E.fresh(S, "resized"))
        if n and any(w for w in ev.args) and l in ("max", "min", "clamp", "from", "into", "saturating_add"):
            t = {("from", x) for a in ev.args for x in self.names(peeled(E, S, a))}
            return Act(ret=E.fresh(S, l, t)) if p not in E.F.bodies else None
        b = E.F.bodies.get(p)
        if b is not None and self.opaque(b) and n and "Manager" in ev.argty(0).s:
            return Act(ret=E.fresh(S, "cfg", ["cfg"]))
        return None

    def winfields(self, adt):
        a = self.E.F.adts.get(adt)
        if a is None:
            return [(n, None) for n in ("ws_row", "ws_col", "ws_xpixel", "ws_ypixel")]
        return fields(self.E.F, adt)

    def on_end(self, S, v):
        fr = S.frame
        b = fr.body
        if b.p in self.emus:
            if "done" not in S.st:
                self.rep(S, "ignored", type("e", (), {"body": b}), "the history ignores a new size")
        elif v.k == "agg" and v.a[0] == RES and v.a[1] == 0 and "done" not in S.st:
            self.rep(S, "ignored", type("e", (), {"body": b}), "a size is reported as set although it was not")


class After(Part):
    """the size the client has after a pager was shown"""
    name = "after-pager"
    K = 6

    def __init__(self, ctx, roots, pagers, follow):
        Part.__init__(self, ctx, roots)
        self.pagers, self.follow = pagers, follow
        self.new = vidx(ctx.F, MSG, "New")

    def opaque(self, body):
        return body.p in self.pagers or not (body.p in self.follow or body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple)]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) else f for f in st)

    def on_call(self, S, ev):
        E, l, n, p = self.E, last(ev), len(ev.ops), ev.p
        if l == "clone" and n == 1 and ev.argty(0).peel().d == SIZE:
            return Act(ret=peeled(E, S, ev.args[0]))
        if p in self.pagers:
            self.ok("pagers shown", ev)
            x = E.fresh(S, "endsize", ["endsize"])
            opt = "Option<" in ev.destty().s
            good = agg(RES, 0, (agg(OPT, 1, (x,)) if opt else x,))
            st = frozenset(y for y in S.st if not isinstance(y, tuple))
            forks = [(st | {("cur", x)}, good), (S.st, agg(RES, 1, (E.fresh(S, "nopager"),)))]
            if opt:
                forks.append((S.st, agg(RES, 0, (agg(OPT, 0, ()),))))
            return Act(forks=forks)
        if l.startswith("send") and "crossbeam_channel" in p and n > 1 and ev.argty(0).mentions(MSG):
            v = peeled(E, S, ev.args[1])
            if v.k == "agg" and v.a[1] == self.new and v.a[2]:
                self.ok("clients handed to the relay", ev)
                c = peeled(E, S, v.a[2][0])
                z = next((x for (nm, t), x in zip(fields(E.F, CONN), c.a[2]) if t is not None and t.d == SIZE), None) if c.k == "agg" else None
                cur = next((f[1] for f in S.st if isinstance(f, tuple)), None)
                if cur is not None and z != cur:
                    self.rep(S, "forgotten", ev, "a size set while the pager was shown is forgotten when it ends")
            return Act(ret=self.result(S, "handed"))
        return None


class Shown(Part):
    """what a pager reports when it ends"""
    name = "pager-size"
    K = 6

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)

    def opaque(self, body):
        return not body.p.startswith("libshpool::daemon::pager::")

    def lock_tags(self, g):
        return ["kept"] if "TtySize" in g.a[0] else []

    def phi_tags(self, a, x, b, y):
        both = "kept" in origin(x) and "kept" in origin(y)
        return (x.tags | y.tags) - {"kept"} | ({"kept"} if both else set())

    def on_call(self, S, ev):
        if last(ev) == "clone" and len(ev.ops) == 1 and ev.argty(0).peel().d == SIZE:
            v = peeled(self.E, S, ev.args[0])
            a = ev.args[0]
            kept = any(g.k == "guard" and "TtySize" in g.a[0] for g in S.env.held)
            r = a
            for _ in range(4):
                w = self.E.load(S.env, r)
                if w.k != "ref":
                    break
                r = w
            inside = r.k == "ref" and any(g.k == "guard" and g.a[3] == r.a[0] and tuple(r.a[1][:len(g.a[4]) + 1]) == g.a[4] + (("$data",),) for g in S.env.held)
            return Act(ret=self.E.fresh(S, "clone", ["kept"] if kept and inside or "kept" in origin(v) else []))
        return None

    def on_end(self, S, v):
        if v.k == "agg" and v.a[0] == RES and v.a[1] == 0:
            x = v.a[2][0]
            e = type("e", (), {"body": S.frame.body})
            self.ok("sizes reported by pagers", e)
            if "kept" not in origin(x):
                self.rep(S, "forgotten", e, "the pager does not report the size that was set last when it ends")


def run(ctx):
    ctx.rule("reply <- acknowledgement <- applied to terminal and history; the pager first; unknown -> not found")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    writes = {s.body.p for s in G.sites if s.p in enc and any(t.peel().d == REPLY for t in s.ta) and s.body.p.startswith("libshpool::daemon::")}
    roots = {G.owner(p) for p in writes}
    sends = G.calling(lambda s: "crossbeam_channel" in s.p and last(s).startswith(("send", "try_send", "recv")) and len(s.t[2]) and (s.argty(0).mentions(SIZE) or s.argty(0).peel().s.endswith("Receiver<()>")))
    tabs = G.calling(lambda s: last(s) in ("get", "get_mut", "contains_key", "get_key_value") and s.t[2] and is_table(s.argty(0).peel()))
    follow = (G.up(sends | tabs | writes | made_in(F, G, {REPLY, RREPLY})) & G.reach(roots)) - enc | roots
    d = Dispatch(ctx, roots, enc, follow)

    # threads that receive sizes
    th = Threads(ctx)
    recv = {s.body.p for s in G.sites if "crossbeam_channel" in s.p and last(s) in ("recv", "try_recv", "recv_timeout", "next") and any(s.argty(i).peel().mentions(SIZE) for i in range(len(s.t[2])))}
    owners = {c for c, r in th.threads.items() if (r | {c}) & recv}
    outer = {c for c in owners if not any(c != o and c in th.threads[o] for o in owners)}
    low = G.calling(lambda s: s.p == "libc::ioctl")
    low = {p for p in low if any("winsize" in F.bodies[p].lty(i).s for i in range(1, F.bodies[p].argc + 1))}
    setters = {s.body.p for s in G.sites if s.p in low and any(F.bodies[s.body.p].lty(i).peel().d == SIZE for i in range(1, F.bodies[s.body.p].argc + 1))}
    spool = {c for c in owners if any(x in (th.threads[c] | {c}) for x in {s.body.p for s in G.sites if "SessionSpool" in s.p})}
    saves = G.calling(lambda s: last(s) == "lock" and any(SIZE == t.d for t in s.ta))
    keeps = {c for c in owners if (th.threads[c] | {c}) & saves}
    inter = {s.body.p for s in G.sites if s.p in setters or "SessionSpool" in s.p} | recv | G.calling(lambda s: "crossbeam_channel" in s.p and last(s).startswith("send") and s.t[2] and s.argty(0).peel().s.endswith("Sender<()>")) | saves
    fo = (G.up(inter) & set().union(*[th.threads[c] for c in owners])) - setters if owners else set()
    fo = {p for p in fo if not p.startswith("libshpool::session_restore::")}
    o = Owner(ctx, outer, setters, fo, spool, keeps)

    emus = {b.p for b in F.bodies.values() if b.p.endswith("as session_restore::SessionSpool>::resize") and any(s.body.p.startswith(b.p.rsplit("::", 1)[0]) and s.p.startswith(EMUS) for s in G.sites)}
    s = Setter(ctx, emus | setters, low)

    pag = G.up(made_in(F, G, {CTL}))
    pagers = {p for p in pag if "TtySize" in F.bodies[p].lty(0).s}
    top = {p for p in pagers if not any(s.p == p and s.body.p in pagers for s in G.sites)}
    handed = G.up(G.calling(lambda s: "crossbeam_channel" in s.p and last(s).startswith("send") and s.t[2] and s.argty(0).mentions(MSG)))
    serve = {G.owner(p) for p in G.calling(lambda s: s.p in top) if not p in pagers}
    while serve and not serve <= handed:
        # a helper that only shows the pager: what calls it hands the client on
        n = {p if p in handed else q for p in serve for q in ({G.owner(s.body.p) for s in G.sites if s.p == p} or {p})}
        if n == serve:
            break
        serve = n
    fa = ((handed | G.up(top)) & G.reach(serve) | serve)
    fa = {p for p in fa if p in serve or any("TtySize" in F.bodies[p].lty(i).s or "AttachHeader" in F.bodies[p].lty(i).s for i in range(0, F.bodies[p].argc + 1))}
    a = After(ctx, serve, top, fa)
    inner = {p for p in pagers if p in {G.owner(x) for x in made_in(F, G, {CTL})}} or top
    w = Shown(ctx, inner)
    parts = [d, o, s, a, w]
    run_parts(ctx, parts)
    floors(ctx, [d], "lookups", "sizes handed to the pager", "sizes handed to the shell", "acknowledgements awaited", "positive replies", "not found replies")
    floors(ctx, [o], "sizes received", "sizes applied to the terminal", "sizes applied to the history", "acknowledgements", "sizes kept")
    floors(ctx, [s], "component ws_row", "component ws_col", "emulator height", "emulator width")
    floors(ctx, [a, w], "pagers shown", "clients handed to the relay", "sizes reported by pagers")
    ctx.floor("threads that are sent sizes", len(outer), 1)
