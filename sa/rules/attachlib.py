"""One automaton over everything that attaches, creates, replaces, removes, signals or un-attaches sessions (C03, C04, C06).

State: frozenset of tuples
 ("req", V)     the request being served        ("debt",)   a table session is recorded attached by this client
 ("rec",)       a private session is recorded   ("none",)   ... and was set to None again   ("ann",) ... and announced
 ("id", n)      pointer identity of the entry looked up under table guard n was established
 ("exited", n, key) / ("alive", n, key)         the entry's exit notifier said so under guard n
 ("dead", n)    the entry's shell was signalled / found dead under guard n       ("evid",)  own shell's exit observed
 ("busy",)      the attach lock was taken by somebody else                       ("private",) a session not yet in the table
"""
from .common import *

HDRS = "shpool_protocol::ConnectHeader"
REPLY = "shpool_protocol::AttachReplyHeader"
STATUS = "shpool_protocol::AttachStatus"
NOTIF = "libshpool::daemon::exit_notify::ExitNotifier"
KILLS = ("nix::sys::signal::kill", "nix::sys::signal::killpg", "libc::kill", "libc::killpg")
ABOOL = "std::sync::atomic::Atomic"


def inner_guard(g):
    return g.a[0].endswith("shell::SessionInner")


def attachment_field(F):
    for i, f in enumerate(F.adts[LCSTATE]["v"][0]["f"]):
        t = F.adts[LCSTATE]["tab"][f[1]] if f[1] >= 0 else None
        if t is not None and t.d == OPT and t.mentions("shpool_protocol::Attachment"):
            return i, f[0]
    return None


def is_wait(ev, site=False):
    if not ev.p.startswith(NOTIF + "::"):
        return False
    t = ev.destty() if site else place_ty(ev.body, ev.dest)
    return t.d == OPT


def is_kill(ev):
    return ev.p in KILLS


def is_header(s):
    return s.p.startswith("libshpool::protocol::decode_from") and s.ta and s.ta[0].d == HDRS


def mapget_of(v, d=10):
    """the table lookup a value was derived from: (map version, key)"""
    if not isinstance(v, V) or d == 0:
        return None
    if v.k == "op" and v.a[0] == "mapget":
        return v.a[1], v.a[2]
    if v.k == "ref":
        return mapget_of(v.a[0][1], d - 1) if v.a[0][0] == "D" else None
    for x in v.a:
        if isinstance(x, V):
            r = mapget_of(x, d - 1)
            if r:
                return r
    return None


def unref(E, env, v):
    n = 0
    while v.k == "ref" and n < 4:
        v = E.read(env, v.a[0], v.a[1])
        n += 1
    return v


class AttachRule(SliceRule):
    name = "attach-automaton"
    K = 6

    def __init__(self, ctx):
        SliceRule.__init__(self, ctx)
        self.att = attachment_field(ctx.F)
        self.hv, self.waits, self.atom_true, self.atom_need, self.seen = {}, {}, {}, set(), set()
        ad = ctx.F.adts[HDRS]
        self.variants = {int(x["d"]): x["n"] for x in ad["v"]}
        self.statuses = [x["n"] for x in ctx.F.adts[STATUS]["v"]]

    def slice_roots(self):
        return self.entry_roots()

    def start(self, root):
        return frozenset()

    def on_spawn(self, S, ev, clo):
        return frozenset(x for x in S.st if x[0] == "req")

    def relevant(self, s):
        from ..models import LOCKS
        L = LOCKS.get(s.p)
        if L is not None and L[0] < len(s.ta) and s.ta[L[0]].s.endswith("shell::SessionInner"):
            return True
        if any(s.argty(i).peel().d == REPLY for i in range(len(s.t[2]))):
            return True
        return bool(table_site(s) or is_wait(s, True) or is_header(s) or publish_site(s))

    def rel_bodies(self):
        # whoever writes the lifecycle state, and the relay that learns about the shell's exit
        F = self.ctx.F
        out = set()
        for b in F.bodies.values():
            if any((F2 := b.lty(i).peel()).d == LCSTATE or "SessionLifecycleState" in b.lty(i).s and "Guard" in b.lty(i).s for i in range(len(b.locals))):
                out.add(b.p)
        return out

    # ---------------------------------------------------------------- helpers
    def tbl(self, S, tags):
        """numbers of the table guards a tagged value comes from"""
        return {t[1] for t in tags if isinstance(t, tuple) and t[0] == "tbl"}

    def add(self, S, *fs):
        S.st = S.st | frozenset(fs)

    def drop(self, S, *names):
        S.st = frozenset(x for x in S.st if x[0] not in names)

    def has(self, S, name, n=None):
        return any(x[0] == name and (n is None or x[1] == n) for x in S.st)

    def req(self, S):
        for x in S.st:
            if x[0] == "req":
                return x[1]
        return None

    def where(self, body):
        return self.ctx.G.owner(body.p)

    def rep(self, S, cat, key, msg):
        self.E.report(S, cat, key, msg)

    def ok(self, cat, inst):
        self.seen.add((cat, inst))

    # ---------------------------------------------------------------- events
    def lock_tags(self, g):
        if table_guard(g):
            return [("tbl", g.a[2])]
        return []

    def result_tags(self, S, ev):
        if is_header(ev):
            return ["hdr"]
        return None

    def on_result(self, S, ev, ret):
        if is_header(ev):
            hv = self.E.get(mk("dc", ret, 0), ("f", 0, "0"))
            self.hv[mk("discr", hv)] = 1
            self.drop(S, "req", "debt", "rec", "none", "ann", "id", "exited", "alive", "dead", "evid", "flag", "busy", "private")
        op = table_op(ev)
        if op in ("insert", "remove", "remove_entry") and not (ev.argty(0).peel().d or "").endswith("Entry"):
            self.mutated(S, ev, op, ret)

    def on_branch(self, S, v, val):
        if val in (0, 1) or isinstance(val, int):
            if v in self.hv:
                n = self.variants.get(val)
                if n:
                    self.drop(S, "req")
                    self.add(S, ("req", n))
                return
        for a, x in atoms(v, val):
            if a.k == "discr" and a.a[0] in self.waits:
                what = self.waits[a.a[0]]      # (table guard or None, key)
                n, key = what
                if n is not None and not any(table_guard(g) and g.a[2] == n for g in S.env.held):
                    n = None                   # a notifier kept from earlier: the caller's own session
                if x == 1:
                    if n is None:
                        self.add(S, ("evid",))
                        self.drop(S, "private")
                    else:
                        self.add(S, ("exited", n, key), ("dead", n))
                elif x == 0 and n is not None:
                    self.add(S, ("alive", n, key))
            elif a.k == "op" and a.a[0] == "ptr_eq":
                p, q = self.tbl(S, a.a[1].tags), self.tbl(S, a.a[2].tags)
                for n in (p - q) | (q - p):
                    if x == 1:
                        self.add(S, ("id", n))
                        self.ok("identity-check", self.where(S.frame.body))
                    elif self.has(S, "debt"):
                        self.drop(S, "debt", "none", "ann")      # another session has the name now
            elif a.k == "discr" and a.a[0].k == "op" and a.a[0].a[0] == "mapget" and x == 0 and self.tbl(S, a.a[0].tags):
                if self.has(S, "debt"):
                    self.drop(S, "debt", "none", "ann")          # the entry is gone
            elif a.k == "S" and x == 1:
                for t in a.tags:
                    if isinstance(t, tuple) and t[0] == "atom":
                        self.add(S, ("flag", t[1]))

    def on_call(self, S, ev):
        E = self.E
        if is_wait(ev):
            a = unref(E, S.env, ev.args[0])
            mg = mapget_of(ev.args[0]) or mapget_of(a)
            tags = E.deep_tags(S.env, ev.args[0], 2) | ev.args[0].tags | a.tags
            ns = self.tbl(S, tags)
            r = E.fresh(S, "wait", [("tbl", n) for n in ns])
            self.waits[r] = (min(ns) if ns else None, mg[1] if mg else None)
            E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
            return Act(ret=r)
        if ev.p.startswith(ABOOL) and ev.args:
            last = ev.p.rsplit("::", 1)[-1]
            if "bool" not in (ev.argty(0).peel().s or ""):
                return None
            r, q = E.deref(ev.args[0])
            ident = (r[-2:] if r[0] in ("L", "P") else str(r)[:80], str(q))
            if last in ("store", "swap", "fetch_or") and len(ev.args) > 1:
                v = ev.args[1]
                if not (v.k == "i" and v.a[0] == 0):
                    self.atom_true.setdefault(ident, set()).add((self.has(S, "evid"), "%s:%s" % (ev.body.file, ev.span[0]), ev.body.p))
                return Act(ret=UNIT) if last == "store" else None
            if last == "load":
                return Act(ret=E.fresh(S, "aload", [("atom", ident)]))
            return None
        if is_kill(ev):
            tags = E.deep_tags(S.env, ev.args[0]) | ev.args[0].tags
            ns = self.tbl(S, tags)
            w = self.where(ev.body)
            for n in ns:
                if self.req(S) == "Kill" or self.has(S, "id", n):
                    self.ok("signal-justified", "%s serving %s" % (w, self.req(S)))
                    self.add(S, ("dead", n))
                else:
                    self.rep(S, "stray-kill", w, "a table session's shell is signalled although neither a kill request nor an identity check on this path justifies it")
            if not ns:
                self.drop(S, "private")
            return None
        if is_publish(ev):
            if event_variant(E, ev) == "SessionDetached" and self.has(S, "debt"):
                self.add(S, ("ann",))
                self.settle(S)
            return Act(ret=UNIT)
        if any(ev.argty(i).peel().d == REPLY for i in range(len(ev.ops))):
            for i in range(len(ev.ops)):
                if ev.argty(i).peel().d == REPLY:
                    self.replied(S, ev, ev.load(i))
        return None

    def replied(self, S, ev, h):
        st = self.E.load(S.env, self.E.get(h, ("f", 0, "status")))
        n = self.statuses[st.a[1]] if st.k == "agg" else None
        if n is None:
            k = self.E.known(S.env, mk("discr", st))
            n = self.statuses[k] if k is not None else None
        if n == "Busy":
            if self.has(S, "busy") or self.has(S, "alive"):
                self.ok("busy-justified", self.where(ev.body))
            else:
                self.rep(S, "spurious-busy", self.where(ev.body), "an attach is answered busy although nobody was found attached or first on this path")
            self.drop(S, "busy")
        elif n in ("Attached", "Created") and self.has(S, "busy"):
            self.rep(S, "busy-ignored", self.where(ev.body), "an attach to a session somebody is attached to is answered %s" % n)

    def settle(self, S):
        if self.has(S, "none") and self.has(S, "ann"):
            self.ok("detach-recorded", "%s" % self.where(S.frame.body))
            self.drop(S, "debt", "none", "ann")

    def on_trylock(self, S, g, ev, good):
        if inner_guard(g) and self.req(S) == "Attach" and not good:
            self.add(S, ("busy",))

    def on_acquire(self, S, g, ev, trying):
        if inner_guard(g):
            tags = frozenset(t for r in (g.a[3],) if r[0] == "D" for t in r[1].tags)
            if self.tbl(S, tags):
                if trying and g.a[1] != "mt":
                    self.ok("attach-lock-probed", self.where(ev.body))
                else:
                    self.rep(S, "attach-waits", self.where(ev.body), "the attach lock of a session from the table is waited for instead of probed")

    def on_release(self, S, g):
        if table_guard(g):
            n = g.a[2]
            S.st = frozenset(x for x in S.st if not (x[0] in ("id", "exited", "dead") and x[1] == n))
        if inner_guard(g) and self.has(S, "debt") and not any(inner_guard(h) for h in S.env.held if h is not g):
            self.rep(S, "attach-lock-dropped", self.where(S.frame.body), "the attach lock is given up while its client is still recorded as attached")

    def on_store(self, S, root, path, v, body, span):
        if self.att is None or not path:
            return
        hit = None
        lcg = [g for g in S.env.held if g.a[0].endswith("SessionLifecycleState") and g.a[3] == root and path[:len(g.a[4])] == g.a[4]]
        if path[-1][0] == "f" and path[-1][-1] == self.att[1] and (lcg or ("$data",) not in path):
            hit = v
        elif lcg and path[-1] == ("$data",):
            hit = self.E.get(v, ("f",) + self.att)
        if hit is None or not lcg:
            return
        tags = root[1].tags if root[0] == "D" else frozenset()
        ns = self.tbl(S, tags)
        w = self.where(S.frame.parent.body if S.frame.parent else body)
        is_some = hit.k == "agg" and hit.a[0] == OPT and hit.a[1] == 1
        is_none = hit.k == "agg" and hit.a[0] == OPT and hit.a[1] == 0
        if is_some:
            self.ok("attachment-recorded", w)
            if ns:
                if not any(inner_guard(g) for g in S.env.held):
                    self.rep(S, "takeover-unlocked", w, "a table session is recorded as attached without its attach lock")
                if self.has(S, "busy"):
                    self.rep(S, "busy-ignored", w, "a session somebody is attached to is changed by another attach")
                self.drop(S, "none", "ann")
                self.add(S, ("debt",))
            else:
                self.add(S, ("rec",))
        elif is_none:
            for n in ns:
                if self.has(S, "id", n) or self.req(S) == "Detach":
                    self.ok("detach-identity", "%s serving %s" % (w, self.req(S)))
                else:
                    self.rep(S, "stray-detach", w, "a session is recorded as detached on behalf of a client that was not shown to be attached to that very session")
            if self.has(S, "debt"):
                self.add(S, ("none",))
                self.settle(S)
            self.drop(S, "rec")
        elif self.has(S, "debt") or ns:
            self.rep(S, "attachment-unknown", w, "the attachment of a session is overwritten with an undetermined value")

    def mutated(self, S, ev, op, ret):
        E = self.E
        w = self.where(ev.body)
        r, q, m = None, None, None
        guards = [g for g in S.env.held if table_guard(g)]
        ns = {g.a[2] for g in guards}
        key = E.load(S.env, ev.args[1]) if len(ev.args) > 1 else None
        hadold = (ret.k == "agg" and ret.a[1] == 1) or E.known(S.env, mk("discr", ret)) == 1
        if op == "insert":
            self.ok("insert-judged", w)
            if hadold and not any(x[0] == "exited" and x[1] in ns and (x[2] is key or x[2] is None) for x in S.st):
                self.rep(S, "clobber", w, "a table entry is replaced although its shell was not found to have exited under the same table lock")
            if not any(inner_guard(g) for g in S.env.held):
                self.rep(S, "insert-unlocked", w, "a new session becomes visible before its attach lock is held by its first client")
            self.drop(S, "private")
            if self.has(S, "rec"):
                self.drop(S, "rec", "none", "ann")
                self.add(S, ("debt",))
        else:
            kill = self.req(S) == "Kill" and "hdr" in (E.deep_tags(S.env, ev.args[1]) | (key.tags if key is not None else EMPTY))
            ident = any(self.has(S, "id", n) for n in ns)
            flags = {x[1] for x in S.st if x[0] == "flag"}
            why = self.has(S, "evid") or any(self.has(S, "dead", n) for n in ns)
            if not why and not kill and flags:
                self.atom_need.add(frozenset(flags))
                why = True
            if not kill and not ident:
                self.rep(S, "stray-removal", w, "a table entry is removed by name alone, without a kill request or a check that it is the session meant")
            elif not kill and not why:
                self.rep(S, "removal-reason", w, "a table entry is removed although neither its exit was observed nor its shell signalled")
            else:
                self.ok("removal-justified", "%s serving %s" % (w, self.req(S)))
            if self.has(S, "debt"):
                self.ok("debt-removed", w)
                self.drop(S, "debt", "none", "ann")

    def on_return(self, S, fr, v):
        rt = fr.body.lty(0)
        if rt.d == RES and rt.args and rt.args[0].d == SESSION and fr.body.kind in ("fn", "method"):
            k = v.a[1] if v.k == "agg" else None
            if k == 0:
                self.add(S, ("private",))
                self.ok("session-created", self.where(fr.body))
        elif rt.d == SESSION:
            self.add(S, ("private",))
            self.ok("session-created", self.where(fr.body))

    def on_end(self, S, v):
        if self.has(S, "debt"):
            if self.has(S, "none") and not self.has(S, "ann"):
                self.rep(S, "detach-unannounced", "end", "a client is recorded as gone without a SessionDetached event")
            elif self.has(S, "ann"):
                self.rep(S, "detach-unrecorded", "end", "a client's end is announced but the session stays recorded as attached")
            else:
                self.rep(S, "attachment-leak", "end", "serving an attach ends while the session is still recorded as attached by this client")
        if self.has(S, "private"):
            self.rep(S, "orphan-shell", "end", "a session was started but neither entered the table nor was killed")
        if self.has(S, "busy"):
            self.rep(S, "busy-unanswered", "end", "an attach that found the session busy ends without a busy answer")

    def settle_atoms(self):
        """of the flags read as 'the shell exited' before a removal, one must only be raised where the exit was observed"""
        for flags in sorted(self.atom_need, key=str):
            bad = None
            for ident in sorted(flags, key=str):
                wrong = sorted((w, fn) for evid, w, fn in self.atom_true.get(ident, ()) if not evid)
                if not wrong:
                    for _, _, fn in sorted(self.atom_true.get(ident, ()), key=str):
                        self.ok("exit-flag-raised-on-exit", self.ctx.G.owner(fn))
                    break
                bad = bad or wrong
            else:
                for where, fn in bad:
                    self.ctx.bad("exit-flag", self.ctx.G.owner(fn), "the flag read as 'the shell has exited' is raised without having observed the exit", where)


def atoms(v, val):
    """(atom, value) pairs a branch decides"""
    if v.k == "un" and v.a[0] == "Not" and isinstance(val, int):
        return atoms(v.a[1], 1 - val)
    if v.k == "op" and v.a[0] in ("Eq", "Ne") and val in (0, 1):
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if b.k == "i" and b.a[0] in (0, 1) and a.k in ("discr", "S", "un", "op"):
                eq = (val == 1) == (v.a[0] == "Eq")
                return atoms(a, b.a[0] if eq else 1 - b.a[0])
    if isinstance(val, tuple) and len(val[1]) == 1 and v.k in ("discr", "S"):
        x = next(iter(val[1]))
        if x in (0, 1):
            return [(v, 1 - x)]
    if isinstance(val, int):
        return [(v, val)]
    return []


def run_attach(ctx, cats, oks):
    """run the automaton and keep the reports of some categories"""
    r = AttachRule(ctx)
    before = len(ctx.viol)
    ctx.engine(r)
    r.settle_atoms()
    keep = [v for v in ctx.viol if v["key"].split("|")[0] in cats or v["key"].startswith("analysis")]
    dropped = {v["key"] for v in ctx.viol} - {v["key"] for v in keep}
    ctx.viol = keep
    ctx.obl = [o for o in ctx.obl if "%s|%s" % (o[0], o[1]) not in dropped]
    for c, i in sorted(r.seen):
        if c in oks:
            ctx.ok(c, i)
    return r
