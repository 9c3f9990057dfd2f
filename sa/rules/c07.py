"""C07: no one client or session can stall the whole daemon."""
from .locklib import *

EXPLAIN = ("Path-sensitive held-lock analysis: on every path of every daemon thread, between acquiring and releasing the session table lock, each call is classified by "
           "type and callee: untimed channel operations, joins of threads not just found finished, sleeps, process waits, untimed condition waits and polls, blocking "
           "acquisition of an attach lock, and stream i/o without a timeout set on that path are violations, as are timed waits whose length comes from the client.")
ASSUME = ["unwinding paths are not followed", "publishing an event does not block (decided by C09)", "embedder hooks are not judged",
          "regular files and the terminal of the daemon's own log never block"]


class TableRule(SliceRule):
    name = "under-table-lock"
    K = 3

    def __init__(self, ctx, want=None):
        """want: classes of locks to watch; None: the session table"""
        SliceRule.__init__(self, ctx)
        self.want, self.inner = want, set()
        self.what = "the session table is locked" if want is None else "a lock needed under the session table lock is held (%s)" % ", ".join(sorted(want))
        if want:
            self.name = "under-" + "-".join(sorted(want))
        self.bounded, self.fin, self.nlocks = set(), {}, set()

    def slice_roots(self):
        """the functions that take the lock (and callers of functions that hand the guard out)"""
        G, F = self.ctx.G, self.ctx.F
        todo = {G.owner(b) for b in G.calling(lambda x: x.p in LOCKS and self.mine_site(x))}
        out = set()
        while todo:
            x = todo.pop()
            if x in out or x not in F.bodies:
                continue
            out.add(x)
            if "Guard" in F.bodies[x].lty(0).s:
                todo |= {G.owner(c) for c in G.pred.get(x, ())}
        return sorted(x for x in out if "test_hooks" not in x)

    def start(self, root):
        return frozenset()

    def on_spawn(self, S, ev, clo):
        return frozenset()

    def mine_site(self, s):
        return is_table_lock(s) if self.want is None else lock_class(s) in self.want

    def mine(self, g):
        return table_guard(g) if self.want is None else cls(g) in self.want

    def held(self, S):
        return any(self.mine(g) for g in S.env.held)

    def guard_arg(self, S, ev):
        """the guard is handed to the condition variable, which gives it up while waiting"""
        for a in ev.args:
            g = a
            for _ in range(4):
                if g.k != "ref":
                    break
                g = self.E.read(S.env, g.a[0], g.a[1])
            if g.k == "guard":
                return all(h.a[2] == g.a[2] for h in S.env.held if self.mine(h))
        return False

    def relevant(self, s):
        F, G = self.ctx.F, self.ctx.G
        if "test_hooks" in s.body.p:
            return False
        if s.p in LOCKS:
            if self.mine_site(s):
                return True
        elif s.p in F.bodies:
            return False
        if not hasattr(self, "_under"):
            self.lockers = G.up(G.calling(lambda x: x.p in LOCKS and self.mine_site(x)))
            self._under = set()
            for b in G.calling(lambda x: x.p in LOCKS and self.mine_site(x)):
                self._under |= G.reach([b])
        if s.body.p not in self._under or s.body.p.startswith(BUS):
            return False
        last = s.p.rsplit("::", 1)[-1]
        return blocking(s, True) is not None or last in TIMED or last in ("set_write_timeout", "set_read_timeout", "is_finished") or s.p in LOCKS

    def on_acquire(self, S, g, ev, trying):
        w = self.ctx.G.owner(ev.body.p)
        if self.mine(g):
            self.nlocks.add(w)
        elif self.held(S):
            if g.a[0].endswith("shell::SessionInner") and (not trying):
                self.E.report(S, "attach-lock", w, "an attach lock is waited for while " + self.what)
            else:
                if not trying:
                    self.inner.add(cls(g))
                self.bounded.add(("lock of " + cls(g), w))

    def on_call(self, S, ev):
        E = self.E
        last = ev.p.rsplit("::", 1)[-1]
        held = self.held(S)
        if is_publish(ev):
            return Act(ret=UNIT)
        if last == "is_finished" and "JoinHandle" in ev.p:
            r = E.fresh(S, "fin")
            self.fin[r] = E.load(S.env, ev.args[0])
            return Act(ret=r)
        if last in ("set_write_timeout", "set_read_timeout"):
            a = E.load(S.env, ev.args[1])
            k = "wto" if last == "set_write_timeout" else "rto"
            S.st = S.st - {k}
            if a.k == "agg" and a.a[1] == 1:
                S.st = S.st | {k}
            return None
        b = E.F.bodies.get(ev.p)
        if b is not None:
            if not held and ev.p not in self.lockers and "Guard" not in b.lty(0).s and b.kind != "closure":
                return Act(opaque=True)
            if not (held and any(x in t.s for t in ev.ta for x in STREAMS)):
                return None
        if not held:
            return None
        w = self.ctx.G.owner(ev.body.p)
        if last in TIMED and ("crossbeam" in ev.p or "Condvar" in ev.p or "mpsc" in ev.p):
            if any("hdr" in E.deep_tags(S.env, a) for a in ev.args[1:]):
                E.report(S, "client-timeout", w, "the length of a wait under the table lock is chosen by the client")
            self.bounded.add((last, w))
            return None
        b = blocking(ev) if b is None else "stream i/o"
        if b == "untimed wait for a condition" and self.guard_arg(S, ev):
            return None
        if b is None:
            return None
        if b == "thread join":
            v = strip(ev.args[0])
            if any(x[0] == "fin" and strip(x[1]) == v for x in S.st if isinstance(x, tuple)):
                self.bounded.add(("join of a finished thread", w))
                return None
        elif b == "stream i/o":
            rd = any(x in last for x in ("read", "decode", "deser")) or "::Read" in ev.q or "Deserialize" in ev.q
            if ("rto" if rd else "wto") in S.st:
                self.bounded.add(("i/o with a timeout: " + last, w))
                return None
        elif b == "poll":
            t = E.load(S.env, ev.args[-1])
            if t.k == "i" and t.a[0] >= 0 or "PollTimeout" not in repr(t) and t.k != "i":
                self.bounded.add(("poll", w))
                return None
        E.report(S, b.replace(" ", "-"), "%s %s" % (w, ev.p.rsplit("::", 2)[-2] + "::" + last), "%s (%s) while %s" % (b, ev.p, self.what))
        return None

    def result_tags(self, S, ev):
        if ev.p.startswith("libshpool::protocol::decode_from") and ev.ta and ev.ta[0].d == "shpool_protocol::ConnectHeader":
            return ["hdr"]
        return None

    def on_branch(self, S, v, val):
        if v.k == "un" and v.a[0] == "Not" and isinstance(val, int):
            v, val = v.a[1], 1 - val
        if v in self.fin and val == 1:
            S.st = S.st | {("fin", self.fin[v])}


def run(ctx):
    ctx.rule("table guard live => no call that can wait without bound; the same while holding any lock that is taken under the table guard")
    r = TableRule(ctx)
    ctx.engine(r)
    for w in sorted(r.nlocks):
        ctx.ok("table-critical-section", w)
    for b in sorted(r.bounded):
        ctx.ok("bounded", "%s in %s" % b)
    ctx.floor("functions that lock the table", len(r.nlocks), 1)
    ctx.floor("bounded waits under the table lock", len(r.bounded), 1)
    done, todo = set(), {c for c in r.inner if c != "SessionInner"}
    while todo:
        q = TableRule(ctx, frozenset(todo))
        ctx.engine(q)
        for w in sorted(q.nlocks):
            ctx.ok("dependent-critical-section", w)
        for b in sorted(q.bounded):
            ctx.ok("dependent-bounded", "%s in %s" % b)
        done |= todo
        todo = {c for c in q.inner if c not in done and c != "SessionInner" and "HashMap<String, Box<Session>>" != c}
