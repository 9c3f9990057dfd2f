"""C08: the daemon's locks cannot deadlock."""
from .c07 import *

EXPLAIN = ("For every lock class (type of the protected data) each function that takes it is analysed path-sensitively; each blocking acquisition while a guard of the class "
           "is live is an edge of the lock order, which must be acyclic (an edge to itself is a re-acquisition). Each wait for another thread (channel, join, condition) "
           "while a guard is live is matched with the threads that can answer it (by the type sent, joined or notified): none of them may acquire that lock.")
ASSUME = ["unwinding paths are not followed", "two locks protecting the same type are one class", "embedder hooks take none of the daemon's locks"]

ANSWER = {"recv": "send", "recv_timeout": "send", "recv_deadline": "send", "next": "send", "send": "recv", "send_timeout": "recv", "send_deadline": "recv"}


class OrderRule(TableRule):
    def __init__(self, ctx, c):
        TableRule.__init__(self, ctx, frozenset([c]))
        self.c, self.name = c, "holding-" + c
        self.edges, self.waits = {}, {}

    def relevant(self, s):
        F, G = self.ctx.F, self.ctx.G
        if "test_hooks" in s.body.p or s.p in F.bodies:
            return False
        if not hasattr(self, "_under"):
            roots = G.calling(lambda x: x.p in LOCKS and self.mine_site(x))
            self.lockers = G.up(roots)
            self._under = set()
            for b in roots:
                self._under |= G.reach([b])
            for b in self.slice_roots():
                self._under |= G.reach([b])
        if s.p in LOCKS:
            return self.mine_site(s) or s.body.p in self._under
        return s.body.p in self._under and waits_for(s, True) is not None

    def on_acquire(self, S, g, ev, trying):
        w = self.ctx.G.owner(ev.body.p)
        if trying:
            return
        if any(self.mine(h) and h.a[2] != g.a[2] for h in S.env.held):
            self.edges.setdefault(cls(g), {}).setdefault(w, ("%s:%s" % (ev.body.file, ev.span[0]), [f.body.p for f in frames(S)] + list(trace(S))))

    def on_call(self, S, ev):
        held = self.held(S)
        if is_publish(ev):
            return Act(ret=UNIT)
        b = self.E.F.bodies.get(ev.p)
        if b is not None:
            if not held and "Guard" not in b.lty(0).s and b.kind != "closure" and not any(ev.argty(i).peel().k == "closure" for i in range(len(ev.ops))):
                return Act(opaque=True)
            return None
        if held:
            k = waits_for(ev)
            if k is not None and k[0] in ("send", "recv"):
                k += (self.end_of(ev),)
            if k is not None and not (k[0] == "notify" and self.guard_arg(S, ev)):
                self.waits.setdefault(k, {}).setdefault(self.ctx.G.owner(ev.body.p), "%s:%s" % (ev.body.file, ev.span[0]))
        return None

    def end_of(self, ev):
        for s in self.ctx.G.sites:
            if s.body is ev.body and s.span == ev.span and s.p == ev.p:
                return chan_end(s, self.ctx.F)
        return None

    def on_branch(self, S, v, val):
        pass

    def result_tags(self, S, ev):
        return None


def frames(S):
    f = S.frame
    while f is not None:
        yield f
        f = f.parent


def trace(S):
    return ()


def waits_for(s, site=False):
    """(kind, type) of what the call waits for"""
    p = s.p
    last = p.rsplit("::", 1)[-1]
    if ("crossbeam_channel" in p or "sync::mpsc" in p) and last in ANSWER and s.ta:
        if last == "send" and "mpsc" in p and "SyncSender" not in p:
            return None
        return ANSWER[last], short(s.ta[0])
    if last == "join" and "JoinHandle" in p and s.ta:
        return "end", short(s.ta[-1])
    if "Condvar" in p and last.startswith("wait"):
        return "notify", ""
    return None


def short(t):
    return re.sub(r"[A-Za-z_0-9]+::", "", t.s)


SPAWNS = ("std::thread::spawn", "std::thread::Builder::spawn", "std::thread::Scope::<'scope, 'env>::spawn")


LOCAL = ("local", "")


def chan_end(s, F):
    """where the channel end is kept: (struct, field), LOCAL, or None when that cannot be told"""
    for i in range(len(s.t[2])):
        t = s.argty(i).peel()
        if (t.d or "").endswith(("::Receiver", "::Sender", "::SyncSender")):
            o = s.t[2][i]
            return place_end(s.body, o.get("c") or o.get("m"), F)
    return None


def place_end(b, pl, F, d=8):
    for _ in range(8):
        if pl is None or d == 0:
            return None
        ty = b.lty(pl[0])
        best, clo = None, None
        for x in pl[1:]:
            if x == "*":
                ty = ty.args[0] if ty.args else ty
            elif isinstance(x, list):
                if ty.k == "closure":
                    clo = (ty.d, x[0])
                elif (ty.d or "").startswith("libshpool::"):
                    best = (ty.d, x[1])
                elif ty.k == "tuple" and b.lty(pl[0]) is ty:
                    return LOCAL
                ty = b.tys[x[2]] if x[2] >= 0 else ty
        if best:
            return best
        if clo:
            pb = F.bodies.get(F.bodies[clo[0]].parent) if clo[0] in F.bodies else None
            for bb in (pb.blocks if pb else ()):
                for st in bb["s"]:
                    if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "closure" and st[2][1][1] == clo[0]:
                        o = st[2][2][clo[1]]
                        return place_end(pb, o.get("c") or o.get("m"), F, d - 1)
            return None
        ds = [st[2] for bb in b.blocks for st in bb["s"] if st[1] is not None and st[1] == [pl[0]]]
        ds += [("call",) for bb in b.blocks if bb["t"][0] == "call" and bb["t"][3] == [pl[0]]]
        if len(ds) != 1:
            return None
        rv = ds[0]
        if rv[0] == "ref":
            pl = rv[2]
        elif rv[0] == "use":
            pl = rv[1].get("c") or rv[1].get("m")
        else:
            return None
    return None


def channel_pairs(ctx):
    """field -> fields holding the other end of the same channel, from where channels are made"""
    F, G = ctx.F, ctx.G
    peers = {}
    for s in G.sites:
        if s.p.rsplit("::", 1)[-1] not in ("bounded", "unbounded", "sync_channel", "channel") or not ("crossbeam_channel" in s.p or "mpsc" in s.p):
            continue
        b, tup = s.body, s.t[3][0]
        alias = {}                      # local -> end number
        ends = {0: set(), 1: set()}
        for _ in range(3):
            for bb in b.blocks:
                for st in bb["s"]:
                    if st[1] is None:
                        continue
                    rv = st[2]
                    if rv[0] == "use":
                        pl = rv[1].get("m") or rv[1].get("c")
                        if pl and pl[0] == tup and len(pl) == 2 and isinstance(pl[1], list) and len(st[1]) == 1:
                            alias[st[1][0]] = pl[1][0] if isinstance(pl[1][0], int) else int(pl[1][1])
                        elif pl and len(pl) == 1 and pl[0] in alias and len(st[1]) == 1:
                            alias[st[1][0]] = alias[pl[0]]
                    elif rv[0] == "agg" and rv[1][0] == "adt":
                        ad = F.adts.get(rv[1][1])
                        if ad is None:
                            continue
                        for i, o in enumerate(rv[2]):
                            pl = o.get("m") or o.get("c")
                            if pl and len(pl) == 1 and pl[0] in alias and i < len(ad["v"][0]["f"]):
                                ends[alias[pl[0]]].add((rv[1][1], ad["v"][0]["f"][i][0]))
        for x in ends[0] or {None}:
            for y in ends[1] or {None}:
                if x:
                    peers.setdefault(x, set()).add(y)
                if y:
                    peers.setdefault(y, set()).add(x)
    return peers


class Threads:
    """what each spawned thread can do (call graph without the threads it spawns)"""

    def __init__(self, ctx):
        G, F = ctx.G, ctx.F
        self.ctx = ctx
        self.spawned = {}
        self.peers = channel_pairs(ctx)
        for s in G.sites:
            last = s.p.rsplit("::", 1)[-1]
            if last in ("spawn", "spawn_scoped", "spawn_unchecked") and "thread" in s.p and "test_hooks" not in s.body.p:
                for i in range(len(s.t[2])):
                    t = s.argty(i)
                    if t.k == "closure" and t.d in F.bodies:
                        self.spawned[t.d] = short(F.bodies[t.d].lty(0))
        # a closure captured by another one runs there, unless its creator also calls it or passes it on
        self.captured = {}
        for b in F.bodies.values():
            for bb in b.blocks:
                for st in bb["s"]:
                    if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "closure":
                        for o in st[2][2]:
                            pl = o.get("c") or o.get("m")
                            if pl:
                                t = place_ty(b, pl).peel()
                                if t.k == "closure":
                                    self.captured.setdefault(t.d, set()).add(st[2][1][1])
        direct = set()
        for s in G.sites:
            for i in range(len(s.t[2])):
                t = s.argty(i).peel()
                if t.k == "closure":
                    direct.add((s.body.p, t.d))
        self.moved = {c for c in self.captured if not any(x == c for _, x in direct if _ == F.bodies[c].parent)}
        self.threads = {c: self.reach([c]) for c in self.spawned}

    def may_pair(self, e, end):
        if e is None or end is None:
            return True
        for x, y in ((e, end), (end, e)):
            if x != LOCAL and x in self.peers:
                return y in self.peers[x] or y == LOCAL and None in self.peers[x]
        return True

    def reach(self, cs):
        G = self.ctx.G
        seen, work = set(cs), list(cs)
        while work:
            x = work.pop()
            nxt = set(G.succ.get(x, ()))
            nxt = {y for y in nxt if not (y in self.moved and x not in self.captured[y])}
            nxt |= {c for c, by in self.captured.items() if x in by}
            for y in nxt:
                if y not in seen and y not in self.spawned:
                    seen.add(y)
                    work.append(y)
        return seen

    def unit(self, body):
        """the thread body a site belongs to, else its function"""
        for c, bodies in self.threads.items():
            if body == c or body in bodies and self.ctx.G.owner(body) == self.ctx.G.owner(c):
                return c
        return self.ctx.G.owner(body)

    def classes(self, u):
        bodies = self.threads.get(u) or self.reach([u])
        return {lock_class(s): s.where() for s in self.ctx.G.sites if s.p in LOCKS and "try" not in s.p.rsplit("::", 1)[-1] and s.body.p in bodies and "test_hooks" not in s.body.p}

    def answering(self, kind, ty, end=None):
        out = set()
        if kind == "end":
            return sorted(c for c in self.spawned if self.spawned[c] == ty)
        for s in self.ctx.G.sites:
            last = s.p.rsplit("::", 1)[-1]
            if "test_hooks" in s.body.p:
                continue
            if kind == "notify":
                if "Condvar" in s.p and last.startswith("notify"):
                    out |= {c for c, bodies in self.threads.items() if s.body.p in bodies}
            elif ("crossbeam_channel" in s.p or "mpsc" in s.p) and s.ta and short(s.ta[0]) == ty and last.replace("try_", "").startswith(kind) \
                    or kind == "recv" and "SelectedOperation" in s.p and last == "recv" and any(short(s.argty(i).peel()) == "Receiver<%s>" % ty for i in range(len(s.t[2]))):
                e = chan_end(s, self.ctx.F)
                if self.may_pair(e, end):
                    out.add(self.unit(s.body.p))
        return sorted(out)


def run(ctx):
    ctx.rule("lock order acyclic; no wait for a thread that needs a lock held while waiting")
    G, F = ctx.G, ctx.F
    sites = [s for s in G.sites if s.p in LOCKS and "test_hooks" not in s.body.p and s.body.p.lstrip("<").startswith("libshpool::")]
    classes = sorted({lock_class(s) for s in sites})
    T = Threads(ctx)
    edges = {}
    for c in classes:
        r = OrderRule(ctx, c)
        ctx.engine(r)
        for d, ws in r.edges.items():
            edges.setdefault(c, {})[d] = ws
        for k, ws in sorted(r.waits.items(), key=str):
            who = T.answering(*k)
            for w in sorted(ws):
                bad = [(t, T.classes(t)[c]) for t in who if c in T.classes(t)]
                inst = "%s held, waits for %s %s in %s" % (c, k[0], k[1], w)
                if bad:
                    ctx.bad("wait-under-needed-lock", inst, "waits for another thread while holding a lock that thread takes (%s)" % bad[0][1], ws[w], [t for t, _ in bad])
                else:
                    ctx.ok("wait-under-lock", "%s (answered by %s)" % (inst, ", ".join(sorted(G.owner(t).rsplit("::", 1)[-1] for t in who)) or "nobody but a timeout"))
    for c in sorted(edges):
        for d in sorted(edges[c]):
            back = cycle(edges, d, c)
            w0 = sorted(edges[c][d])[0]
            if back is not None:
                ctx.bad("lock-cycle", "%s -> %s in %s" % (c, d, w0), "taking %s while holding %s closes a cycle of the lock order: %s" % (d, c, " -> ".join([c] + back)),
                        edges[c][d][w0][0], edges[c][d][w0][1])
            else:
                ctx.ok("lock-order", "%s before %s (%s)" % (c, d, ", ".join(sorted(edges[c][d]))))
    ctx.floor("lock classes", len(classes), 1)
    ctx.floor("lock order edges", sum(len(x) for x in edges.values()), 1)
    ctx.floor("threads", len(T.threads), 1)


def cycle(edges, a, b):
    """a path a -> ... -> b"""
    par, work = {a: None}, [a]
    while work:
        x = work.pop(0)
        if x == b:
            out = []
            while x is not None:
                out.append(x)
                x = par[x]
            return out[::-1]
        for y in edges.get(x, ()):
            if y not in par:
                par[y] = x
                work.append(y)
    return None
