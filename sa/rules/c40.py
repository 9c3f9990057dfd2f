"""C40: a client passes on the size of its terminal."""
from .part import *
from .c17 import deep
from .c39 import steps

EXPLAIN = ("On the client, four parts are explored on all paths. The signal thread: it asks to be told of SIGWINCH, handles every one before it looks at the next signal, and goes on whatever comes of it. "
           "The handler: unless it fails, it sends one resize request, with the size read from its own terminal after the signal came, for the session named in the slot shared with the attach loop. "
           "The attach loop: before each attach (other than in the background) the slot holds the name that is about to be attached to. The attach request: its size is the one read from the client's terminal. "
           "Reading a size takes rows for rows and columns for columns.")
ASSUME = ["unwinding paths are not followed", "the kernel sends SIGWINCH for every change of size", "that the daemon then applies the size is C23"]

SIZE = "shpool_protocol::TtySize"
HEADER = "shpool_protocol::ConnectHeader"
MSGREQ = "shpool_protocol::SessionMessageRequest"
PAYLOAD = "shpool_protocol::SessionMessageRequestPayload"
RESIZE = "shpool_protocol::ResizeRequest"
HDR = "shpool_protocol::AttachHeader"
SIGWINCH = 28
COPY = {"clone", "to_string", "to_owned", "into", "from", "deref", "as_str", "as_ref", "borrow", "clone_into", "to_string_lossy", "unwrap", "expect"}


def reads_size(F):
    return {p for p, b in F.bodies.items() if b.kind != "closure" and p.startswith("libshpool::") and b.lty(0).d == RES and b.lty(0).args and b.lty(0).args[0].d == SIZE}


def tags_all(E, S, v, d=5):
    """tags of a value and of what it points to"""
    if not isinstance(v, V) or d == 0:
        return frozenset()
    if v.k == "ref":
        return tags_all(E, S, E.load(S.env, v), d - 1)
    out = frozenset(v.a[1]) if v.k == "S" else frozenset()
    for x in v.a:
        for y in flat(x):
            out |= tags_all(E, S, y, d - 1)
    return out


class Handler(Part):
    """what is done about one change of size"""
    name = "resize-request"
    K = 4

    def __init__(self, ctx, roots, sizes, follow):
        Part.__init__(self, ctx, roots)
        self.sizes, self.follow = sizes, follow

    def opaque(self, body):
        return body.p not in self.follow

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        if p in self.sizes:
            a = ev.load(0) if n else None
            if a is not None and a.k == "i" and a.a[0] not in (0, 1, 2):
                self.rep(S, "wrong-size", ev, "the size is read from something other than the client's terminal")
            self.ok("sizes read", ev)
            return Act(ret=self.result(S, "size", RES, ["size"]))
        if l == "lock" and n == 1 and "Mutex" in p and "String" in ev.argty(0).s:
            r = self.result(S, "slot", RES, ["slot"])
            return Act(ret=r) if "std::sync" in p else None
        if l in COPY and n >= 1:
            t = tags_all(E, S, ev.args[0]) & {"slot", "size"}
            if t and not ev.argty(0).peel().d == RES:
                return Act(ret=E.fresh(S, "copy", sorted(t)))
        if n >= 2 and any(ev.argty(i).peel().d == HEADER for i in range(n)) and ev.p in E.F.bodies:
            v = next(E.load(S.env, ev.args[i]) for i in range(n) if ev.argty(i).peel().d == HEADER)
            self.sent(S, ev, v)
            return Act(ret=self.result(S, "wrote"))
        b = E.F.bodies.get(p)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def part(self, v, adt):
        """the value of this type inside v"""
        if not isinstance(v, V):
            return None
        if v.k == "agg" and v.a[0] == adt:
            return v
        for x in v.a:
            for y in flat(x):
                r = self.part(y, adt) if isinstance(y, V) else None
                if r is not None:
                    return r
        return None

    def sent(self, S, ev, v):
        m, z = self.part(v, MSGREQ), self.part(v, RESIZE)
        if m is None or z is None:
            return self.rep(S, "wrong-request", ev, "a change of size is answered with some other request")
        if "sent" in S.st:
            self.rep(S, "wrong-request", ev, "a change of size is sent twice")
        name = next(x for (nm, t), x in zip(fields(self.E.F, MSGREQ), m.a[2]) if t is not None and "String" in t.s)
        if "slot" not in tags_all(self.E, S, name):
            self.rep(S, "wrong-session", ev, "a change of size is sent for a session other than the one named in the shared slot")
        if not self.own(S, z.a[2][0]):
            self.rep(S, "wrong-size", ev, "the size sent is not the one read from the client's terminal")
        self.ok("resize requests", ev)
        self.add(S, "sent")

    def own(self, S, v):
        """the size that was read, or one put together from its parts"""
        v = self.E.load(S.env, v) if v.k == "ref" else v
        if v.k != "agg" or v.a[0] != SIZE:
            return "size" in origin(v)
        for i, ((nm, _), x) in enumerate(zip(fields(self.E.F, SIZE), v.a[2])):
            ss, t = steps(self.E.F, x)
            if nm in ("rows", "cols") and ("size" not in t or not ss or ss[0] not in (i, nm)):
                return False
        return True

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and x == 1 and "size" in origin(a.a[0]):
                self.add(S, "failed")

    def on_end(self, S, v):
        r = v if v.k == "agg" else None
        err = r is not None and r.a[0] == RES and r.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1
        if "sent" not in S.st and not err and "failed" not in S.st:
            self.rep(S, "not-sent", None, "a change of size is not passed on", " " + S.frame.body.p)


class Signals(Part):
    """the thread that waits for signals"""
    name = "signal-thread"
    K = 4

    def __init__(self, ctx, roots, handlers):
        Part.__init__(self, ctx, roots)
        self.handlers = handlers
        self.sigs = set()

    def opaque(self, body):
        return body.p in self.handlers or body.kind != "closure" and not body.p.startswith("libshpool::attach")

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        if p in self.handlers:
            self.ok("handled signals", ev)
            self.drop(S, "sig")
            r = self.result(S, "handled", RES, ["handled"])
            return Act(ret=r)
        if l in ("next", "wait", "pending", "forever") and n and "signal_hook" in ev.argty(0).s:
            if l == "next":
                self.loop(S, ev)
                sig = E.fresh(S, "signal", ["signal"])
                self.sigs.add(sig)
                self.ok("waits for signals", ev)
                return Act(forks=[(S.st - {"over"} | {"sig", "in"}, agg(OPT, 1, (sig,))), (S.st | {"over"}, agg(OPT, 0, ()))])
        return None

    def loop(self, S, ev):
        if "sig" in S.st:
            self.rep(S, "skipped", ev, "a change of size is not handled")
        self.drop(S, "sig", "in")

    def on_branch(self, S, v, val):
        if v in self.sigs and isinstance(val, tuple) and SIGWINCH in val[1]:
            self.drop(S, "sig", "in")
        for a, x in both(v, val):
            if a in self.sigs and x != SIGWINCH:
                self.drop(S, "sig", "in")
            elif a.k == "op" and a.a[0] in ("Eq", "Ne") and isinstance(x, int) and a.a[1] in self.sigs and a.a[2].k == "i":
                if ((a.a[0] == "Eq") == bool(x)) != (a.a[2].a[0] == SIGWINCH):
                    self.drop(S, "sig", "in")

    def on_end(self, S, v):
        if "in" in S.st and "over" not in S.st:
            self.rep(S, "stops", None, "the client stops passing on changes of size after one of them", " " + S.frame.body.p)

    def on_diverge(self, S, ev):
        if "in" in S.st:
            self.rep(S, "stops", ev, "the client stops passing on changes of size after one of them")

    on_unwrap_fail = on_diverge


class Loop(Part):
    """the slot names the session that is attached to"""
    name = "session-slot"
    K = 6

    def __init__(self, ctx, roots, attach, applies, slot):
        Part.__init__(self, ctx, roots)
        self.attach, self.applies, self.slot = attach, applies, slot

    def opaque(self, body):
        return body.p in self.attach or body.p in self.applies or body.kind != "closure" and not any(x in body.p for x in self.slot) and not (body.p.startswith("libshpool::attach") and any("Mutex<" in body.lty(i).s for i in range(1, body.argc + 1)))

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        if p in self.applies:
            self.ok("names worked out", ev)
            self.drop(S, "synced")
            return Act(ret=E.fresh(S, "resolved", ["resolved"]))
        if p in self.attach:
            self.ok("attaches", ev)
            if "synced" not in S.st and "background" not in S.st:
                self.rep(S, "stale-slot", ev, "the client attaches to a session that is not the one changes of its size are sent to")
            return Act(ret=self.result(S, "attached"))
        if l in COPY and n >= 1:
            x = E.load(S.env, ev.args[0])
            if "resolved" in steps(E.F, x)[1] and ev.argty(0).peel().s.endswith("String"):
                if l == "clone_into" and n == 2:
                    self.add(S, "synced")
                return Act(ret=E.fresh(S, "copy", ["resolved"]))
        if l == "clone_from" and n == 2 and "resolved" in tags_all(E, S, ev.args[1]):
            self.add(S, "synced")
        if l == "lock" and n == 1 and "std::sync" in p and "String" in ev.argty(0).s:
            return Act(ret=self.result(S, "slot", RES, ["slotguard"]))
        if l in ("push_str", "extend", "write_str") and n == 2 and "resolved" in tags_all(E, S, ev.args[1]):
            self.ok("slot updates", ev)
            self.add(S, "synced")
            return Act(ret=UNIT)
        if l in ("replace", "swap") and "mem::" in p and any("String" == t.s.rsplit("::", 1)[-1] for t in ev.ta):
            if any("resolved" in tags_all(E, S, a) for a in ev.args):
                self.add(S, "synced")
        if l == "new" and "Mutex" in p and n == 1 and "resolved" in tags_all(E, S, ev.args[0]):
            self.ok("slots made", ev)
            self.add(S, "synced")
        b = E.F.bodies.get(p)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def on_store(self, S, root, path, v, body, span):
        if "resolved" in tagset(v):
            self.ok("slot updates", type("e", (), {"body": body}))
            self.add(S, "synced")

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            ss, _ = steps(self.E.F, a)
            if ss and self.is_background(ss) and x == 1:
                self.add(S, "background")
            if a.k == "un" and a.a[0] == "Not" and isinstance(a.a[1], V) and self.is_background(steps(self.E.F, a.a[1])[0]) and x == 0:
                self.add(S, "background")

    def is_background(self, ss):
        names = [f[0] for f in self.E.F.adts["libshpool::attach::Attach"]["v"][0]["f"]]
        return any(x == "background" or isinstance(x, int) and x < len(names) and names[x] == "background" for x in ss)


def tagset(v):
    return frozenset(v.a[1]) if isinstance(v, V) and v.k == "S" else frozenset()


def run(ctx):
    ctx.rule("each change of size: one request, with the terminal's size, for the session attached to; the handler never stops")
    F, G = ctx.F, ctx.G
    sizes = reads_size(F)
    ctx.floor("functions that read a terminal's size", len(sizes), 1)
    makers = {p for p in made_in(F, G, {RESIZE}) if p.startswith("libshpool::") and "::daemon::" not in p}
    # the handler is the outermost function of the client that leads to the request without waiting for signals
    waits = {s.body.p for s in G.sites if last(s) in ("next", "wait", "forever") and s.t[2] and "signal_hook" in s.argty(0).s and s.body.p.startswith("libshpool::") and "::daemon::" not in s.body.p}
    wup = G.up(waits) | waits
    up = (G.up(makers) | makers) - wup - {G.owner(w) for w in waits}
    handlers = {s.p for s in G.sites if s.body.p in waits and s.p in up}
    follow = {p for p in G.reach(handlers) | handlers if p in F.bodies and p.startswith("libshpool::attach") or p in F.bodies and F.bodies[p].kind == "closure"}
    h = Handler(ctx, handlers, sizes, follow)
    s = Signals(ctx, waits, handlers)
    ctx.floor("handlers of changes of size", len(handlers), 1)
    # the signals waited for
    regs = [x for x in G.sites if last(x) in ("new", "with_exfiltrator") and "signal_hook" in x.p and "iterator" in x.p and x.body.p.startswith("libshpool::attach")]
    for x in regs:
        consts = {c for bb in x.body.blocks for st in bb["s"] if st[1] is not None for c in nums(st[2])} | {c for bb in x.body.blocks for st in bb["s"] if st[1] is not None and st[2][0] == "agg" for o in st[2][2] for c in nums(o)} | promoted(F, x.body)
        ctx.check(str(SIGWINCH) in consts, "not-registered", G.owner(x.body.p), "the client does not ask to be told when its terminal changes size", x.where())
    ctx.floor("registrations for signals", len(regs), 1)
    attach = {p for p, b in F.bodies.items() if b.kind != "closure" and p.startswith("libshpool::attach") and b.lty(0).d == RES and "AttachResult" in b.lty(0).s}
    applies = {s_.p for s_ in G.sites if last(s_) == "apply" and s_.p in F.bodies and "ResolvedTemplates" in F.bodies[s_.p].lty(0).s}
    # what works the names out may be reached through a helper
    applies |= {p for p, b in F.bodies.items() if b.kind != "closure" and p.startswith("libshpool::attach") and "<" not in p and (b.lty(0).d or "").endswith("ResolvedTemplates") and applies & G.reach([p])}
    roots = {G.owner(s_.body.p) for s_ in G.sites if s_.p in attach and s_.body.p not in attach}
    holder = {G.owner(w) for w in waits}
    types = {(F.bodies[p].lty(1).peel().d or "?") for p in holder if F.bodies[p].argc}
    slot = {t + "::" for t in types if t.startswith("libshpool::")} | {p for p in holder}
    lo = Loop(ctx, roots, attach, applies, slot)
    ctx.floor("attach loops", len(roots), 1)
    run_parts(ctx, [h, s, lo])
    floors(ctx, [h], "resize requests", "sizes read")
    floors(ctx, [s], "handled signals", "waits for signals")
    floors(ctx, [lo], "attaches", "names worked out", "slots made", "slot updates")
    headers(ctx, sizes)
    mapping(ctx, sizes)


def nums(rv):
    out = set()
    def go(x):
        if isinstance(x, dict):
            if "v" in x and isinstance(x["v"], dict) and "i" in x["v"]:
                out.add(str(x["v"]["i"]))
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(rv)
    return out


def promoted(F, b):
    out = set()
    for p, q in F.bodies.items():
        if p.startswith(b.p + "::promoted"):
            for bb in q.blocks:
                for st in bb["s"]:
                    if st[1] is not None:
                        out |= nums(st[2])
    return out


def headers(ctx, sizes):
    """the size in an attach request"""
    F, G = ctx.F, ctx.G
    n = 0
    fs = [f[0] for f in F.adts[HDR]["v"][0]["f"]]
    fi = next(i for i, (nm, t) in enumerate(fields(F, HDR)) if t is not None and t.d == SIZE)
    for p, b in sorted(F.bodies.items()):
        if not p.startswith("libshpool::"):
            continue
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is None or st[2][0] != "agg" or st[2][1][0] != "adt" or st[2][1][1] != HDR:
                    continue
                n += 1
                src = sources(b, st[2][2][fi])
                calls = {x[-1] for x in src if x[0] == "call"}
                good = calls & sizes or any(G.reach({c}) & sizes for c in calls if c in F.bodies) or any(x[0] == "param" for x in src)
                if not good:
                    ctx.bad("wrong-size", "attach|" + G.owner(p), "the size in an attach request is not the one of the client's terminal", p, [])
                else:
                    ctx.ok("sizes in attach requests", G.owner(p))
    ctx.floor("attach requests built", n, 1)


def mapping(ctx, sizes):
    """a size that is read has the kernel's rows as rows and its columns as columns"""
    F, G = ctx.F, ctx.G
    n = 0
    for p in sorted(sizes):
        for q in sorted({x for x in G.reach({p}) | {p} if x in F.bodies}):
            b = F.bodies[q]
            for bb in b.blocks:
                for st in bb["s"]:
                    if st[1] is None or st[2][0] != "agg" or st[2][1][0] != "adt" or st[2][1][1] != SIZE:
                        continue
                    for (nm, _), o in zip(fields(F, SIZE), st[2][2]):
                        got = {x[1] for x in sources(b, o) if x[0] == "field" and x[1].startswith("ws_")}
                        want = {"rows": "ws_row", "cols": "ws_col"}.get(nm)
                        if want is None or not got:
                            continue
                        n += 1
                        ctx.check(got == {want}, "wrong-size", "%s|%s" % (G.owner(q), nm), "the %s of a size are read from %s" % (nm, ", ".join(sorted(got))), q)
    ctx.floor("parts of a size", n, 2)
