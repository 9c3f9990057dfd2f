"""C18: setting or unsetting a variable takes effect everywhere at once."""
from .part import *
from .c14 import tagsof
from .c16 import wire_fns, wire_type
from .c17 import SHORT, deep, parts_for

EXPLAIN = ("The function that serves a variable change is explored on all paths: under one hold of the variable lock the stored set is copied, exactly the requested entry is put in (if the request has a value) or taken out (if it has none), "
           "the result is stored, every set that is sent to a session is made from the changed set without leaving anything out, and nothing is stored or sent after the reply. The loops over the sessions leave out none of them and stop for none of them. What is read back is made from the whole stored set. "
           "On the client side the answer to 'move elsewhere?' is true exactly when the session name template, applied to the variables just received, differs from the name attached to, the relay ends with a switch exactly when the answer is true, "
           "and the names used from then on come from the templates applied to the variables received.")
ASSUME = ["unwinding paths are not followed", "the order in which two racing changes reach one session is not judged"]

REQ = "shpool_protocol::ModifyVarRequest"
MS = "shpool_protocol::MaybeSwitch"
CHANGED = {"ins", "rem"}
PARTIAL = SHORT | {"filter", "filter_map", "retain", "truncate", "drain", "clear", "flat_map", "skip_while", "chain"}


def is_map(t):
    t = t.peel()
    return (t.d or "").endswith("HashMap") and len(t.args) >= 2 and t.args[0].s.endswith("String") and t.args[1].s.endswith("String")


def map_guard(g):
    return "HashMap" in g.a[0] and "Session" not in g.a[0] and g.a[0].count("String") == 2


class Change(Part):
    name = "variable-change"
    K = 4

    def __init__(self, ctx, roots, enc, read):
        Part.__init__(self, ctx, roots)
        self.enc, self.read = enc, read
        self.name = "variables-read" if read else "variable-change"

    def opaque(self, body):
        p = body.p
        return not (body.kind == "closure" or p.startswith("libshpool::daemon::server::") and p not in self.enc and p in self.ctx.inner18)

    def root_tags(self, body, i):
        return ("req",) if body.lty(i + 1).peel().d == REQ else ()

    def shared(self, S, a):
        if a.k != "ref":
            return False
        return protected(S, a.a[0], a.a[1])

    def val(self, S):
        """is a value given in the request? (1, 0 or None)"""
        for x in S.st:
            if isinstance(x, tuple) and x[0] == "val":
                return x[1]
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and self.fieldof(a.a[0]) == "val" and isinstance(x, int):
                self.drop(S, "val")
                self.add(S, ("val", x))

    def fieldof(self, v):
        """field of the request a value was taken from"""
        n = 0
        while isinstance(v, V) and n < 8:
            n += 1
            if v.k == "fld" and v.a[0].k == "S" and "req" in v.a[0].a[1]:
                names = [f[0] for f in self.ctx.F.adts[REQ]["v"][0]["f"]]
                x = v.a[1]
                return x if x in names else names[x] if isinstance(x, int) and x < len(names) else None
            v = v.a[0] if v.k in ("fld", "vf", "dc", "drf") and isinstance(v.a[0], V) else None
        return None

    def what(self, S, v):
        E = self.E
        v = E.load(S.env, v) if v.k == "ref" else v
        f = self.fieldof(v)
        if f:
            return f
        t = tagsof(v)
        return next((x for x in ("var", "val") if x in t), None)

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l, n = ev.p, last(ev), len(ev.ops)
        if p in self.enc:
            if wire_type(ev.ta) is None or any(t.peel().d == "std::vec::Vec" for t in ev.ta):
                return Act(ret=self.result(S, "encoded"))
            for i in range(n):
                v = E.load(S.env, ev.args[i])
                if v.k == "agg" and v.a[0] == MS:
                    self.whole(S, ev, v)
            if not self.read:
                if "stored" not in S.st:
                    self.rep(S, "not-stored", ev, "a variable change is acknowledged although it has not been stored")
                self.ok("acknowledgements", ev)
            self.add(S, "replied")
            return Act(ret=self.result(S, "replied"))
        if l in ("clone", "to_owned", "to_string", "into", "from", "clone_from") and n == 1:
            a = E.load(S.env, ev.args[0])
            w = self.what(S, a)
            if w:
                return Act(ret=E.fresh(S, "req-" + w, [w]))
            if is_map(ev.argty(0)):
                self.ok("copies of the set", ev)
                if map_guard_held(S):
                    self.add(S, "cloned")
                return Act(ret=E.fresh(S, "copy", sorted({"map"} | (deep(a) & (CHANGED | {"partial"})))))
            if ev.argty(0).peel().d == MS:
                return Act(ret=a)
        if n and is_map(ev.argty(0)) and not self.read:
            a = ev.args[0]
            if l in ("insert", "remove", "remove_entry"):
                k = self.what(S, ev.args[1])
                if k != "var":
                    self.rep(S, "wrong-entry", ev, "the entry changed is not the one the request names")
                if l == "insert":
                    w = self.what(S, ev.args[2])
                    if w != "val" or self.val(S) == 0:
                        self.rep(S, "wrong-entry", ev, "the value stored is not the one in the request")
                elif self.val(S) != 0:
                    self.rep(S, "wrong-entry", ev, "a variable is deleted although the request may give a value for it")
                if has(S, "changed"):
                    self.rep(S, "wrong-entry", ev, "the set is changed a second time")
                t = "ins" if l == "insert" else "rem"
                self.ok("entry " + ("put in" if l == "insert" else "taken out"), ev)
                self.add(S, "changed")
                if a.k == "ref":
                    old = E.read(S.env, a.a[0], a.a[1])
                    E.write(S.env, a.a[0], a.a[1], E.fresh(S, "newset", sorted({"map", t} | (deep(old) & {"partial"}))))
                    if self.shared(S, a):
                        self.add(S, "stored")
                        if "replied" in S.st:
                            self.rep(S, "late", ev, "the change is stored after it was acknowledged")
                return Act(ret=E.fresh(S, "oldval"))
            if l in ("clear", "retain", "drain", "extend", "entry", "get_mut", "values_mut", "iter_mut", "extract_if") and a.k == "ref" and a.a[2]:
                self.rep(S, "wrong-entry", ev, "the set of variables is changed otherwise than by the requested entry (%s)" % l)
        if l in ("replace", "swap", "take") and "mem::" in p and any(is_map(t) for t in ev.ta):
            for i in range(n):
                if self.shared(S, ev.args[i]):
                    v = ev.args[1 - i] if n == 2 else UNIT
                    v = E.load(S.env, v) if v.k == "ref" else v
                    self.store(S, ev.body, v)
            return Act(ret=E.fresh(S, "oldset"))
        if "Iterator" in ev.q or ev.trait == "std::iter::Iterator":
            if l in PARTIAL and n and deep(E.load(S.env, ev.args[0])) & {"map"}:
                return Act(ret=E.fresh(S, "some", sorted(deep(E.load(S.env, ev.args[0])) | {"partial"})))
        if l.startswith("send") and "crossbeam_channel" in p and any(t.d == MS for t in ev.ta):
            v = E.load(S.env, ev.args[1])
            self.whole(S, ev, v)
            if "replied" in S.st:
                self.rep(S, "late", ev, "a session hears about a change only after it was acknowledged")
            return Act(ret=self.result(S, "sent"))
        if l in ("iter", "into_iter", "map", "cloned", "copied", "collect", "keys", "values") and n:
            t = deep(E.load(S.env, ev.args[0]))
            if t & {"map"} or is_map(ev.argty(0)):
                if l in ("keys", "values"):
                    t = t | {"partial"}
                if l == "map":
                    f = ev.args[1]
                    if f.k in ("clo",) and not pairwise(self.ctx, f.a[0]):
                        t = t | {"partial"}
                if is_map(ev.argty(0)):
                    t = t | {"map"}
                return Act(ret=E.fresh(S, "entries", sorted(x for x in t if isinstance(x, str))))
        b = F.bodies.get(p)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def whole(self, S, ev, v):
        fs = fields(self.ctx.F, MS)
        if v.k != "agg" or v.a[0] != MS:
            return self.rep(S, "wrong-set", ev, "the set of variables sent cannot be told")
        for (nm, t), x in zip(fs, v.a[2]):
            if t is not None and "(std::string::String, std::string::String)" in t.s or "Vec<" in (t.s if t else ""):
                g = deep(x)
                if "map" not in g or "partial" in g or not self.read and not g & CHANGED:
                    self.rep(S, "wrong-set", ev, "the set of variables sent is not the complete %s set" % ("stored" if self.read else "new"))
                self.ok("sets sent", ev)

    def store(self, S, body, v):
        g = deep(v)
        self.ok("stores", type("e", (), {"body": body}))
        if "map" not in g or not g & CHANGED or "partial" in g:
            self.rep(S, "wrong-set", None, "what is stored is not the previous set with the requested change", " " + body.p)
        if "stale" in S.st:
            self.rep(S, "lost-update", None, "the set of variables is copied under one hold of its lock and stored under another", " " + body.p)
        if "replied" in S.st:
            self.rep(S, "late", None, "the change is stored after it was acknowledged", " " + body.p)
        self.add(S, "stored")

    def on_store(self, S, root, path, v, body, span):
        if not self.read and protected(S, root, path):
            self.store(S, body, v)

    def on_release(self, S, g):
        if map_guard(g) and "cloned" in S.st and "stored" not in S.st:
            self.drop(S, "cloned")
            self.add(S, "stale")

    def on_end(self, S, v):
        pass


def has(S, n):
    return n in S.st


def map_guard_held(S):
    return any(map_guard(g) for g in S.env.held if g.k == "guard")


def protected(S, root, path):
    """is this the data behind the held variable lock?"""
    return any(map_guard(g) and g.a[3] == root and tuple(path) == tuple(g.a[4]) + (("$data",),) for g in S.env.held if g.k == "guard")


def pairwise(ctx, clo):
    """the closure makes (key, value) of (key, value), in this order"""
    b = ctx.F.bodies.get(clo)
    if b is None:
        return True
    tups = [st[2] for bb in b.blocks for st in bb["s"] if st[1] is not None and st[1][0] == 0 and st[2][0] == "agg"]
    for rv in tups:
        if len(rv[2]) == 2:
            a, c = ({x[1] for x in sources(b, o) if x[0] == "field"} for o in rv[2])
            if "1" in a and "0" not in a or "0" in c and "1" not in c:
                return False
    return True


class Ask(Part):
    """closure asked whether to move"""
    name = "move-elsewhere"
    K = 4

    def opaque(self, body):
        return True

    def root_tags(self, body, i):
        return ("asked",) if body.lty(i + 1).peel().d == MS else ("mine",)

    def cmp(self, v, depth=6):
        """True: v says the names differ; False: v says they are the same; None: neither"""
        if v.k == "un" and v.a[0] == "Not":
            r = self.cmp(v.a[1])
            return None if r is None else not r
        if v.k == "op" and v.a[0] in ("Eq", "Ne"):
            a, b = tagsof(v.a[1]), tagsof(v.a[2])
            if "applied" in b:
                a, b = b, a
            if "applied" in a and "asked" in a and "mine" in b and "applied" not in b:
                return v.a[0] == "Ne"
        return None

    def on_call(self, S, ev):
        E = self.E
        if last(ev) == "apply" and ev.p.startswith("libshpool::template"):
            t = frozenset().union(*[tagsof(E.load(S.env, a)) for a in ev.args])
            return Act(ret=E.fresh(S, "applied", ["applied"] + [x for x in t if x in ("asked",)]))
        b = E.F.bodies.get(ev.p)
        if ev.p not in E.F.bodies and last(ev) in ("iter", "into_iter", "cloned", "collect", "map", "deref", "clone", "as_str", "as_ref"):
            t = frozenset().union(*[tagsof(E.load(S.env, a)) for a in ev.args]) if ev.args else ()
            return Act(ret=E.fresh(S, "x", sorted(x for x in t if isinstance(x, str))))
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            c = self.cmp(a)
            if c is not None and isinstance(x, int):
                self.drop(S, "differ", "same")
                self.add(S, "differ" if c == bool(x) else "same")

    def on_end(self, S, v):
        v = self.E.load(S.env, v)
        c = self.cmp(v)
        if c is True:
            return self.ok("answers", type("e", (), {"body": S.frame.body}))
        if v.k == "i" and ("differ" in S.st) == bool(v.a[0]) and ("same" in S.st) != bool(v.a[0]):
            return self.ok("answers", type("e", (), {"body": S.frame.body}))
        self.rep(S, "wrong-move", None, "the client may move (or stay) although the session name under the new variables is the same (is another)", " " + S.frame.body.p)


class Relay(Part):
    """the answer decides how the client's relay ends"""
    name = "move-when-asked"
    K = 3

    def __init__(self, ctx, roots, dec):
        Part.__init__(self, ctx, roots)
        self.dec = dec

    def opaque(self, body):
        return body.kind != "closure"

    def on_call(self, S, ev):
        E = self.E
        l = last(ev)
        if ev.trait in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce") and any(MS in str(t.s) for t in ev.ta) or l in ("call", "call_mut", "call_once") and len(ev.ops) == 2 and MS in ev.argty(1).s:
            self.ok("questions", ev)
            r = E.fresh(S, "answer", ["answer"])
            return Act(forks=[(S.st - {"yes", "no"} | {"yes"}, I(1)), (S.st - {"yes", "no"} | {"no"}, I(0))])
        b = E.F.bodies.get(ev.p)
        if l in ("read_into", "read_exact", "read") and len(ev.ops):
            if "yes" in S.st:
                self.rep(S, "stays", ev, "the relay goes on although the client is to move")
            self.drop(S, "yes", "no", "noted")
            if b is not None:
                return Act(ret=self.result(S, "read"))
        if b is not None and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def made(self, S, v):
        if v.k == "agg" and "PipeBytesResult" in str(v.a[0]):
            return self.ctx.F.adts[v.a[0]]["v"][v.a[1] or 0]["n"] == "MaybeSwitch"
        return any(self.made(S, y) for x in v.a for y in flat(x) if isinstance(y, V)) if v.k == "agg" else False

    local_stores = True

    def on_store(self, S, root, path, v, body, span):
        if self.made(S, v):
            if not {"yes", "noted"} & S.st:
                self.rep(S, "moves", None, "the relay ends with a switch that was not asked for", " " + body.p)
            self.ok("switches", type("e", (), {"body": body}))
            self.drop(S, "yes")
            self.add(S, "noted")

    def on_end(self, S, v):
        if "yes" in S.st:
            self.rep(S, "stays", None, "the client is to move, but the relay does not end with a switch", " " + S.frame.body.p)


def run(ctx):
    ctx.rule("variables: one entry changed, stored and sent whole, before the acknowledgement; a client moves exactly when its name changes")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    srv = [b for b in F.bodies.values() if b.kind != "closure" and b.p.startswith("libshpool::daemon::") and b.p not in enc]
    takes = {b.p for b in srv if any(is_map(b.lty(i)) or b.lty(i).peel().d in (REQ, MS) for i in range(1, b.argc + 1)) or is_map(b.lty(0)) or b.lty(0).mentions(MS)}
    takes |= {b.p for b in srv if any(s.p in ("parking_lot::lock_api::Mutex::<R, T>::lock",) or last(s) == "lock" for s in G.sites if s.body.p == b.p and any("HashMap" in t.s and t.s.count("String") == 2 for t in s.ta))}
    ctx.inner18 = takes
    change = {b.p for b in srv if any(b.lty(i).peel().d == REQ for i in range(1, b.argc + 1))}
    change -= {s.p for s in G.sites if s.p in change and s.body.p in change}
    mk_ms = made_in(F, G, {MS})
    replies = {G.owner(s.body.p) for s in G.sites if s.p in enc and wire_type(s.ta) == MS and not any(t.peel().d == "std::vec::Vec" for t in s.ta) and s.body.p.startswith("libshpool::daemon::server")}
    parts = [Change(ctx, change, enc, False), Change(ctx, replies, enc, True)]
    ctx.floor("functions that change variables", len(change), 1)
    ctx.floor("functions that read variables", len(replies), 1)
    asks = {b.p for b in F.bodies.values() if b.kind == "closure" and b.p.startswith("libshpool::attach") and b.lty(0).k == "bool" and any(b.lty(i).peel().d == MS for i in range(2, b.argc + 1))}
    ask = Ask(ctx, asks)
    ctx.floor("questions whether to move", len(asks), 1)
    askers = {s.body.p for s in G.sites if last(s) in ("call", "call_mut", "call_once") and len(s.t[2]) == 2 and MS in s.argty(1).s and s.body.p.startswith("libshpool::protocol")}
    ctx.floor("relays that ask", len(askers), 1)
    relay = Relay(ctx, askers, dec)
    everyone = parts_for(ctx, "change")
    run_parts(ctx, parts + [ask, relay] + everyone)
    floors(ctx, parts, "sets sent", "stores", "acknowledgements", "entry put in", "entry taken out")
    floors(ctx, [ask], "answers")
    floors(ctx, [relay], "questions", "switches")
    floors(ctx, everyone, "sessions acted on")
