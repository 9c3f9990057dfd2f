"""C20: a broken configuration edit changes nothing, and the watcher goes on watching."""
from .part import *
from .c17 import SHORT, deep
from .c19 import CFG

EXPLAIN = ("The function that replaces the shared configuration is explored with every read and parse left open: once a parse failed nothing is put in place of the configuration, what is put there is a merged one, and no failure of a "
           "file makes the function panic (which would poison the lock and end the watching thread). The watching thread is explored with every kind of message on its channels and every kind of file event: it ends only when its "
           "command channel is closed or tells it to stop, an elapsed timer runs the handler, a change to a watched file arms the timer, a lost event or a watch error is followed by going through all paths, a creation, removal or renaming "
           "by going through those whose watched directory or whose next component is concerned, every path gone through has a watch put on it whatever happens to the others, and after a watch is dropped the other paths sharing it are looked for.")
ASSUME = ["the notify crate delivers the kernel's file events", "a file that cannot be read counts as absent (documented behaviour)"]

EVT = "notify::Event"
KINDS = ("Any", "Access", "Create", "Modify", "Remove", "Other")
POISON = ("PoisonError", "StripPrefixError")


def poison(ev):
    return any(x in t.s for t in ev.ta for x in POISON) or len(ev.ops) and any(x in ev.argty(0).s for x in POISON)


class Reload(Part):
    name = "reload"
    K = 4

    def __init__(self, ctx, roots, inner, merges):
        Part.__init__(self, ctx, roots)
        self.inner, self.merges = inner, merges

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.inner

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if ev.p.startswith("toml::") and l in ("from_str", "from_slice", "try_into") and any(t.d == CFG for t in ev.ta):
            self.ok("files parsed on reload", ev)
            return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "parsed", ["loaded"]),))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "perr"),)))])
        if ev.p in self.merges:
            return Act(ret=E.fresh(S, "merged", ["loaded"]))
        if ev.p.startswith("std::fs::"):
            return Act(ret=self.result(S, "read"))
        if l == "next" and n == 1 and (ev.trait == "std::iter::Iterator" or "Iterator" in ev.q):
            return Act(forks=[(S.st, agg(OPT, 0, ())), (S.st, agg(OPT, 1, (E.fresh(S, "file"),)))])
        if l == "default" and ev.destty() is not None and ev.destty().d == CFG:
            return Act(ret=E.fresh(S, "default", ["default"]))
        if l in ("replace", "swap", "clone_from", "take") and n and ev.argty(0).peel().d == CFG:
            self.put(S, ev, E.load(S.env, ev.args[-1]) if n > 1 else E.fresh(S, "default", ["default"]))
        return None

    def on_acquire(self, S, g, ev, trying):
        if len(ev.ops) and ev.argty(0).mentions(CFG):
            self.ok("configuration locked for writing", ev)

    def on_store(self, S, root, path, v, body, span):
        for g in S.env.held:
            if g.k == "guard" and CFG.split("::", 1)[1] in str(g.a[0]) and g.a[3] == root and tuple(path[:len(g.a[4]) + 1]) == g.a[4] + (("$data",),):
                self.put(S, type("e", (), {"body": body}), v)

    def put(self, S, ev, v):
        self.ok("configuration replaced", ev)
        if "failed" in S.st:
            self.rep(S, "replaced", ev, "the configuration is replaced although a file could not be parsed")
        elif not deep(v) & {"loaded", "default"}:
            self.rep(S, "replaced", ev, "the configuration is replaced by something that was not loaded from the files")

    def on_unwrap_fail(self, S, ev, pay):
        if not poison(ev):
            self.rep(S, "panic", ev, "a failure while reloading panics, which ends the watching thread and poisons the configuration")

    def on_diverge(self, S, ev):
        self.rep(S, "panic", ev, "a failure while reloading ends the thread or the process")


def is_paths(t):
    """the map from watched files to what is watched for them"""
    t = t.peel()
    return t.d == "std::collections::HashMap" and len(t.args) > 1 and t.args[0].d == "std::path::PathBuf" and t.args[1].d != "std::path::PathBuf"


def is_watch(s, name="watch"):
    return last(s) == name and ("notify::Watcher" in s.q or s.trait == "notify::Watcher" or "notify::Watcher" in s.p)


def component(v):
    """0: the directory watched for an entry, 1: the next component below it"""
    while isinstance(v, V):
        if v.k in ("fld", "vf") and v.a[1] in (0, 1, "0", "1"):
            return int(v.a[1])
        v = v.a[0] if v.k in ("fld", "vf", "dc", "drf", "idx") else None
    return None


PASS = {"map", "collect", "cloned", "copied", "to_owned", "clone", "into_iter", "iter", "iter_mut", "into_keys", "into_values", "keys", "values", "values_mut", "chain", "extend", "drain", "enumerate", "peekable", "from_iter", "rev", "inspect"}
LOSE = {"take", "skip", "step_by", "take_while", "skip_while", "map_while", "truncate", "nth", "dedup", "clear"}
ALL = {"all", "some", "lazy"}


class Watch(Part):
    name = "watch"
    K = 4

    def __init__(self, ctx, roots, scope):
        Part.__init__(self, ctx, roots)
        self.inner = scope
        self.watchers = ctx.G.up(ctx.G.calling(is_watch))
        self.places = []

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.inner

    def done(self, S, tags):
        for t in ("all", "some"):
            if t in tags:
                self.add(S, ("did", t))
        if "all" in tags:
            self.add(S, "scan")

    def wait(self, S, ev):
        """the thread is about to look for the next message: everything the last one asked for has been done"""
        if self.has(S, "need"):
            need = {x[1] for x in S.st if isinstance(x, tuple) and x[0] == "need"}
            did = {x[1] for x in S.st if isinstance(x, tuple) and x[0] == "did"}
            for n in sorted(need):
                if n not in did and "all" not in did:
                    self.rep(S, "not-rewatched", ev, "after %s not every path concerned has a watch put on it again" % {"all": "events were lost or a watch failed", "some": "a creation, removal or renaming"}[n])
                else:
                    self.ok("rewatched " + n, ev)
        if "unwatched" in S.st and "scan" not in S.st:
            self.rep(S, "shared", ev, "a watch is dropped without looking for the other paths that depend on it")
        if "due" in S.st:
            self.rep(S, "handler", ev, "the timer elapsed, but the configuration is not reloaded")
        if "must-arm" in S.st:
            k = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "kind"), "?")
            if "armed" not in S.st and not any(self.some(S, self.E.read(S.env, r, q)) for r, q in self.places):
                self.rep(S, "not-armed", ev, "a watched file changed (%s), but no reload is scheduled" % k)
            else:
                self.ok("reload after " + k, ev)
        S.st = S.st & {"armed"}

    def message(self, S, ev):
        E, F = self.E, self.E.F
        t = ev.destty()
        inner = t.args[0] if t is not None and t.args else None
        if t is None or inner is None:
            return None
        closed = (S.st | {"closed"}, agg(RES, 1, (E.fresh(S, "closed"),)))
        s = inner.s
        if "notify" in s:
            out = [closed, (S.st | {("need", "all"), ("kind", "watch error")}, agg(RES, 0, (agg(RES, 1, (E.fresh(S, "nerr"),)),)))]
            self.ok("messages: file events", ev)
            a = F.adts[EVT]["v"][0]["f"]
            for i, k in enumerate(KINDS):
                for j, mk_ in enumerate(("Any", "Data", "Metadata", "Name", "Other") if k == "Modify" else ("",)):
                    kind = agg("notify::EventKind", i, (agg("notify::event::ModifyKind", j, (E.fresh(S, "mk"),) if j in (1, 2, 3) else ()),) if k == "Modify" else () if k in ("Any", "Other") else (E.fresh(S, "ek"),))
                    e = agg(EVT, 0, tuple(kind if f[0] == "kind" else E.fresh(S, "ev" + f[0], ["evpaths"] if f[0] == "paths" else []) for f in a))
                    st = S.st | {("kind", k + mk_)}
                    if k in ("Create", "Remove") or mk_ == "Name":
                        st = st | {("need", "some")}
                    out.append((st, agg(RES, 0, (agg(RES, 0, (e,)),))))
            return Act(forks=out)
        if "Instant" in s:
            self.ok("messages: timer", ev)
            return Act(forks=[(S.st | {"due"}, agg(RES, 0, (E.fresh(S, "when"),))), (S.st | {"due"}, agg(RES, 1, (E.fresh(S, "when"),)))])
        if inner.d in F.adts and inner.d.startswith("libshpool::"):
            self.ok("messages: commands", ev)
            out = [closed]
            for i, v in enumerate(F.adts[inner.d]["v"]):
                out.append((S.st | ({"stop"} if not v["f"] else frozenset()), agg(RES, 0, (agg(inner.d, i, tuple(E.fresh(S, "arg%d" % j) for j in range(len(v["f"])))),))))
            return Act(forks=out)
        return None

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if ev.p.startswith("crossbeam_channel::") and (l in ("select", "select_timeout", "select_deadline", "ready", "try_select")):
            self.wait(S, ev)
            return None
        if ev.p.startswith("crossbeam_channel::") and l in ("recv", "recv_timeout", "recv_deadline", "try_recv"):
            if "SelectedOperation" not in ev.p:
                self.wait(S, ev)
            return self.message(S, ev)
        if l in ("call_mut", "call", "call_once") and ev.p.startswith("std::ops::Fn") and ev.p not in E.F.bodies and n and ev.argty(0).peel().k == "param":
            self.ok("handler runs", ev)
            self.drop(S, "due")
            return Act(ret=UNIT)
        if l == "need_rescan" and EVT.rsplit("::", 1)[-1] in ev.p:
            self.ok("lost events", ev)
            return Act(forks=[(frozenset(x for x in S.st if not (isinstance(x, tuple) and x[0] == "kind")) | {("need", "all"), ("kind", "lost events"), "must-arm"}, B(1)), (S.st, B(0))])
        if is_watch(ev):
            self.ok("watches put", ev)
            self.drop(S, "pending")
            return Act(ret=self.result(S, "watched"))
        if is_watch(ev, "unwatch"):
            self.ok("watches dropped", ev)
            self.drop(S, "did")
            self.add(S, "unwatched")
            return Act(ret=self.result(S, "unwatched"))
        if not n:
            return None
        if l == "ancestors" and ev.p.startswith("std::path::"):
            self.drop(S, "anc")
            return None
        if is_paths(ev.argty(0)):
            if l == "contains_key":
                self.ok("events about watched files", ev)
                return Act(ret=E.fresh(S, "orig", ["orig"] if "evpaths" in deep(E.load(S.env, ev.args[1])) or True else []))
            if l in PASS | {"retain", "into_iter"}:
                return Act(ret=E.fresh(S, "paths", ["all"]))
            if l in ("entry", "get", "insert", "remove", "get_mut", "remove_entry"):
                t = deep(E.load(S.env, ev.args[1])) & ALL
                r = E.fresh(S, l, sorted(t))
                if l != "entry":
                    E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
                return Act(ret=r)
        tags = deep(E.load(S.env, ev.args[0]))
        if l in ("eq", "ne", "contains") and n == 2 or l == "any" and n == 2 and "evpaths" in tags:
            vs = [E.load(S.env, a) for a in ev.args]
            if l == "any":
                c = E.closure_of(S, ev.args[1])
                vs = [vs[0]] + [E.load(S.env, x) for x in (c.a[1] if c is not None and c.k == "clo" and len(c.a) > 1 and isinstance(c.a[1], tuple) else ())]
            cs = {component(x) for x in vs if "evpaths" not in deep(x) and deep(x) & ALL} - {None}
            if any("evpaths" in deep(x) for x in vs) and cs and self.has(S, "pending"):
                hit, miss = (S.st | {"hit"}, S.st | {("cmp", c) for c in cs})
                return Act(forks=[(hit if l != "ne" else miss, B(1)), (miss if l != "ne" else hit, B(0))])
        if l in ("push", "push_back", "insert", "extend", "entry") and n >= 2 and "hit" in S.st and any(deep(E.load(S.env, a)) & ALL for a in ev.args[1:]):
            self.add(S, "kept")
        if "Iterator" in ev.q or ev.trait in ("std::iter::Iterator", "std::iter::IntoIterator", "std::iter::DoubleEndedIterator"):
            c = next((x for x in (self.E.closure_of(S, a) for a in ev.args[1:]) if x is not None and x.k == "clo"), None)
            w = c is not None and c.a[0] in self.watchers
            if l == "next" and n == 1 and ev.argty(0).peel().d == "std::path::Ancestors":
                # a path is its own first ancestor
                site = ("anc", ev.body.p, ev.bb)
                some = (S.st | {site}, agg(OPT, 1, (E.fresh(S, "ancestor", sorted(tags & ALL)),)))
                return Act(forks=[some] + ([(S.st - {site}, agg(OPT, 0, ()))] if site in S.st else []))
            if l == "next" and n == 1 and "std::path::" not in ev.p:
                site = (ev.body.p, ev.bb)
                st = S.st
                if ("pending", site) in st:
                    if "hit" in st and "kept" not in st or "hit" not in st and not {("cmp", 0), ("cmp", 1)} <= st:
                        st = st | {("skip", site)}
                    else:
                        # looked at: chosen and put on a list, or not concerned by the event
                        st = st | {("looked", site)} | ({"listed"} if "hit" in st else frozenset())
                st = st - {("pending", site), "hit", "kept", ("cmp", 0), ("cmp", 1)}
                t0 = t = tags & ALL
                end0 = frozenset()
                S0 = S.st
                if ("seen", site) not in st:
                    # there is nothing to go through
                    end0 = {("need", x) for x in t} | ({("need", "some")} if "all" in t else set())
                if ("looked", site) in st:
                    t = frozenset()
                    if "listed" not in st and ("skip", site) not in st:
                        end0 = {("need", "some")}
                if not ("skip", site) in st and t:
                    S.st = st
                    self.done(S, t)
                    end = S.st
                    S.st = S0
                else:
                    end = st | ({"scan"} if "all" in t else frozenset())
                return Act(forks=[(end - {("skip", site), ("pending", site), ("looked", site), ("seen", site)} - end0, agg(OPT, 0, ())), (st | ({("pending", site), ("seen", site)} if t0 else frozenset()), agg(OPT, 1, (E.fresh(S, "item", sorted(t0 | (tags & {"evpaths"}))),)))])
            if l in ("filter", "filter_map") and tags & ALL:
                if "all" in tags:
                    self.add(S, "scan")
                self.sel(ev, c)
                return Act(ret=E.fresh(S, "chosen", ["some"]))
            if l in LOSE and tags & ALL:
                return Act(ret=E.fresh(S, "part"))
            if l == "map" and w and tags & ALL:
                return Act(ret=E.fresh(S, "lazy", sorted((tags & ALL) | {"lazy"})))
            if tags & ALL and (l in ("for_each", "fold") and w or "lazy" in tags and l in ("fold", "for_each", "collect", "count", "max", "min", "sum", "last", "reduce", "partition")):
                self.done(S, tags)
                return Act(ret=E.fresh(S, "folded"))
            if l in PASS and tags & ALL:
                return Act(ret=E.fresh(S, "seq", sorted(tags & ALL)))
        return None

    def sel(self, ev, c):
        """the closure that selects the paths an event concerns"""
        if c is not None:
            self.ctx.selectors.add(c.a[0])

    def on_branch(self, S, v, val):
        if val == 1 and "orig" in origin(v) and self.has(S, "kind"):
            self.add(S, "must-arm")

    def on_store(self, S, root, path, v, body, span):
        f = path[-1] if path else None
        if isinstance(f, tuple) and f[0] == "f" and len(f) > 2 and f[2] in self.ctx.deadlines:
            if (root, path) not in self.places:
                self.places.append((root, path))
            self.drop(S, "armed")
            if self.some(S, self.E.load(S.env, v)):
                self.add(S, "armed")

    def some(self, S, x):
        return x.k == "agg" and x.a[1] == 1 or self.E.known(S.env, mk("discr", x)) == 1

    def on_unwrap_fail(self, S, ev, pay):
        if not poison(ev):
            self.rep(S, "panic", ev, "the watching thread panics when an operation fails")

    def on_end(self, S, v):
        ev = type("e", (), {"body": S.frame.body})
        if not S.st & {"closed", "stop"}:
            self.rep(S, "ends", ev, "the watching thread ends although nobody told it to")
        else:
            self.ok("ends when told to", ev)


class Select(Part):
    """which paths an event concerns: those whose watched directory, or whose next component below it, is one of the event's paths"""
    name = "select"
    K = 6

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.per = {r: set() for r in roots}

    def opaque(self, body):
        return "config_watcher" not in body.p

    def on_call(self, S, ev):
        l, n = last(ev), len(ev.ops)
        if l in ("eq", "ne", "contains") and n == 2 and "Path" in ev.argty(0).s + ev.argty(1).s:
            cs = [component(self.E.load(S.env, a)) for a in ev.args]
            if l == "contains":
                cs = cs[1:]
            cs = [c for c in cs if c is not None]
            if cs:
                self.per[S.root].add(cs[0])
                self.ok("comparisons", ev)
                hit = S.st | {"hit"}
                return Act(forks=[(hit if l != "ne" else S.st, B(1)), (S.st if l != "ne" else hit, B(0))])
        if l == "all" and "Iterator" in ev.q:
            self.rep(S, "selects", ev, "a path is only watched again if all of an event's paths concern it")
        return None

    def on_return(self, S, frame, v):
        if "hit" in S.st and frame.body.kind == "closure" and frame.body.lty(0).s == "bool":
            k = self.E.known(S.env, v)
            if k == 0 or v.k == "un" and v.a[0] == "Not":
                self.rep(S, "selects", type("e", (), {"body": frame.body}), "a path an event is about is not watched again")
            S.st = S.st - {"hit"} if k == 1 and frame.parent is not None else S.st


def run(ctx):
    ctx.rule("parse failure => configuration kept; every event => concerned paths watched again; thread ends only on request")
    F, G = ctx.F, ctx.G
    ctx.selectors = set()
    merges = {b.p for b in F.bodies.values() if b.kind != "closure" and b.p.startswith("libshpool::") and b.lty(0).peel().d == CFG and [b.lty(i).peel().d for i in range(1, b.argc + 1)] == [CFG, CFG]}
    writes = {s.body.p for s in G.sites if last(s) in ("write", "try_write", "lock", "get_mut") and "sync" in s.p and s.t[2] and s.argty(0).mentions(CFG)}
    parse = G.calling(lambda s: s.p.startswith("toml::") and any(t.d == CFG for t in s.ta))
    inner = (G.up(parse) | writes) & {b for b in F.bodies if b.startswith("libshpool::config::")}
    ctx.floor("functions that replace the configuration", len(writes), 1)
    r = Reload(ctx, writes, inner, merges)
    ctx.deadlines = {f[0] for a, d in F.adts.items() if a.startswith("libshpool::config_watcher::") for v in d["v"] for f in v["f"] if f[1] >= 0 and "Option" in d["tab"][f[1]].s and "Instant" in d["tab"][f[1]].s}
    watchers = G.calling(is_watch)
    mod = {p.rsplit("::", 1)[0] for p in watchers}
    scope = {b for b in F.bodies if "config_watcher" in b}
    spawned = set()
    for b in F.bodies.values():
        if b.kind == "closure" and G.reach({b.p}) & watchers and any(s.body.p == G.owner(b.p) and last(s) == "spawn" for s in G.sites):
            spawned.add(b.p)
    ctx.floor("watching threads", len(spawned), 1)
    w = Watch(ctx, spawned, scope)
    run_parts(ctx, [r, w])
    floors(ctx, [r], "files parsed on reload", "configuration locked for writing", "configuration replaced")
    floors(ctx, [w], "messages: file events", "messages: timer", "messages: commands", "handler runs", "lost events", "watches put", "watches dropped", "rewatched all", "rewatched some",
           "reload after Create", "reload after Remove", "reload after ModifyData", "reload after ModifyName", "reload after ModifyAny", "reload after lost events")
    sel = Select(ctx, {c for c in ctx.selectors if c in F.bodies and F.bodies[c].lty(0).s == "bool"})
    run_parts(ctx, [sel])
    for r, c in sorted(sel.per.items()):
        for i, what in ((0, "watched directory"), (1, "next component")):
            ctx.check(i in c, "selects", "component%d|%s" % (i, G.owner(r)), "the paths to watch again are chosen without looking at the %s of each" % what, r)
