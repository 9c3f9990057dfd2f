"""C36: requested log levels are applied exactly."""
from ..models import call_clo
from .part import *
from .c16 import wire_fns

EXPLAIN = ("The handler that changes the log filter is explored once per level the protocol can carry: what is put in the filter is the filter constant of that very level, every level is covered, and the change is acknowledged "
           "only after the filter took it. The names the command line offers are read off the value-enum implementation: each level is offered, under its own name, and none under another's; the client sends the level it was given.")
ASSUME = ["the constants of the tracing crate mean what their names say"]

LEVEL = "shpool_protocol::LogLevel"
# variant of LevelFilter's inner level (tracing orders them from trace to error)
INNER_OF = {"off": None, "error": 4, "warn": 3, "info": 2, "debug": 1, "trace": 0}


def inner(v):
    """the level a filter constant holds: None (off), 0..4, or False if it is not a constant"""
    if v.k == "agg" and len(v.a[2]) == 1:
        x = v.a[2][0]
        if x.k == "agg" and x.a[1] in (0, None) and not x.a[2]:
            return None
        for _ in range(4):
            if x.k != "agg":
                return False
            if not x.a[2]:
                return x.a[1]
            x = x.a[2][0]
    return False


class Apply(Part):
    name = "apply"
    K = 24

    def __init__(self, ctx, roots, enc, follow):
        Part.__init__(self, ctx, roots)
        self.enc, self.follow = enc, follow
        self.names = [v["n"].lower() for v in ctx.F.adts[LEVEL]["v"]]

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def root_tags(self, body, i):
        return ("req",) if body.lty(i + 1).mentions(LEVEL) or "SetLogLevelRequest" in body.lty(i + 1).s else ()

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and "req" in origin(a.a[0]):
                left = {x} if isinstance(x, int) else set(range(len(self.names))) - set(x[1])
                old = [f[1] for f in S.st if isinstance(f, tuple) and f[0] == "lvl"]
                if old:
                    left = left & set(old[0])
                self.drop(S, "lvl")
                self.add(S, ("lvl", tuple(sorted(left))))

    def put(self, S, ev, v):
        v = self.E.load(S.env, v)
        lv = set(next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "lvl"), ()))
        k = inner(v)
        if len(lv) != 1 or k is False:
            self.rep(S, "inexact", ev, "the filter is given something that is not the constant of the level requested")
            return
        n = self.names[lv.pop()]
        if INNER_OF.get(n, False) != k or n not in INNER_OF:
            self.rep(S, "wrong-level", ev, "a request for level %s sets another level" % n, " " + n)
        else:
            self.ok("level " + n, ev)
        self.add(S, "stored")

    def on_store(self, S, root, path, v, body, span):
        if "modifying" in S.st:
            self.put(S, type("e", (), {"body": body}), v)

    def on_call(self, S, ev):
        E = self.E
        l = last(ev)
        if ev.p.startswith("tracing_subscriber::reload::Handle"):
            if l == "modify":
                self.ok("filter changes", ev)
                bad = S.fork()
                S.st = S.st | {"modifying"}
                out = call_clo(E, S, ev, ev.args[1], [E.fresh(S, "filter")], ("wrap", RES, 0), "modify")
                return Act(states=out + E.deliver(bad, ev.dest, ev.target, agg(RES, 1, (E.fresh(bad, "gone"),))))
            if l == "reload":
                self.ok("filter changes", ev)
                st = S.st
                self.put(S, ev, ev.args[1])
                return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), (st, agg(RES, 1, (E.fresh(S, "gone"),)))])
        if ev.p in self.enc and any("SetLogLevelReply" in t.s for t in ev.ta):
            self.ok("acknowledgements", ev)
            if "stored" not in S.st:
                self.rep(S, "acknowledged", ev, "a log level change is acknowledged although the filter was not changed")
            return Act(ret=self.result(S, "replied"))
        return None


def variants(ctx, body):
    """{variant: name} of a value-enum's to_possible_value: per switch arm, the literal given to PossibleValue::new"""
    out = {}
    for i, bb in enumerate(body.blocks):
        t = bb["t"]
        if t[0] != "switch":
            continue
        arms = [(int(v), b) for v, b in t[3]]
        n = len(ctx.F.adts[LEVEL]["v"])
        rest = set(range(n)) - {v for v, _ in arms}
        if len(rest) == 1:
            arms.append((rest.pop(), t[4]))
        for v, b in arms:
            for _ in range(3):
                x = body.blocks[b]["t"]
                if x[0] == "call":
                    o = x[2][0].get("k", {}).get("v") if x[2] else None
                    if isinstance(o, dict) and "str" in o:
                        out.setdefault(v, []).append(o["str"])
                    break
                if x[0] != "goto":
                    break
                b = x[1]
    return out


def run(ctx):
    ctx.rule("filter := constant(request.level), for every level; acknowledged only when applied; one name per level")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    roots = {G.owner(s.body.p) for s in G.sites if s.p.startswith("tracing_subscriber::reload::Handle") and last(s) in ("modify", "reload")}
    ups = lambda ps: {G.owner(s.body.p) for s in G.sites if s.p in ps}
    replies = {G.owner(s.body.p) for s in G.sites if s.p in enc and any("SetLogLevelReply" in t.s for t in s.ta)}
    follow = {b for b in F.bodies if b.startswith("libshpool::") and ("LevelFilter" in F.bodies[b].lty(0).s or any("LogLevel" in F.bodies[b].lty(i).s for i in range(1, F.bodies[b].argc + 1)))} | roots | replies
    top = set()
    for r in replies | roots:
        # the outermost function that takes the request
        while True:
            up = {u for u in ups({r}) if any("LogLevel" in F.bodies[u].lty(i).s for i in range(1, F.bodies[u].argc + 1))}
            if not up:
                break
            r = sorted(up)[0]
        top.add(r)
    ctx.floor("functions that change the filter", len(roots), 1)
    a = Apply(ctx, top, enc, follow)
    run_parts(ctx, [a])
    floors(ctx, [a], "filter changes", "acknowledgements")
    names = [v["n"].lower() for v in F.adts[LEVEL]["v"]]
    for n in names:
        if not any(n in v["key"] for v in ctx.viol):
            ctx.floor("level " + n, len({x for x in a.seen if x[0] == "level " + n}), 1)
    # names on the command line
    tv = [b for p, b in F.bodies.items() if "LogLevel as clap::ValueEnum" in p and p.endswith("to_possible_value")]
    ctx.floor("names for the command line", len(tv), 1)
    for b in tv:
        v = variants(ctx, b)
        for i, n in enumerate(names):
            ctx.check(v.get(i) == [n], "name", n, "level %s is offered on the command line as %s" % (n, v.get(i)), b.p)
    vv = [b for p, b in F.bodies.items() if "LogLevel as clap::ValueEnum" in p and "value_variants" in p]
    got = set()
    for b in vv:
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == LEVEL:
                    got.add(st[2][1][2])
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] in ("array", "[]"):
                    for o in st[2][2]:
                        k = o.get("k", {}).get("v")
                        if isinstance(k, dict) and "v" in k:
                            got.add(k["v"])
                        elif isinstance(k, int):
                            got.add(k)
    ctx.check(got == set(range(len(names))), "name", "offered", "the command line does not offer every level (offered: %s)" % sorted(map(str, got)), "LogLevel")
    # the client sends the level it was given
    n = 0
    for b in F.bodies.values():
        if not b.p.startswith("libshpool::"):
            continue
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1].endswith("::SetLogLevelRequest"):
                    src = {x for x in sources_up(ctx, b, st[2][2][0])}
                    n += 1
                    ctx.check(not any(x[0] == "const" for x in src), "sent", G.owner(b.p), "the level sent is not the one given on the command line", b.p)
    ctx.floor("requests sent", n, 1)
