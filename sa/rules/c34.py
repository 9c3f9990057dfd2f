"""C34: the command line commands' exit status tells the truth."""
from .part import *
from .c16 import wire_fns, wire_type

EXPLAIN = ("The program's main function is explored for the detach, kill, variable and log-level commands, with every answer of the daemon left open (no answer; each list of the reply empty or not). "
           "Success is only reached after a request of the command's own kind was written, an answer of its type was read, and every list of problem sessions in it was found empty; a failure with such a list not empty names it. "
           "Names the user gave are sent as they are; with none the session name of the environment is sent, and without that none of these requests is written.")
ASSUME = ["the daemon's answer is true (C16, C17, C18, C36)", "an error returned from main is printed and makes the exit status nonzero"]

CMDS = "libshpool::Commands"
WANT = {"Detach": {"Detach"}, "Kill": {"Kill"}, "SetLogLevel": {"SetLogLevel"}, "Var": {"GetVars", "ModifyVar"}}
REPLY = {"Detach": "DetachReply", "Kill": "KillReply", "SetLogLevel": "SetLogLevelReply", "GetVars": "MaybeSwitch", "ModifyVar": "ModifyVarReply"}
HDR = "shpool_protocol::ConnectHeader"
ENV = "SHPOOL_SESSION_NAME"
EDITS = {"pop", "remove", "swap_remove", "truncate", "clear", "drain", "retain", "retain_mut", "split_off", "dedup_by", "dedup_by_key", "append", "extend", "extend_from_slice", "insert"}


class Cli(Part):
    name = "cli"
    K = 40
    exact_tags = frozenset(["envname"])

    def __init__(self, ctx, roots, enc, dec, follow):
        Part.__init__(self, ctx, roots)
        self.enc, self.dec, self.follow = enc, dec, follow
        self.cmds = [v["n"] for v in ctx.F.adts[CMDS]["v"]]
        self.hdrs = [v["n"] for v in ctx.F.adts[HDR]["v"]]

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def root_tags(self, body, i):
        return ("args",) if body.lty(i + 1).d == "libshpool::Args" else ()

    def result_tags(self, S, ev):
        return ["args"] if ev.dest and ev.destty().d == "libshpool::Args" else None

    def cmd(self, S):
        return next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "cmd"), None)

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and self.E.discr_n.get(a, ("",))[0] == CMDS and isinstance(x, int):
                self.drop(S, "cmd")
                self.add(S, ("cmd", self.cmds[x]))

    def given(self, S, v, ev):
        """is this the list of names the user gave?"""
        return "args" in origin(v) and self.cmd(S) in ("Detach", "Kill")

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        c = self.cmd(S)
        if ev.p in ("std::env::var", "std::env::var_os") and n:
            a = E.load(S.env, ev.args[0])
            if a.k == "s" and a.a[0] == ENV:
                return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "name", ["envname"]),))), (S.st, agg(RES, 1, (E.fresh(S, "noname"),)))] if l == "var" else
                           [(S.st, agg(OPT, 1, (E.fresh(S, "name", ["envname"]),))), (S.st, agg(OPT, 0, ()))])
        if c is None:
            return None
        if n and l in EDITS | {"is_empty", "len", "push"}:
            v = E.load(S.env, ev.args[0])
            if self.given(S, v, ev) and "Vec<std::string::String" in ev.argty(0).s or self.given(S, v, ev) and "Vec<String" in ev.argty(0).s:
                if l in ("is_empty", "len"):
                    if "pushed" in S.st or "given" in S.st:
                        return Act(ret=B(0) if l == "is_empty" else E.fresh(S, "some"))
                    if "none" in S.st:
                        return Act(ret=B(1) if l == "is_empty" else I(0))
                    if l == "is_empty":
                        return Act(forks=[(S.st | {"none"}, B(1)), (S.st | {"given"}, B(0))])
                    return Act(forks=[(S.st | {"none"}, I(0)), (S.st | {"given"}, I(1))])
                if l == "push":
                    x = E.load(S.env, ev.args[1])
                    if "envname" not in origin(x):
                        self.rep(S, "names", ev, "a name that is neither given nor the current session's is added")
                    if "none" not in S.st:
                        self.rep(S, "names", ev, "a session is added to those the user named")
                    self.add(S, "pushed")
                    return Act(ret=UNIT)
                if l in EDITS:
                    self.rep(S, "names", ev, "%s changes which of the sessions the user named are sent" % l)
            t = next((f for f in origin(v) if isinstance(f, tuple) and f[0] == "list"), None)
            if t:
                full, empty = ("full", t[1]), ("empty", t[1])
                if l in ("is_empty", "len"):
                    if full in S.st:
                        return Act(ret=B(0) if l == "is_empty" else I(1))
                    if empty in S.st:
                        return Act(ret=B(1) if l == "is_empty" else I(0))
                    return Act(forks=[(S.st | {empty}, B(1) if l == "is_empty" else I(0)), (S.st | {full}, B(0) if l == "is_empty" else I(1))])
                if l in EDITS:
                    self.rep(S, "answer", ev, "%s changes what the daemon answered" % l)
        if ev.p in self.enc:
            for i in range(n):
                v = E.load(S.env, ev.args[i])
                if ev.argty(i).mentions(HDR) or v.k == "agg" and v.a[0] == HDR:
                    return self.sent(S, ev, v)
        if ev.p in self.mixed and wire_type(ev.ta):
            # sends and reads: looked into with its type parameter known
            self.drop(S, "param")
            self.add(S, ("param", wire_type(ev.ta)))
            return None
        if ev.p in self.dec and (wire_type(ev.ta) or any(t.k == "param" for t in ev.ta) and self.has(S, "param")):
            ty = wire_type(ev.ta) or next(f[1] for f in S.st if isinstance(f, tuple) and f[0] == "param")
            k = next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "sent"), None)
            if k is None:
                return None
            if ty.rsplit("::", 1)[-1] != REPLY.get(k):
                self.rep(S, "reply-type", ev, "the answer to a %s request is read as %s" % (k, ty.rsplit("::", 1)[-1]))
            self.ok("answers read", ev)
            fs = []
            for nme, t in fields(E.F, ty):
                fs.append(E.fresh(S, nme, [("list", nme)] if t is not None and t.d == "std::vec::Vec" else ()))
            lists = {("list", nme) for nme, t in fields(E.F, ty) if t is not None and t.d == "std::vec::Vec"} if k in ("Detach", "Kill") else set()
            return Act(forks=[(S.st | {"answered"} | lists, agg(RES, 0, (agg(ty, 0, tuple(fs)),))), (S.st, agg(RES, 1, (E.fresh(S, "noanswer"),)))])
        if l in ("_eprint", "_print") or "write_fmt" in l and n and "Std" in ev.argty(0).s:
            for a in ev.args:
                for t in E.deep_tags(S.env, a):
                    if isinstance(t, tuple) and t[0] == "list":
                        self.add(S, ("named", t[1]))
        return None

    def sent(self, S, ev, v):
        E = self.E
        c = self.cmd(S)
        k = self.hdrs[v.a[1]] if v.k == "agg" and isinstance(v.a[1], int) else None
        if k is None or k not in WANT.get(c, {k}):
            self.rep(S, "request", ev, "the %s command sends a %s request" % (c, k))
        else:
            self.ok("requests of " + c, ev)
        if k in ("Detach", "Kill"):
            r = E.get(v, ("f", 0, "0"))
            names = E.get(r, ("f", 0, "sessions"))
            names = E.load(S.env, names)
            tags = E.deep_tags(S.env, names)
            own = "args" in origin(names)
            if own and "given" in S.st and "pushed" not in S.st:
                self.ok("names given sent", ev)
            elif "none" in S.st and (own and "pushed" in S.st or not own and "envname" in tags):
                self.ok("current session sent", ev)
            else:
                self.rep(S, "names", ev, "a request is sent for other sessions than those named, or the current one if none is")
        return Act(forks=[(S.st | {("sent", k)}, agg(RES, 0, (UNIT,))), (S.st, agg(RES, 1, (E.fresh(S, "unsent"),)))])

    def judge(self, S, ev, good, err=None):
        c = self.cmd(S)
        if c not in WANT:
            return
        if good:
            if "answered" not in S.st:
                self.rep(S, "success", ev, "the %s command succeeds although the daemon has not answered" % c, " " + c)
            bad = [f[1] for f in S.st if isinstance(f, tuple) and f[0] == "list" and ("empty", f[1]) not in S.st]
            if bad:
                self.rep(S, "success", ev, "the %s command succeeds although the answer's %s may not be empty" % (c, ", ".join(sorted(bad))), " " + c)
            elif "answered" in S.st:
                self.ok("successes of " + c, ev)
        else:
            tags = self.E.deep_tags(S.env, err) if err is not None else ()
            for f in S.st:
                if isinstance(f, tuple) and f[0] == "full":
                    if ("named", f[1]) in S.st or ("list", f[1]) in tags:
                        self.ok("failures naming " + f[1], ev)
                    else:
                        self.rep(S, "unnamed", ev, "the %s command fails without naming the sessions in %s" % (c, f[1]), " " + c)
            for f in S.st:
                # what was not looked at is not named
                if isinstance(f, tuple) and f[0] == "list" and ("empty", f[1]) not in S.st and ("full", f[1]) not in S.st and ("named", f[1]) not in S.st and ("list", f[1]) not in tags:
                    self.rep(S, "unnamed", ev, "the %s command fails without looking at %s" % (c, f[1]), " " + c)

    def on_end(self, S, v):
        v = self.E.load(S.env, v)
        ev = type("e", (), {"body": S.frame.body})
        k = v.a[1] if v.k == "agg" else self.E.known(S.env, mk("discr", v))
        if k == 0:
            self.judge(S, ev, True)
        elif k == 1:
            self.judge(S, ev, False, v)
        else:
            self.judge(S, ev, True)

    def on_diverge(self, S, ev):
        if ev.p.endswith("process::exit"):
            x = self.E.load(S.env, ev.args[0])
            self.judge(S, ev, not (x.k == "i" and x.a[0] != 0))


def run(ctx):
    ctx.rule("exit status 0 => a request of the command's kind was answered and no session was reported as a problem; status != 0 names the problem sessions")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    tops = {b.p for b in F.bodies.values() if b.kind != "closure" and any(b.lty(i).d == "libshpool::Args" for i in range(1, b.argc + 1)) and b.lty(0).d == RES}
    mains = {G.owner(s.body.p) for s in G.sites if s.p in tops and not s.body.p.startswith("libshpool::")}
    makers = set()
    for b in F.bodies.values():
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] in ("shpool_protocol::DetachRequest", "shpool_protocol::KillRequest", "shpool_protocol::SetLogLevelRequest", "shpool_protocol::ModifyVarRequest"):
                    makers.add(G.owner(b.p))
    makers = {m for m in makers if m.startswith("libshpool::")}
    other = {p for p in made_in(F, G, {"shpool_protocol::AttachHeader"}) if p.startswith("libshpool::")} | {b.p for b in F.bodies.values() if b.p.startswith("libshpool::daemon::")}
    mixed = {p for p in dec if reach_until(G, {p}, lambda x: not x.startswith("libshpool::") or x in dec and x != p) & enc}
    stop = lambda p: not p.startswith("libshpool::") or p in enc or p in dec - mixed or p in F.bodies and "ClientResult" in F.bodies[p].lty(0).s
    ups = {p for p in G.up(makers) | makers if p.startswith("libshpool::") and not reach_until(G, {p}, stop) & other} - tops
    follow = reach_until(G, ups, stop) | ups | tops | mains
    ctx.floor("main functions", len(mains), 1)
    Cli.mixed = mixed
    p = Cli(ctx, mains, enc, dec, follow)
    run_parts(ctx, [p])
    floors(ctx, [p], "requests of Detach", "requests of Kill", "requests of SetLogLevel", "requests of Var", "answers read", "names given sent", "current session sent",
           "successes of Detach", "successes of Kill", "successes of Var", "successes of SetLogLevel", "failures naming not_found_sessions", "failures naming not_attached_sessions")
