"""C41: a new session runs what it was created for."""
from .part import *
from .geniter import Gen, gen
from .c24 import Paths, Build, pw_fields, CONV, HEADER, SESSION
from .c25 import is_exec
from .c40 import tags_all

EXPLAIN = ("On the client, the name, command, directory and start command given to attach are followed into the attach request: each arrives in its own field, with variables filled in, and is left out only when it was not given; "
           "the directory is the client's own only for '.', and the configured default only when none was given. In the daemon, the program a session's shell becomes is followed over all paths: with a command asked for, its first word with the "
           "remaining ones as arguments; otherwise the configured shell, or the user's if none is configured, as a login shell. A start command is passed on to the shell injection exactly of sessions without a command, and written to the shell.")
ASSUME = ["unwinding paths are not followed", "shell_words splits a command the way its documentation says", "Template::apply fills in variables (N04)"]
TECH = "provenance dataflow over MIR, path-sensitive"

HDR = "shpool_protocol::ConnectHeader"
ROLES = ("name", "cmd", "dir", "start_cmd")
TEXT = ("std::string::String", "str", "libshpool::template::Template", "std::path::PathBuf", "std::path::Path", "std::ffi::OsString", "std::ffi::OsStr")


def texty(t):
    for _ in range(6):
        t = t.peel()
        if t.d in TEXT or t.s in TEXT:
            return True
        if t.d in (OPT, RES, "std::borrow::Cow") and t.args:
            t = next((a for a in t.args if a.s and not a.s.startswith("'")), t.args[0])
            continue
        return False
    return False


class Client(Part):
    """what was given to attach, on its way into the attach request"""
    name = "attach-request"
    K = 4

    def __init__(self, ctx, roots, follow, roles):
        Part.__init__(self, ctx, roots)
        self.follow, self.roles = follow, roles
        self.exact_tags = frozenset("role:" + r for r in ROLES) | {"applied", "cwd", "default"}

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def root_tags(self, body, i):
        r = self.roles.get((body.p, i))
        return ["role:" + r] if r else []

    def on_spawn(self, S, ev, x):
        return None

    def holds(self, ty, d=3):
        """is there a set of variables in it?"""
        if ty.mentions("shpool_protocol::MaybeSwitch"):
            return True
        F = self.E.F
        ad = F.adts.get(ty.args[0].d) if d and ty.args else None
        return bool(ad) and any(t is not None and t.mentions("shpool_protocol::MaybeSwitch") for i in range(len(ad["v"])) for _, t in fields(F, ty.args[0].d, i))

    def names_of(self, v):
        return Build.names_of(self, v)

    def of(self, S, v):
        return tags_all(self.E, S, v)

    def given(self, S, v):
        return {str(t)[5:] for t in self.of(S, v) if str(t).startswith("role:")}

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if n >= 2 and ev.p in E.F.bodies:
            for i in range(n):
                if ev.argty(i).peel().d == HDR:
                    v = E.load(S.env, ev.args[i])
                    h = self.part(v)
                    if h is not None:
                        self.request(S, ev, h)
                    return Act(ret=self.result(S, "wrote"))
        if p == "std::env::current_dir":
            return Act(ret=self.result(S, "cwd", RES, ["cwd"]))
        if ev.dest is not None and ev.destty().d == RES and not (p in E.F.bodies and not self.opaque(E.F.bodies[p])) and self.holds(ev.destty()):
            return Act(ret=self.result(S, "vars", RES, ["vars"]))
        if l == "get" and ev.dest is not None and "config" in ev.p.lower():
            return Act(ret=E.fresh(S, "config", ["config"]))
        if l in ("eq", "ne") and n == 2 and p not in E.F.bodies:
            a, b = E.load(S.env, ev.args[0]), E.load(S.env, ev.args[1])
            for x, y in ((a, b), (b, a)):
                while x.k == "ref":
                    x = E.load(S.env, x)
                while y.k == "ref":
                    y = E.load(S.env, y)
                if y.k == "s":
                    w = "dir" if "dir" in self.given(S, x) else "default" if self.of(S, x) & {"config", "default"} else None
                    if w:
                        k = "%s=%s" % (w, y.a[0])
                        if k in S.st or "!" + k in S.st or any(isinstance(f, str) and f.startswith(w + "=") for f in S.st):
                            return Act(ret=B(int((k in S.st) == (l == "eq"))))
                        return Act(forks=[(S.st | {k}, B(int(l == "eq"))), (S.st | {"!" + k}, B(int(l == "ne")))])
        b = E.F.bodies.get(p)
        if b is not None and not self.opaque(b) or b is not None and b.kind == "closure":
            return None
        if any(E.closure_of(S, a) is not None for a in ev.args):
            return None
        if ev.dest is None or p.startswith(("std::option::Option::<", "std::result::Result::<")) and l not in ("cloned", "copied") or "Try>" in p or l in ("branch", "from_residual", "deref"):
            return None
        if not texty(ev.destty()):
            return None
        t = set()
        for i in range(n):
            if texty(ev.argty(i)):
                t |= {x for x in self.of(S, ev.args[i]) if x in self.exact_tags or x == "config"}
            elif "vars" in self.of(S, ev.args[i]) and t:
                t.add("applied")
        if not t:
            return None
        if l in ("cloned", "clone", "as_str", "as_ref", "to_owned", "to_string", "into", "from", "to_string_lossy", "into_owned", "as_deref", "source", "as_path", "as_os_str") and n == 1:
            x = E.load(S.env, ev.args[0])
            if not (x.k in ("agg", "ov") and x.a[0] in (OPT, RES)) and ev.destty().d not in (OPT, RES):
                return Act(ret=E.fresh(S, "same", sorted(t)))
            return None
        if ev.destty().d in (OPT, RES):
            return Act(ret=self.result(S, "made", ev.destty().d, sorted(t)))
        return Act(ret=E.fresh(S, "made", sorted(t)))

    def part(self, v):
        if not isinstance(v, V):
            return None
        if v.k == "agg" and v.a[0] == HEADER:
            return v
        for x in v.a:
            for y in flat(x):
                r = self.part(y) if isinstance(y, V) else None
                if r is not None:
                    return r
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and x == 0 and self.E.discr_n.get(a, (OPT,))[0] != RES:
                for r in self.given(S, a.a[0]):
                    self.add(S, "no:" + r)
                if "default_dir" in self.names_of(a.a[0]):
                    self.add(S, "no:default")
            if a.k == "discr" and x == 1:
                for r in self.given(S, a.a[0]):
                    self.add(S, "has:" + r)

    def request(self, S, ev, h):
        E = self.E
        self.ok("attach requests", ev)
        for (nm, t), v in zip(fields(E.F, HEADER), h.a[2]):
            if nm not in ROLES:
                continue
            none = v.k == "agg" and v.a[0] == OPT and v.a[1] == 0
            got = self.given(S, v)
            tags = self.of(S, v)
            if nm == "dir":
                self.where(S, ev, none, got, tags)
            elif none:
                if "no:" + nm not in S.st:
                    self.rep(S, "dropped", ev, "the attach request has no %s although one may have been given" % nm, " " + nm)
            elif got != {nm}:
                self.rep(S, "wrong-field", ev, "the %s of the attach request is not the one given to attach" % nm, " " + nm)
            elif "applied" not in tags:
                self.rep(S, "not-applied", ev, "the %s of the attach request is sent without its variables filled in" % nm, " " + nm)

    def where(self, S, ev, none, got, tags):
        st = S.st
        bad = None
        if none:
            if "no:dir" not in st:
                bad = "none although one may have been given"
            elif "default=$HOME" not in st and "no:default" not in st:
                bad = "none although another default may be configured"
        elif "cwd" in tags:
            if "dir=." not in st and not ("no:dir" in st and "default=." in st):
                bad = "the client's own although it was not asked for"
        elif got:
            if got != {"dir"} or "applied" not in tags:
                bad = "not the one given to attach, with its variables filled in"
            elif "!dir=." not in st:
                bad = "passed on as given although it may stand for the client's own"
        elif "config" in tags:
            if "no:dir" not in st:
                bad = "the configured default although one may have been given"
            elif "!default=." not in st or "!default=$HOME" not in st:
                bad = "the configured default although that may stand for another one"
        else:
            bad = "neither given, configured nor the client's own"
        if bad:
            self.rep(S, "wrong-dir", ev, "the directory of the attach request is " + bad)


class Command(Gen, Paths, Part):
    """the program a session's shell becomes, and what is typed into it"""
    name = "session-program"
    K = 8

    def __init__(self, ctx, roots, follow, pw, inject):
        Part.__init__(self, ctx, roots)
        self.follow, self.pw, self.inject = follow, pw, inject
        self.params, self.outcomes = set(), {}

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    names_of, field = Build.names_of, Build.field

    def on_spawn(self, S, ev, x):
        return None

    def words(self, S, v, d=6):
        """which words of the command a value is or points to"""
        if not isinstance(v, V) or d == 0:
            return set()
        if v.k == "ref" and v.a[1] and v.a[1][-1][0] == "ix":
            return self.pick(self.words(S, mk("ref", v.a[0], v.a[1][:-1], 0), d - 1), v.a[1][-1][1:])
        if v.k == "ref":
            return self.words(S, self.E.read(S.env, v.a[0], v.a[1]), d - 1)
        if v.k == "idx":
            return self.pick(self.words(S, v.a[0], d - 1), v.a[1:])
        out = {str(t) for t in v.a[1] if str(t).startswith("word")} if v.k == "S" else set()
        for x in v.a:
            for y in flat(x):
                out |= self.words(S, y, d - 1)
        return out

    def pick(self, w, i):
        i = i[0] if i else None
        if not w:
            return w
        if w == {"words"}:
            if isinstance(i, int) and i == 0 or isinstance(i, V) and i.k == "i" and i.a[0] == 0:
                return {"word0"}
            if isinstance(i, V) and i.k == "agg" and "RangeFrom" in str(i.a[0]) and i.a[2][0].k == "i" and i.a[2][0].a[0] in (0, 1):
                return {("words", "wordrest")[i.a[2][0].a[0]]}
        return {"wordother"}

    def pwshell(self, x):
        return any(y == "pw_shell" and f == self.field(x) for (_, f), y in self.pw.items())

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if p.startswith("shell_words::split"):
            v = self.path(S, ev.args[0])
            if "cmd" not in self.names_of(v):
                self.rep(S, "wrong-command", ev, "what is split into words is not the command asked for")
            self.ok("commands split", ev)
            return Act(forks=[(S.st | {"has:cmd"}, agg(RES, 0, (E.fresh(S, "words", ["words"]),))), (S.st, agg(RES, 1, (E.fresh(S, "bad"),)))])
        w = self.words(S, ev.args[0]) if n else set()
        if w and p not in E.F.bodies and "Command" not in p:
            r = self.word(S, ev, l, n, w)
            if r is not None:
                return r
        if p == "std::process::Command::new":
            return self.program(S, ev, self.path(S, ev.args[0]), w)
        if "std::process::Command" in p or "CommandExt" in p or is_exec(p):
            if n >= 2 and l in ("arg", "args"):
                w = self.words(S, ev.args[1])
                if "command" in S.st:
                    if w == {"wordrest"} and "args" not in S.st or w == {"wordnext"} and l == "arg":
                        self.add(S, "args")
                    elif self.nothing(S, ev.args[1]):
                        pass
                    else:
                        self.rep(S, "arguments", ev, "the command asked for is given arguments other than its own")
                elif w:
                    self.rep(S, "arguments", ev, "a shell is given the arguments of a command")
            elif l == "arg0":
                if "command" in S.st:
                    self.rep(S, "arguments", ev, "the command asked for is run under another name")
                self.add(S, "login")
            elif is_exec(p):
                self.ok("programs run", ev)
                if "command" in S.st and "args" not in S.st:
                    self.rep(S, "arguments", ev, "the command asked for is run without its arguments")
                if "shell" in S.st and "login" not in S.st:
                    self.rep(S, "no-login", ev, "the session's shell is not started as a login shell")
            return None
        if l == "is_empty" and n == 1 and "start_cmd" in self.names_of(self.path(S, ev.args[0])):
            if S.st & {"empty", "nonempty"}:
                return Act(ret=B(int("empty" in S.st)))
            return Act(forks=[(S.st | {"empty"}, B(1)), (S.st | {"nonempty"}, B(0))])
        b = E.F.bodies.get(p)
        if p in self.inject:
            self.ok("start commands injected", ev)
            self.add(S, "injected")
            mine = [k for k in range(n) if "start_cmd" in self.names_of(self.path(S, ev.args[k]))]
            self.params |= {(p, k) for k in mine}
            if not mine and not S.st & {"no:start_cmd", "empty"}:
                self.rep(S, "start-dropped", ev, "a start command is not passed on to the session's shell")
            if "no:cmd" not in S.st:
                self.rep(S, "injected", ev, "commands for a shell may be typed into a command that was asked for")
            return Act(ret=self.result(S, "injected"))
        if l in ("as_deref", "as_ref") or n == 0:
            return None
        r = self.paths(S, ev, l, n)
        if r is not None and gen(r.ret or UNIT):
            return None
        if r is None and b is not None and self.opaque(b) and b.lty(0).s == "bool":
            return Act(forks=[(S.st | {("asked", p, x)}, B(x)) for x in (0, 1)])
        return r

    def on_end(self, S, v):
        if v.k == "agg" and v.a[0] == RES and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            return
        if "no:cmd" in S.st and "nonempty" in S.st:
            k = frozenset(x for x in S.st if isinstance(x, tuple) and x[0] == "asked")
            self.outcomes.setdefault(k, set()).add("injected" in S.st)

    def nothing(self, S, v):
        v = self.coll(S, v)
        return v.k == "agg" and v.a[0] == "[]" and not v.a[2]

    def word(self, S, ev, l, n, w):
        """looking at the words of the command"""
        E = self.E
        k = self.path(S, ev.args[1]) if n > 1 else None
        one = lambda tag: E.fresh(S, tag, [tag])
        some = lambda x: Act(forks=[(S.st, agg(OPT, 1, (x,))), (S.st, agg(OPT, 0, ()))])
        whole = "words" in w
        if l in ("index", "get", "get_mut", "index_mut") and n == 2:
            x = None
            if k.k == "i":
                x = one(("word0" if whole else "wordother") if k.a[0] == 0 else "wordother")
            elif k.k == "agg" and "RangeFrom" in str(k.a[0]) and k.a[2][0].k == "i":
                x = one("wordrest" if whole and k.a[2][0].a[0] == 1 else "words" if k.a[2][0].a[0] == 0 and whole else "wordother")
            elif k.k == "agg" and "RangeFull" in str(k.a[0]):
                return Act(ret=ev.args[0])
            else:
                x = one("wordother")
            return Act(ret=x) if l.startswith("index") else some(x)
        if l in ("first", "split_first"):
            return some(one("word0") if l == "first" else agg("()", None, (one("word0"), one("wordrest"))))
        if l in ("remove", "swap_remove", "pop_front", "next", "pop", "next_back", "last", "nth", "drain"):
            first = whole and (l in ("pop_front", "next") or l == "remove" and k.k == "i" and k.a[0] == 0)
            r, q = E.deref(ev.args[0])
            x = E.read(S.env, r, q)
            while x.k == "ref":
                r, q = x.a[0], x.a[1]
                x = E.read(S.env, r, q)
            if l == "next" and w == {"wordrest"}:
                return Act(forks=[(S.st, agg(OPT, 1, (one("wordnext"),))), (S.st | {"args"}, agg(OPT, 0, ()))])
            E.write(S.env, r, q, one("wordrest" if first else "wordother"))
            x = one("word0" if first else "wordother")
            return Act(ret=x) if l in ("remove", "swap_remove") else some(x) if l != "drain" else Act(ret=x)
        if l == "skip" and n == 2:
            return Act(ret=one("wordrest" if whole and k.k == "i" and k.a[0] == 1 else "wordother"))
        if l in ("iter", "into_iter", "iter_mut", "as_slice", "deref", "as_ref", "to_vec", "clone", "cloned", "collect", "by_ref", "as_str", "to_owned", "to_string", "as_mut_slice", "into", "from", "borrow", "into_boxed_slice", "into_vec", "copied", "peekable"):
            if l in ("deref", "as_ref", "borrow", "by_ref") and ev.args[0].k == "ref":
                return None if l == "by_ref" else Act(ret=E.fresh(S, "w", sorted(w)))
            return Act(ret=E.fresh(S, "w", sorted(w)))
        if l in ("is_empty", "len") or ev.dest is None or ev.destty().s in ("bool", "usize"):
            return None
        return Act(ret=one("wordother")) if l in ("rev", "chain", "take", "filter", "step_by", "concat", "join", "skip_while", "trim") else None

    def program(self, S, ev, v, w):
        self.drop(S, "command", "shell", "args", "login")
        self.ok("programs chosen", ev)
        if w:
            self.add(S, "command")
            if w != {"word0"}:
                self.rep(S, "wrong-program", ev, "the program run is not the first word of the command asked for")
            return None
        if "cmd" in self.names_of(v):
            self.add(S, "command", "args")
            self.rep(S, "wrong-program", ev, "the command asked for is run without being split into words")
            return None
        self.add(S, "shell")
        if "no:cmd" not in S.st:
            self.rep(S, "command-ignored", ev, "a shell is run although a command may have been asked for")
        if self.pwshell(v):
            if "no:shell" not in S.st:
                self.rep(S, "wrong-shell", ev, "the user's shell is run although another one may be configured")
        elif v.k == "op" and v.a[0] in ("unwrap_or", "or") and self.confshell(v.a[1]) and self.pwshell(self.path(S, v.a[2])):
            pass
        elif not self.confshell(v):
            self.rep(S, "wrong-shell", ev, "what is run is neither the configured nor the user's shell")
        return None

    def confshell(self, v):
        return "shell" in self.names_of(v)

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "op" and a.a[0] in ("Eq", "Ne") and a.a[1].k == "discr" and a.a[2].k == "i" and isinstance(x, int):
                x = a.a[2].a[0] if (a.a[0] == "Eq") == bool(x) else 1 - a.a[2].a[0]
                a = a.a[1]
            if a.k == "discr" and x in (0, 1):
                for f in self.names_of(a.a[0]) & {"cmd", "shell", "start_cmd"}:
                    self.add(S, ("has:" if x else "no:") + f)


class Typed(Part):
    """what is typed into a new shell"""
    name = "start-command"
    K = 4

    def __init__(self, ctx, roots, params):
        Part.__init__(self, ctx, roots)
        self.params = params

    def opaque(self, body):
        return body.p not in self._roots and body.kind != "closure"

    def root_tags(self, body, i):
        return ["start"] if (body.p, i) in self.params else []

    def on_call(self, S, ev):
        l, n = last(ev), len(ev.ops)
        if l == "is_empty" and n == 1 and "start" in tags_all(self.E, S, ev.args[0]) and ev.args[0].k != "ref" or l == "is_empty" and n == 1 and ev.argty(0).s in ("&str", "&&str") and "start" in tags_all(self.E, S, ev.args[0]):
            return Act(forks=[(S.st | {"empty"}, B(1)), (S.st - {"empty"}, B(0))])
        if l in ("write_all", "write", "write_fmt") and n >= 2:
            self.ok("writes", ev)
            if "start" in tags_all(self.E, S, ev.args[1]):
                self.add(S, "written")
        return None

    def on_end(self, S, v):
        if v.k == "agg" and v.a[0] == RES and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            return
        if "written" not in S.st and "empty" not in S.st:
            self.rep(S, "not-typed", None, "a start command is not written to the session's shell", " " + S.frame.body.p)


def attach_roots(ctx):
    """the functions the options of the attach command are handed to, and which of their parameters gets which"""
    F, G = ctx.F, ctx.G
    made = G.up(made_in(F, G, {HEADER}))
    roles = {}
    for s in G.sites:
        if s.p not in made or s.p not in F.bodies or "libshpool::attach" in s.body.p:
            continue
        for i, o in enumerate(s.t[2]):
            if not texty(s.argty(i)):
                continue
            src = {x[1] for x in sources(s.body, o) if x[0] == "field"} & set(ROLES)
            if len(src) == 1:
                roles[(s.p, i)] = src.pop()
    return roles


def run(ctx):
    F, G = ctx.F, ctx.G
    ctx.rule("attach's options => own field of the request; command => first word and arguments, else the shell; start command => injected")
    roles = attach_roots(ctx)
    roots = {p for p, _ in roles}
    made = G.up(made_in(F, G, {HEADER}))
    tm = {b.p for b in F.bodies.values() if b.p.startswith("libshpool::attach") and any("emplate" in b.lty(i).s for i in range(b.argc + 1))}
    tm |= {b.p for b in F.bodies.values() if b.p.startswith("libshpool::attach") and texty(b.lty(0)) and b.argc}
    follow = {p for p in G.reach(roots) | roots if p in F.bodies and (p in made or p in tm)}
    ctx.check(set(roles.values()) == set(ROLES), "options", "attach", "of the options of attach only %s are passed on" % sorted(set(roles.values())), "")
    c = Client(ctx, roots, follow, roles)
    dm = lambda p: p.startswith("libshpool::daemon::") or p.startswith("libshpool::<daemon::")
    ex = {s.body.p for s in G.sites if is_exec(s.p) and dm(s.body.p)}
    takes = {x.p for x in F.bodies.values() if any(x.lty(i + 1).peel().d == HEADER for i in range(x.argc))}
    cand = G.up(ex) & takes & G.up(made_in(F, G, {SESSION}))
    low = {p for p in cand if not (G.reach([p]) - {p}) & cand}
    writes = G.up({s.body.p for s in G.sites if last(s) in ("write_all", "write") and s.t[2] and "fork::Master" in s.argty(0).s})
    inject = {s.p for s in G.sites if G.owner(s.body.p) in low and s.p in F.bodies and s.p in writes and F.bodies[s.p].kind != "closure" and any("fork::Fork" in s.argty(i).s or "fork::Master" in s.argty(i).s for i in range(len(s.t[2])))}
    texts = {p for p in G.reach(low) if p in F.bodies and dm(p) and texty(F.bodies[p].lty(0))}
    d = Command(ctx, low, texts | G.up({s.body.p for s in G.sites if s.p.startswith("std::process::Command::") or is_exec(s.p)}) & (G.reach(low) | low), pw_fields(F), inject)
    parts = [c, d]
    run_parts(ctx, parts)
    ctx.check(any(x == {True} for x in d.outcomes.values()), "start-dropped", "start command", "a start command is not passed on to the session's shell", "")
    t = Typed(ctx, {p for p, _ in d.params}, d.params)
    run_parts(ctx, [t])
    floors(ctx, parts + [t], "attach requests", "commands split", "programs chosen", "programs run", "start commands injected", "writes")
