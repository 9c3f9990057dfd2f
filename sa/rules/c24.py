"""C24: a session's shell starts from a clean, correct environment."""
from .part import *
from .geniter import Gen, gen
from .startlib import SAME
from .c25 import is_exec

EXPLAIN = ("The function that puts the session's environment together is followed over all its paths with an arbitrary entry of every collection it goes through; each variable put into the list is judged by where its name and its value come from: fixed names need the value that belongs to them, a forwarded entry must be known to be neither the client's TERM nor its SSH_AUTH_SOCK, a configured one must not be a blank TERM, nothing comes out of the daemon's own environment other than XDG_RUNTIME_DIR; "
           "on success every fixed name is there, forwarded and configured entries are not left out, a client's TERM is used when the configuration has none and never over one it has. SSH_AUTH_SOCK is the path the daemon links the client's agent at. "
           "The command that replaces the forked child is cleared of the daemon's variables before it gets that list, gets no other variables and starts in the requested directory or the home directory.")
ASSUME = ["std::process::Command gives a program exactly the variables set after env_clear", "a collection is treated by an arbitrary element of it", "what /etc/environment says is configuration"]
TECH = "provenance dataflow over MIR, path-sensitive"

PAIR = "(std::ffi::OsString, std::ffi::OsString)"
CONV = SAME | {"new", "as_str", "to_string", "as_bytes", "to_string_lossy", "unwrap_or_default", "as_encoded_bytes"}
HEADER = "shpool_protocol::AttachHeader"
GROW = {"push", "extend", "insert", "append", "extend_from_slice", "push_within_capacity", "resize", "extend_one"}


def is_env(t):
    return "Vec<" + PAIR in t.s or "[" + PAIR + "]" in t.s


def pw_fields(F):
    """struct and the names of its fields that are filled from the password database"""
    out = {}
    for b in F.bodies.values():
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and str(st[2][1][1]).startswith("libshpool::"):
                    ad = F.adts.get(st[2][1][1])
                    if not ad or len(ad["v"]) != 1:
                        continue
                    for i, o in enumerate(st[2][2]):
                        src = {x[1] for x in sources(b, o) if x[0] == "field"} & {"pw_dir", "pw_name", "pw_shell"}
                        if len(src) == 1:
                            out[(st[2][1][1], ad["v"][0]["f"][i][0])] = src.pop()
    return out


def parts_of(v):
    """the components a path was joined from, as far as they tell it apart"""
    out = []
    while v.k == "op" and v.a[0] == "join":
        c = v.a[2]
        out.append(c.a[0] if c.k == "s" else c.a[1] if c.k == "fld" else "?")
        v = v.a[1]
    out.append(v.a[1] if v.k == "fld" else "?")
    return tuple(str(x) for x in reversed(out))


class Paths:
    def path(self, S, v):
        return self.coll(S, v)

    def paths(self, S, ev, l, n):
        if l == "join" and n == 2 and "std::path::Path" in ev.p:
            return Act(ret=mk("op", "join", self.path(S, ev.args[0]), self.path(S, ev.args[1])))
        if l == "to_str" and n == 1:
            return Act(forks=[(S.st, agg(OPT, 1, (self.path(S, ev.args[0]),))), (S.st, agg(OPT, 0, ()))])
        if n == 1 and l in CONV and ev.p not in self.E.F.bodies and any(x in ev.argty(0).s + (ev.destty().s if ev.dest else "") for x in ("Path", "OsStr", "String", "str")) and not any(x in ev.argty(0).s for x in ("Error", "Vec<", "[", "HashMap", "Guard", "Arc<")):
            v = self.path(S, ev.args[0])
            if not (v.k in ("agg", "ov") and ("Option" in str(v.a[0]) or "Result" in str(v.a[0]))):
                return Act(ret=v)
        return None


class Build(Gen, Paths, Part):
    name = "shell-environment"
    K = 12
    scope = None

    def __init__(self, ctx, roots, follow, pw):
        Part.__init__(self, ctx, roots)
        self.follow, self.pw = follow, pw
        self.socket, self.opts = set(), set()

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def keep(self, st):
        return [f[1] for f in st if isinstance(f, tuple) and isinstance(f[1], V)]

    def rename(self, st, sub):
        return frozenset((f[0], sub(f[1])) if isinstance(f, tuple) and isinstance(f[1], V) else f for f in st)

    # where things come from
    def element(self, S, ev, v):
        t = ev.argty(0)
        if not ("(std::string::String, std::string::String)" in t.s or "Map<std::string::String, std::string::String" in t.s or PAIR in t.s or "Vars" in t.s):
            return None
        src = "client" if v.k == "fld" and v.a[1] == "local_env" or "local_env" in self.names_of(v) else next((x for x in ("etc", "config", "client") if x in self.tags_of(S, v)), "other")
        extra = ["noterm"] if "noterm" in self.tags_of(S, v) else []
        k = self.E.fresh(S, src + "-name", ["name:" + src] + extra, ("elem", src, "k"))
        w = self.E.fresh(S, src + "-value", ["value:" + src] + extra, ("elem", src, "v"))
        self.drop(S, "elem-" + src, "put-" + src)
        self.add(S, "saw-" + src, ("elem-" + src, k), ("map-" + src, v))
        e = agg("()", None, (k, w))
        return e

    def names_of(self, v):
        out = set()
        while isinstance(v, V) and v.k in ("fld", "vf", "dc", "drf", "idx"):
            if v.k == "fld":
                out.add(v.a[1] if isinstance(v.a[1], str) else v.a[2] if len(v.a) > 2 else "")
            v = v.a[0]
        return out

    def tags_of(self, S, v):
        return origin(v) | self.E.deep_tags(S.env, v)

    def field(self, v):
        return v.a[1] if v.k == "fld" and isinstance(v.a[1], str) else v.a[2] if v.k == "fld" and len(v.a) > 2 else None

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if p.startswith("std::option::Option::<") and n:
            x = self.path(S, ev.args[0])
            if self.field(x) == self.extras and "config" in self.tags_of(S, x):
                self.opts.add(x)
        self.unconfigured(S)
        if p.endswith("::local_env_get") or l == "local_env_get":
            k = ev.load(1)
            nm = k.a[0] if k.k == "s" else "?"
            return Act(forks=[(S.st | {"client " + nm}, agg(OPT, 1, (E.fresh(S, "clientvar", ["clientvar:" + nm]),))), (S.st, agg(OPT, 0, ()))])
        if p in ("std::env::var_os", "std::env::var"):
            k = self.path(S, ev.args[0])
            nm = k.a[0] if k.k == "s" else "?"
            x = E.fresh(S, "daemonvar", ["daemonvar:" + nm])
            ad = OPT if l == "var_os" else RES
            return Act(forks=[(S.st, agg(ad, 1 if ad == OPT else 0, (x,))), (S.st, agg(OPT, 0, ()) if ad == OPT else agg(RES, 1, (E.fresh(S, "novar"),)))])
        if p in ("std::env::vars", "std::env::vars_os"):
            return Act(ret=E.fresh(S, "daemonenv", ["daemonenv"]))
        if n and l in GROW and is_env(ev.argty(0)):
            return self.grow(S, ev, l)
        # looking into the configured extras
        if n >= 2 and "HashMap" in p and "config" in self.tags_of(S, self.path(S, ev.args[0])):
            k = self.path(S, ev.args[1])
            if l in ("remove", "remove_entry") and k.k == "s" and k.a[0] == "TERM":
                r, q = E.deref(ev.args[0])
                x = E.read(S.env, r, q)
                while x.k == "ref":
                    r, q = x.a[0], x.a[1]
                    x = E.read(S.env, r, q)
                E.write(S.env, r, q, E.fresh(S, "configured", ["config", "noterm"]))
                return Act(ret=E.fresh(S, "removed"))
            if l in ("get", "contains_key") and k.k == "s" and k.a[0] == "TERM" and not self.has(S, "cfgterm"):
                st = S.st
                if l == "get":
                    return Act(forks=[(st | {"cfgterm", "has-cfgterm"}, agg(OPT, 1, (E.fresh(S, "cfgterm", ["cfgvar:TERM"]),))), (st | {"cfgterm", "no-cfgterm"}, agg(OPT, 0, ()))])
            if l == "get" and k.k == "s" and k.a[0] == "TERM":
                if "no-cfgterm" in S.st:
                    return Act(ret=agg(OPT, 0, ()))
                return Act(ret=agg(OPT, 1, (E.fresh(S, "cfgterm", ["cfgvar:TERM"] + (["nonblank"] if "nonblank" in S.st else [])),)))
        if l == "is_empty" and n == 1:
            v = self.path(S, ev.args[0])
            if is_env(ev.argty(0)) and any(isinstance(x, str) and x.startswith("put ") for x in S.st):
                return Act(ret=B(0))
            if is_env(ev.argty(0)) and v.k == "agg" and v.a[0] == "[]":
                return Act(ret=B(int(not v.a[2])))
            if "cfgvar:TERM" in origin(v):
                if "blank" in S.st or "nonblank" in S.st:
                    return Act(ret=B(int("blank" in S.st)))
                return Act(forks=[(S.st | {"blank"}, B(1)), (S.st | {"nonblank"}, B(0))])
        if l in ("eq", "ne") and n == 2:
            a, b = self.path(S, ev.args[0]), self.path(S, ev.args[1])
            for x, y in ((a, b), (b, a)):
                if y.k == "s" and y.a[0] == "" and "cfgvar:TERM" in origin(x):
                    return Act(forks=[(S.st | {"blank"}, B(int(l == "eq"))), (S.st | {"nonblank"}, B(int(l == "ne")))])
                if y.k == "s" and x.k == "S" and any(str(t).startswith("name:") for t in x.a[1]):
                    c = mk("op", "Eq", x, y)
                    k = E.known(S.env, c)
                    if k is not None:
                        return Act(ret=B(int(bool(k) == (l == "eq"))))
                    return Act(forks=[(S.st | {("is:" + y.a[0], x)}, B(int(l == "eq"))), (S.st | {("not:" + y.a[0], x)}, B(int(l == "ne")))]) if not self.settled(S, x, y.a[0]) else Act(ret=B(int((("is:" + y.a[0], x) in S.st) == (l == "eq"))))
        if l == "contains" and n == 2 and p not in E.F.bodies:
            a, x = self.path(S, ev.args[0]), self.path(S, ev.args[1])
            if a.k == "agg" and a.a[0] == "[]" and x.k == "S":
                ks = [self.path(S, y) for y in a.a[2]]
                if all(y.k == "s" for y in ks):
                    st = S.st
                    outs = [(st | {("is:" + y.a[0], x)}, B(1)) for y in ks]
                    return Act(forks=outs + [(st | {("not:" + y.a[0], x) for y in ks}, B(0))])
        r = self.geniter(S, ev)
        if r is not None:
            return r
        r = self.paths(S, ev, l, n)
        if r is not None:
            return r
        b = E.F.bodies.get(p)
        if b is not None and p in self.etc:
            return Act(ret=self.result(S, "etc", RES, ["etc"]))
        if b is not None and p in self.cfg:
            return Act(ret=E.fresh(S, "config", ["config"]))
        return None

    def unconfigured(self, S):
        if "cfg-none" not in S.st and any(self.E.known(S.env, mk("discr", x)) == 0 for x in self.opts):
            self.add(S, "cfg-none")

    def settled(self, S, x, y):
        return ("is:" + y, x) in S.st or ("not:" + y, x) in S.st

    def grow(self, S, ev, l):
        E = self.E
        r, q = E.deref(ev.args[0])
        x = E.read(S.env, r, q)
        while x.k == "ref":
            r, q = x.a[0], x.a[1]
            x = E.read(S.env, r, q)
        self.whole(S, ev, x)
        E.write(S.env, r, q, E.fresh(S, "list", ["list"]))
        v = self.path(S, ev.args[-1]) if l != "resize" else None
        if l in ("push", "insert"):
            self.put(S, ev, v)
        else:
            self.whole(S, ev, v, True)
        return Act(ret=UNIT)

    def whole(self, S, ev, v, unknown=False):
        if v is None:
            return self.put(S, ev, None)
        if v.k == "agg" and v.a[0] == "[]":
            for y in v.a[2]:
                self.put(S, ev, self.path(S, y))
        elif gen(v):
            for y in v.a[2]:
                self.put(S, ev, self.path(S, y))
        elif unknown and "list" not in self.tags_of(S, v):
            self.put(S, ev, None)

    def put(self, S, ev, t):
        """one variable goes into the list"""
        E = self.E
        if t is None or t.k != "agg" or len(t.a[2]) != 2:
            self.rep(S, "leak", ev, "a variable of unknown origin is put into the shell's environment")
            return
        k, v = self.path(S, t.a[2][0]), self.path(S, t.a[2][1])
        if gen(v) and v.a[1] == 1:
            v = self.path(S, v.a[2][0])
        if k.k == "s":
            nm = k.a[0]
            self.ok("variables", ev)
            self.add(S, "put " + nm)
            bad = self.fixed(S, nm, v)
            if bad:
                self.rep(S, "value", ev, "%s is given %s" % (nm, bad), " " + nm)
            return
        src = next((str(x)[5:] for x in origin(k) if str(x).startswith("name:")), None)
        self.ok("entries", ev)
        if src not in ("client", "config", "etc"):
            self.rep(S, "leak", ev, "variables that are neither the session's, configured nor forwarded by the client are put into the shell's environment")
            return
        if not any(str(x) == "value:" + src for x in origin(v)):
            self.rep(S, "entry-value", ev, "a variable is not given its own value")
        self.add(S, "put-" + src)
        if src == "client":
            for nm, what in (("TERM", "terminal type"), ("SSH_AUTH_SOCK", "agent socket")):
                if ("not:" + nm, k) not in S.st:
                    self.rep(S, "override", ev, "the client's own %s may override the session's" % what, " " + nm)
        if src == "config" and "noterm" not in origin(k) and ("not:TERM", k) not in S.st and not ("no-cfgterm" in S.st or "nonblank" in S.st):
            self.rep(S, "blank-term", ev, "a terminal type configured to be blank is put into the shell's environment")

    def fixed(self, S, nm, v):
        f, o = self.field(v), origin(v)
        want = {"HOME": "pw_dir", "USER": "pw_name", "SHELL": "pw_shell", "LOGNAME": "pw_name"}.get(nm)
        if want:
            if nm == "SHELL" and "config" in self.tags_of(S, v):
                return None
            return None if any(x == want and n == f for (_, n), x in self.pw.items()) else "something other than what the password database says"
        if nm == "SHPOOL_SESSION_NAME":
            return None if f == "name" else "something other than the session's name"
        if nm == "SHPOOL_SESSION_DIR":
            c = parts_of(v)
            return None if len(c) > 1 and c[-1] == "name" else "something other than the session's directory"
        if nm == "SSH_AUTH_SOCK":
            self.socket.add(parts_of(v))
            return None if v.k == "op" and v.a[0] == "join" else "something other than the stable link"
        if nm == "TERM":
            if "clientvar:TERM" in o:
                return None if "no-cfgterm" in S.st or "cfg-none" in S.st else "the client's terminal type although one is, or may be, configured"
            if "cfgvar:TERM" in o:
                return None if "nonblank" in S.st else "a terminal type that may be blank"
            return "something other than the configured or the client's terminal type"
        if nm == "PATH":
            return None if v.k == "s" or "config" in self.tags_of(S, v) else "something other than the configured or the default path"
        if any(str(x) == "daemonvar:" + nm for x in o):
            return None if nm == "XDG_RUNTIME_DIR" else "the daemon's own value"
        if any(str(x).startswith("daemonvar") for x in o):
            return "a value of the daemon's own environment"
        if v.k == "s" or "config" in self.tags_of(S, v):
            return None
        return "a value of unknown origin"

    def on_branch(self, S, v, val):
        E = self.E
        self.unconfigured(S)
        for a, x in both(v, val):
            if a.k == "discr" and isinstance(x, int) and E.discr_n.get(a, (None,))[0] == OPT and "config" in self.tags_of(S, a.a[0]) and self.field(a.a[0]) == self.extras and x == 0:
                self.add(S, "cfg-none")
            if a.k == "op" and a.a[0] == "Eq" and a.a[2].k == "s" and a.a[1].k == "S" and any(str(t).startswith("name:") for t in a.a[1].a[1]):
                self.add(S, (("is:" if x else "not:") + a.a[2].a[0], a.a[1]))

    def on_end(self, S, v):
        fr = S.frame
        while fr.parent is not None:
            fr = fr.parent
        e = type("e", (), {"body": fr.body, "p": fr.body.p})
        if v.k == "agg" and v.a[0] == RES:
            if v.a[1] == 1:
                return
            v = v.a[2][0] if v.a[2] else v
        elif self.E.known(S.env, mk("discr", v)) == 1:
            return
        v = self.path(S, v)
        self.whole(S, e, v)
        self.seen.add(("lists", self.ctx.G.owner(fr.body.p)))
        for nm in ("HOME", "PATH", "SHELL", "USER", "SHPOOL_SESSION_NAME", "SHPOOL_SESSION_DIR", "SSH_AUTH_SOCK"):
            if "put " + nm not in S.st:
                self.rep(S, "missing", e, "%s is not set for the shell" % nm, " " + nm)
        if "saw-client" not in S.st:
            self.rep(S, "not-forwarded", e, "what the client forwards is not given to the shell")
        if "saw-config" not in S.st and "cfg-none" not in S.st:
            self.rep(S, "not-configured", e, "configured variables are not given to the shell")
        for x in S.st:
            if isinstance(x, tuple) and x[0].startswith("elem-"):
                src, k = x[0][5:], x[1]
                if src == "client" and "put-client" not in S.st and not any((("is:" + n), k) in S.st for n in ("TERM", "SSH_AUTH_SOCK")):
                    self.rep(S, "not-forwarded", e, "a variable the client forwards is left out")
                if src == "config" and "put-config" not in S.st and ("is:TERM", k) not in S.st:
                    self.rep(S, "not-configured", e, "a configured variable is left out")
        if "client TERM" in S.st and ("cfg-none" in S.st or "no-cfgterm" in S.st) and "put TERM" not in S.st:
            self.rep(S, "no-term", e, "the client's terminal type is not given to the shell although none is configured")

        for x in S.st:
            if isinstance(x, str) and x.startswith("loop-"):
                self.rep(S, "cut-short", e, "going through the %s variables may stop before all of them were seen" % x[5:], " " + x[5:])

    def without(self, st):
        return frozenset(x for x in st if not (isinstance(x, tuple) and x[0].startswith("elem-")))

    def src(self, e):
        return next((str(x)[5:] for x in origin(e.a[2][0]) if str(x).startswith("name:")), None) if e.k == "agg" and len(e.a[2]) == 2 else None

    def began(self, S, e):
        s = self.src(self.path(S, e))
        if s in ("client", "config"):
            self.add(S, "loop-" + s)

    def ended(self, S, e):
        self.drop(S, "loop-" + str(self.src(self.path(S, e))))


class Start(Gen, Paths, Part):
    """the command that becomes the shell"""
    name = "shell-command"
    K = 8

    def __init__(self, ctx, roots, follow, pw):
        Part.__init__(self, ctx, roots)
        self.follow, self.pw = follow, pw

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def root_tags(self, body, i):
        return ["envlist"] if is_env(body.lty(i + 1)) else []

    def result_tags(self, S, ev):
        return ["envlist"] if ev.p in self.builders else []

    names_of, field = Build.names_of, Build.field

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if p == "std::process::Command::new":
            self.drop(S, "clean", "vars", "dir")
            return None
        if "std::process::Command" in p or "CommandExt" in p or is_exec(p):
            if l == "env_clear":
                self.drop(S, "vars")
                self.add(S, "clean")
            elif l == "envs":
                v = self.coll(S, ev.args[1])
                if "envlist" in origin(v) | E.deep_tags(S.env, ev.args[1]):
                    self.add(S, "vars")
                else:
                    self.rep(S, "foreign", ev, "the shell is given variables that were not put together for its session")
            elif l == "env":
                self.rep(S, "foreign", ev, "the shell is given a variable besides those put together for its session")
            elif l == "current_dir":
                self.directory(S, ev, self.path(S, ev.args[1]))
            elif is_exec(p):
                self.ok("shells started", ev)
                for f, m in (("clean", "without the daemon's own variables having been cleared"), ("vars", "without its session's variables"), ("dir", "without its directory having been set")):
                    if f not in S.st:
                        self.rep(S, "start", ev, "a shell is started " + m, " " + f)
            return None
        if l in ("as_deref", "as_ref") or n == 0:
            return None
        r = self.paths(S, ev, l, n)
        if r is not None and gen(r.ret or UNIT):
            return None
        return r

    def directory(self, S, ev, v):
        E = self.E
        self.ok("directories set", ev)
        ishome = lambda x: any(y == "pw_dir" and f == self.field(x) for (_, f), y in self.pw.items())
        isdir = lambda x: "dir" in self.names_of(x)
        if v.k == "op" and v.a[0] in ("unwrap_or", "or") and isdir(v.a[1]) and ishome(self.path(S, v.a[2])):
            self.add(S, "dir")
        elif isdir(v):
            self.add(S, "dir")
        elif ishome(v):
            if any(isinstance(x, tuple) and x[0] == "nodir" for x in S.st) or "nodir" in S.st:
                self.add(S, "dir")
            else:
                self.rep(S, "directory", ev, "the shell starts in the home directory although another one may have been asked for")
        else:
            self.rep(S, "directory", ev, "the shell starts neither in the requested directory nor at home")

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and "dir" in self.names_of(a.a[0]):
                if x == 0:
                    self.add(S, "nodir")
            if a.k == "op" and a.a[0] in ("Eq", "Ne") and a.a[1].k == "discr" and "dir" in self.names_of(a.a[1].a[0]) and a.a[2].k == "i" and isinstance(x, int):
                if ((a.a[0] == "Eq") == bool(x)) == (a.a[2].a[0] == 0):
                    self.add(S, "nodir")


class Link(Gen, Paths, Part):
    """where the client's agent is linked at"""
    name = "agent-link"
    K = 4

    def __init__(self, ctx, roots, follow):
        Part.__init__(self, ctx, roots)
        self.follow, self.links = follow, set()

    def opaque(self, body):
        return body.p not in self.follow and not (body.kind == "closure" and self.ctx.G.owner(body.p) in self.follow)

    def on_call(self, S, ev):
        E, p, l, n = self.E, ev.p, last(ev), len(ev.ops)
        if l == "local_env_get":
            k = ev.load(1)
            nm = k.a[0] if k.k == "s" else "?"
            return Act(forks=[(S.st, agg(OPT, 1, (E.fresh(S, "clientvar", ["clientvar:" + nm]),))), (S.st, agg(OPT, 0, ()))])
        if p == "std::os::unix::fs::symlink":
            self.ok("agent links", ev)
            self.links.add(parts_of(self.path(S, ev.args[1])))
            if "clientvar:SSH_AUTH_SOCK" not in origin(self.path(S, ev.args[0])):
                self.rep(S, "link", ev, "the stable agent link does not point to the agent the client said it has")
            return None
        return self.paths(S, ev, l, n)


def run(ctx):
    F, G = ctx.F, ctx.G
    ctx.rule("variable put into the list => its name allows its origin; exec => cleared, list, directory")
    pw = pw_fields(F)
    ctx.floor("password database fields", len(pw), 1)
    dm = lambda p: p.startswith("libshpool::daemon::") or p.startswith("libshpool::<daemon::")
    isb = lambda b: b.kind != "closure" and dm(b.p) and "Vec<" + PAIR in b.lty(0).s
    builders = {b.p for b in F.bodies.values() if isb(b)}
    top = {p for p in builders if not any(p in G.reach([q]) for q in builders if q != p)}
    grows = {s.body.p for s in G.sites if s.t[2] and last(s) in GROW and is_env(s.argty(0)) and dm(s.body.p)}
    below = G.reach(top)
    for p in sorted(grows):
        ctx.check(G.owner(p) in below | top, "built-once", G.owner(p), "the shell's variables are changed outside of where they are put together", "")
    etc = {b.p for b in F.bodies.values() if b.kind != "closure" and "Vec<(std::string::String, std::string::String)>" in b.lty(0).s and b.p in below}
    cfg = {b.p for b in F.bodies.values() if b.kind != "closure" and b.p in below and b.lty(0).mentions("libshpool::config::Config")}
    follow = {p for p in below | top if p in F.bodies and p not in etc | cfg}
    b = Build(ctx, top, follow, pw)
    b.etc, b.cfg = etc, cfg
    b.extras = next((n for n, t in fields(F, "libshpool::config::Config") if t is not None and "HashMap<std::string::String, std::string::String" in t.s), None)
    ex = {s.body.p for s in G.sites if is_exec(s.p) and dm(s.body.p)}
    takes = {x.p for x in F.bodies.values() if any(x.lty(i + 1).peel().d == HEADER for i in range(x.argc))}
    # a session's shell is started where the session is made; pagers are not
    cand = G.up(ex) & takes & G.up(made_in(F, G, {SESSION}))
    low = {p for p in cand if not (G.reach([p]) - {p}) & cand}
    st = Start(ctx, low, G.up({s.body.p for s in G.sites if s.p.startswith("std::process::Command::") or is_exec(s.p)}) & (G.reach(low) | low), pw)
    st.builders = builders
    links = {s.body.p for s in G.sites if s.p == "std::os::unix::fs::symlink" and dm(s.body.p)}
    lcand = G.up(links) & takes
    llow = {p for p in lcand if not (G.reach([p]) - {p}) & lcand}
    ln = Link(ctx, llow, {p for p in G.reach(llow) | llow if p in F.bodies and (p in G.up(links) or "Path" in F.bodies[p].lty(0).s)})
    parts = [b, st, ln]
    run_parts(ctx, parts)
    floors(ctx, parts, "lists", "variables", "entries", "shells started", "directories set", "agent links")
    ctx.check(b.socket == ln.links, "same-link", "SSH_AUTH_SOCK", "the shell's SSH_AUTH_SOCK (%s) is not where the client's agent is linked (%s)" % (sorted(b.socket), sorted(ln.links)), "")
    # the list the shell is given is the one put together for its session
    for p in sorted(low):
        body = F.bodies[p]
        for i in range(body.argc):
            if is_env(body.lty(i + 1)):
                for s in [s for s in G.sites if s.p == p]:
                    src = {x[1] for x in sources_up(ctx, s.body, s.t[2][i]) if x[0] == "call"}
                    ctx.check(bool(src & builders), "own-list", G.owner(s.body.p), "the shell is not given the variables put together for its session", s.where())
