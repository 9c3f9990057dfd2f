"""C39: a session with a time-to-live is reaped when that time has passed."""
from .part import *
from . import c22
from .c17 import deep

EXPLAIN = ("The way of a time-to-live is followed from the command line to the kill. Arithmetic on the numbers written in a ttl is shown to be unable to wrap around (range analysis), and no part of its text is passed over; a ttl that cannot be parsed ends the attach before anything is sent; "
           "the request carries exactly the parsed number of seconds. In the daemon every path that puts a new session into the table registers it with the reaper if the request has a ttl that does not exceed the clock, with the deadline 'now plus that many seconds'. "
           "In the reaper every record received is put into the queue before the next wait, the queue's order gives the earliest deadline first, each wait ends at the deadline that is first in the queue at that moment, nothing is taken from the queue before that deadline has passed, "
           "and a record taken out leads to the kill of its session unless the session is gone or was replaced.")
ASSUME = ["unwinding paths are not followed", "timers and clocks of the operating system are right", "that the reaper touches no other session is judged under C04"]

HDR = "shpool_protocol::AttachHeader"
REC = "libshpool::daemon::ttl_reaper::Reapable"
INST = "std::time::Instant"
DUR = "std::time::Duration"
CLI = "libshpool::attach::Attach"
SESSION = "libshpool::daemon::shell::Session"
LOOK = ("get", "get_mut", "get_key_value", "entry", "remove", "remove_entry")
SHOWS = {"name", "to_string", "to_owned", "clone", "into", "from", "as_str", "deref", "as_ref", "borrow", "copied", "cloned"}


def steps(F, v):
    """names of the fields a value was reached through, innermost first, and the tags of what it was taken from"""
    out, n = [], 0
    while isinstance(v, V) and n < 12:
        n += 1
        if v.k == "S":
            return out, v.a[1]
        if v.k == "fld":
            out.append(v.a[1])
        v = v.a[0] if v.k in ("fld", "vf", "dc", "drf", "idx") and isinstance(v.a[0], V) else None
    return out, frozenset()


def index_of(F, adt, name):
    return [f[0] for f in F.adts[adt]["v"][0]["f"]].index(name)


def is_field(F, v, adt, name):
    """the named field of a value of this type"""
    ss, _ = steps(F, v)
    return any(x == name or x == index_of(F, adt, name) for x in ss)


class Times(Part):
    """values of time: what is known about them is kept in tags"""
    K = 4

    def ttl(self, S, v):
        return False

    def due(self, S, v):
        return False

    def val(self, S, v):
        return self.E.load(S.env, v) if v.k == "ref" else v

    def t(self, S, v):
        v = self.val(S, v)
        out = set(origin(v)) if isinstance(v, V) else set()
        if self.ttl(S, v):
            out.add("ttl")
        if self.due(S, v):
            out.add("due")
        return out

    def time(self, S, ev):
        """calls on clocks and durations (None: not one)"""
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        new = lambda *t: Act(ret=E.fresh(S, "time", sorted(t)))
        if l == "now" and "Instant" in p:
            return new("now")
        if l in ("from_secs", "new") and "Duration" in p:
            a = self.t(S, ev.args[0])
            if "ttl" in a and (l == "from_secs" or self.val(S, ev.args[1]) == I(0)):
                return new("span")
            return new("other")
        if "Duration" in p and l.startswith("from_"):
            return new("other")
        if l in ("checked_add", "add") and n == 2 and ev.argty(0).peel().d == INST:
            a, b = self.t(S, ev.args[0]), self.t(S, ev.args[1])
            t = ["due"] if "now" in a and "span" in b else ["other"]
            if l == "add":
                return new(*t)
            r = self.result(S, "sum", OPT, t + ["sum"])
            return Act(ret=r)
        if l in ("checked_duration_since", "saturating_duration_since", "duration_since", "sub") and n == 2 and ev.argty(0).peel().d == INST:
            a, b = self.t(S, ev.args[0]), self.t(S, ev.args[1])
            t = ["left"] if "due" in a and "now" in b else ["past"] if "now" in a and "due" in b else ["other"]
            if l.startswith("checked"):
                return Act(ret=self.result(S, "difference", OPT, t))
            return new(*t)
        if l in SHOWS and n == 1 and ev.argty(0).peel().d in (INST, DUR):
            return Act(ret=self.val(S, ev.args[0]))
        return None


class Text(Part):
    """a ttl is read as a whole: no part of its text is passed over"""
    name = "ttl-text"
    K = 4
    LOSSY = {"take_while", "map_while", "filter", "filter_map", "skip_while", "trim_matches", "trim_start_matches", "trim_end_matches", "take", "skip", "nth", "step_by", "drain", "truncate"}
    SPLIT = {"split", "rsplit", "splitn", "rsplitn", "split_terminator", "split_whitespace", "split_inclusive"}

    def __init__(self, ctx, roots, inner):
        Part.__init__(self, ctx, roots)
        self.inner = inner

    def opaque(self, body):
        return body.p not in self.inner or body.kind == "closure"

    def root_tags(self, body, i):
        return ["text"] if body.lty(i + 1).peel().s == "str" else []

    def of(self, S, v, d=5):
        if not isinstance(v, V) or d == 0:
            return set()
        if v.k == "ref" and v.a[1] and v.a[1][-1][0] == "ix" and isinstance(v.a[1][-1][-1], V):
            # the rest behind something that was measured
            i = v.a[1][-1][-1]
            if i.k == "agg" and "RangeFrom" in str(i.a[0]) and "len" in self.of(S, i.a[2][0], d - 1):
                return {"rest"}
        if v.k == "ref":
            return self.of(S, self.E.read(S.env, v.a[0], v.a[1]), d - 1)
        out = {str(t) for t in v.a[1]} if v.k == "S" else set()
        for x in v.a:
            for y in flat(x):
                out |= self.of(S, y, d - 1)
        return out

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if ev.p in E.F.bodies and not self.opaque(E.F.bodies[ev.p]) or ev.dest is None:
            return None
        t = set()
        for a in ev.args:
            t |= self.of(S, a) & {"text", "piece", "len", "rest", "zip"}
        if not t:
            return None
        new = lambda *x: Act(ret=E.fresh(S, "text", sorted(x)))
        opt = lambda x, none=(): Act(forks=[(S.st, agg(OPT, 1, (x,))), (S.st | set(none), agg(OPT, 0, ()))])
        ty = ev.destty()
        if l in ("parse", "from_str"):
            self.ok("numbers read", ev)
            if "piece" in t:
                self.add(S, "partial")
            return Act(ret=self.result(S, "number"))
        if l in ("len", "count") and ty.s == "usize":
            return new("len")
        if ty.s == "bool" and l not in ("eq", "ne"):
            return Act(ret=E.fresh(S, "cond", []))
        if l in self.LOSSY or l in self.SPLIT:
            return new("piece") if ty.d != OPT else opt(E.fresh(S, "text", ["piece"]))
        if l == "zip":
            return new("zip", *t)
        if l in ("index", "get") and n == 2 and ev.argty(0).peel().s == "str" and "len" in self.of(S, ev.args[1]):
            k = E.load(S.env, ev.args[1])
            if k.k == "agg" and "RangeFrom" in str(k.a[0]):
                return new("rest") if l == "index" else opt(E.fresh(S, "text", ["rest"]))
        if l in ("eq", "ne") and t & {"piece", "rest"} and n == 2 and any(E.load(S.env, a, 5).k == "s" for a in ev.args):
            return Act(forks=[(S.st | {"measured"}, B(int(l == "eq"))), (S.st, B(int(l == "ne")))])
        if l in ("next", "next_back", "get", "pop", "pop_front", "last", "first") and ty.d == OPT:
            return opt(E.fresh(S, "text", sorted(t)), ["measured"] if "piece" in t and "zip" not in t and l in ("next", "next_back", "get", "pop", "pop_front") else [])
        if ty.s in ("()", "bool"):
            return Act(ret=UNIT) if ty.s == "()" else None
        if ty.d in (OPT, RES):
            return Act(ret=self.result(S, "text", ty.d, sorted(t)))
        return new(*t)

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "op" and isinstance(x, int) and len(a.a) == 3 and "len" in (self.of(S, a.a[1]) | self.of(S, a.a[2])):
                o = a.a[0]
                if o == "Eq" and x or o == "Ne" and not x:
                    self.add(S, "measured")
                elif o in ("Lt", "Le", "Gt", "Ge") and ("len" in self.of(S, a.a[1])) == ((o in ("Lt", "Le")) == bool(x)):
                    self.add(S, "measured")
            if a is v and a.k == "S" and "len" in a.a[1] and isinstance(x, int):
                self.add(S, "measured")

    def on_end(self, S, v):
        if v.k == "agg" and v.a[0] == RES and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            return
        if "partial" in S.st:
            if "measured" not in S.st:
                self.rep(S, "passed-over", None, "a part of a ttl's text is passed over instead of being refused", " " + S.frame.body.p)
        self.ok("ways a ttl is read", type("e", (), {"body": S.frame.body}))


class Register(Times):
    name = "ttl-registered"
    opt_ttl = None

    def __init__(self, ctx, roots, inner):
        Part.__init__(self, ctx, roots)
        self.inner = inner

    def opaque(self, body):
        return body.p not in self.inner

    def root_tags(self, body, i):
        return ("hdr",) if body.lty(i + 1).peel().d == HDR else ()

    def ttl(self, S, v):
        return "hdr" in steps(self.E.F, v)[1] and is_field(self.E.F, v, HDR, "ttl_secs")

    def named(self, S, v):
        v = self.val(S, v)
        return "nm" in origin(v) or "hdr" in steps(self.E.F, v)[1] and is_field(self.E.F, v, HDR, "name")

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and isinstance(x, int):
                if "sum" in origin(a.a[0]):
                    self.drop(S, "beyond")
                    self.add(S, *(["beyond"] if x == 0 else []))
                elif self.ttl(S, a.a[0]):
                    self.drop(S, "has")
                    self.add(S, ("has", x))

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        r = self.time(S, ev)
        if r is not None:
            return r
        if l in SHOWS and n == 1 and "String" in ev.argty(0).peel().s and self.named(S, ev.args[0]):
            return Act(ret=E.fresh(S, "name", ["nm"]))
        if l in ("map", "and_then") and n == 2 and "Option" in p and self.ttl(S, self.val(S, ev.args[0])):
            return None
        if l == "insert" and n == 3 and is_table(ev.argty(0).peel()):
            self.ok("sessions created", ev)
            self.add(S, "inserted")
            return None
        if l.startswith(("send", "try_send")) and "crossbeam_channel" in p and any(t.d == REC for t in ev.ta):
            v = self.val(S, ev.args[1])
            self.ok("registrations", ev)
            self.add(S, "registered")
            if v.k != "agg" or v.a[0] != REC:
                self.rep(S, "wrong-deadline", ev, "the record sent to the reaper cannot be told")
            else:
                for (nm, t), x in zip(fields(E.F, REC), v.a[2]):
                    if t is not None and t.d == INST and "due" not in self.t(S, x):
                        self.rep(S, "wrong-deadline", ev, "the deadline registered for a session is not its ttl in seconds from now")
                    if nm == "session_name" and not self.named(S, x):
                        self.rep(S, "wrong-deadline", ev, "the deadline is not registered for the session the request names")
            return Act(ret=self.result(S, "sent"))
        b = E.F.bodies.get(p)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def on_end(self, S, v):
        if "inserted" in S.st and "registered" not in S.st and "beyond" not in S.st and ("has", 0) not in S.st:
            self.rep(S, "unregistered", None, "a new session is put in the table, but its ttl is not registered", " " + S.frame.body.p)
        if "inserted" in S.st:
            self.ok("ways a session is created", type("e", (), {"body": S.frame.body}))


class Reap(Times):
    name = "ttl-reaper"
    K = 4

    def __init__(self, ctx, roots, inner, kills):
        Part.__init__(self, ctx, roots)
        self.inner, self.kills = inner, kills
        self.gets = set()

    def opaque(self, body):
        return body.p not in self.inner

    def due(self, S, v):
        return "peek" in steps(self.E.F, v)[1] and is_field(self.E.F, v, REC, "reap_at")

    def heap(self, ev):
        t = ev.argty(0).peel() if ev.ops else None
        return t is not None and t.mentions(REC) and not (t.d or "").startswith("crossbeam")

    def waits(self, S, ev):
        if "pending" in S.st:
            self.rep(S, "forgotten", ev, "a record sent to the reaper is not put into its queue")
        if "popped" in S.st:
            self.rep(S, "not-reaped", ev, "a session's ttl has run out, but the session is not killed")
        self.drop(S, "pending", "popped")

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        r = self.time(S, ev)
        if r is not None:
            return r
        if p in self.kills:
            self.ok("kills", ev)
            self.drop(S, "popped")
            return Act(ret=self.result(S, "killed"))
        if "crossbeam_channel" in p:
            if l in ("at", "after"):
                if l == "at" and "due" not in self.t(S, ev.args[0]) or l == "after" and "left" not in self.t(S, ev.args[0]):
                    self.rep(S, "wrong-wake-up", ev, "the reaper waits for something else than the deadline that is first in its queue")
                elif "fresh" not in S.st:
                    self.rep(S, "wrong-wake-up", ev, "the reaper waits for a deadline that need no longer be the first in its queue")
                self.ok("wake-ups", ev)
                return Act(ret=E.fresh(S, "timer", ["timer"]))
            if l in ("select", "select_timeout", "ready"):
                self.waits(S, ev)
                return None
            if l.startswith(("recv", "try_recv")):
                if any(t.d == INST for t in ev.ta) or any((ev.argty(i).peel().d or "").endswith("Receiver") and ev.argty(i).mentions(INST) and not ev.argty(i).mentions(REC) for i in range(n)):
                    self.add(S, "fired")
                    return Act(ret=self.result(S, "tick"))
                if any(t.d == REC for t in ev.ta) or any(ev.argty(i).mentions(REC) for i in range(n)):
                    self.waits(S, ev)
                    if l in ("recv_timeout", "recv_deadline"):
                        if l == "recv_deadline" and "due" not in self.t(S, ev.args[1]) or l == "recv_timeout" and "left" not in self.t(S, ev.args[1]):
                            self.rep(S, "wrong-wake-up", ev, "the reaper waits for something else than the deadline that is first in its queue")
                        elif "fresh" not in S.st:
                            self.rep(S, "wrong-wake-up", ev, "the reaper waits for a deadline that need no longer be the first in its queue")
                        self.ok("wake-ups", ev)
                        got = E.fresh(S, "record", ["new"])
                        return Act(forks=[(S.st | {"pending"}, agg(RES, 0, (got,))), (S.st | {"fired"}, agg(RES, 1, (self.result(S, "why", "crossbeam_channel::RecvTimeoutError", ["why"]),)))])
                    got = E.fresh(S, "record", ["new"])
                    return Act(forks=[(S.st | {"pending"}, agg(RES, 0, (got,))), (S.st, agg(RES, 1, (E.fresh(S, "closed"),)))])
        if self.heap(ev):
            if l in ("push", "push_back", "insert"):
                vs = frozenset().union(*[deep(self.val(S, a)) | origin(self.val(S, a)) for a in ev.args[1:]])
                if "new" in vs:
                    self.ok("records queued", ev)
                    self.drop(S, "pending")
                if "popped" in vs:
                    self.drop(S, "popped")
                self.drop(S, "fresh")
                return Act(ret=UNIT)
            if l in ("peek", "first", "first_key_value", "peek_mut"):
                self.add(S, "fresh")
                return Act(ret=self.result(S, "peek", OPT, ["peek"]))
            if l in ("pop", "pop_first"):
                if "fired" not in S.st:
                    self.rep(S, "early", ev, "a record is taken from the reaper's queue before its deadline has passed")
                self.ok("records taken", ev)
                self.drop(S, "fired", "fresh")
                # nothing but what was first when the timer was set can be due
                self.add(S, "popped")
                return Act(ret=agg(OPT, 1, (E.fresh(S, "rec", ["popped"]),)))
            if l in ("clear", "drain", "retain", "into_vec", "into_sorted_vec", "append", "truncate"):
                self.rep(S, "forgotten", ev, "records of the reaper's queue are dropped (%s)" % l)
        if l in LOOK and n == 2 and is_table(ev.argty(0).peel()) and l.startswith("get"):
            r = self.result(S, "entry", OPT, ["entry"])
            return Act(ret=r)
        if l == "ptr_eq":
            r = E.fresh(S, "same", ["same"])
            return Act(ret=r)
        b = E.F.bodies.get(p)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and "entry" in origin(a.a[0]) and x == 0:
                self.drop(S, "popped")
            if a.k == "S" and "same" in a.a[1] and x == 0:
                self.drop(S, "popped")
            if a.k == "op" and a.a[0] in ("Ge", "Gt", "Le", "Lt") and isinstance(x, int):
                l, r = self.t(S, a.a[1]), self.t(S, a.a[2])
                late = "now" in l and "due" in r and (a.a[0] in ("Ge", "Gt")) == bool(x) or "due" in l and "now" in r and (a.a[0] in ("Le", "Lt")) == bool(x)
                if late and "fresh" in S.st:
                    self.add(S, "fired")
            if a.k == "discr" and "why" in origin(a.a[0]) and x != 0:
                self.drop(S, "fired")

    def on_end(self, S, v):
        if "popped" in S.st:
            self.rep(S, "not-reaped", None, "a session's ttl has run out, but the session is not killed", " " + S.frame.body.p)


class Order(Part):
    """which of two records the queue puts first"""
    name = "ttl-order"
    K = 3

    def __init__(self, ctx, roots, want):
        Part.__init__(self, ctx, roots)
        self.want = want

    def opaque(self, body):
        return False

    def root_tags(self, body, i):
        return ("a",) if i == 0 else ("b",)

    def side(self, S, v):
        E = self.E
        n = 0
        while v.k == "ref" and n < 4:
            v, n = E.load(S.env, v), n + 1
        t = steps(E.F, v)[1]
        if not is_field(E.F, v, REC, "reap_at"):
            return None
        return "a" if "a" in t else "b" if "b" in t else None

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if l in ("cmp", "partial_cmp") and n == 2 and ev.argty(0).peel().d == INST:
            x, y = self.side(S, ev.args[0]), self.side(S, ev.args[1])
            t = "natural" if (x, y) == ("a", "b") else "reverse" if (x, y) == ("b", "a") else "unknown"
            r = E.fresh(S, "order", [t])
            return Act(ret=r if l == "cmp" else agg(OPT, 1, (r,)))
        if l in ("reverse", "then", "then_with", "map", "unwrap", "expect") and n:
            v = E.load(S.env, ev.args[0])
            while v.k == "agg" and v.a[0] == OPT and v.a[2]:
                v = v.a[2][0]
            t = origin(v)
            if t & {"natural", "reverse"} and l != "map":
                if l == "reverse":
                    t = {"natural"} if "reverse" in t else {"reverse"}
                return Act(ret=E.fresh(S, "order", sorted(t)))
        return None

    def on_end(self, S, v):
        E = self.E
        v = E.load(S.env, v)
        while v.k == "agg" and v.a[0] == OPT and v.a[2]:
            v = v.a[2][0]
        if self.want in origin(v):
            return self.ok("orders", type("e", (), {"body": S.frame.body}))
        self.rep(S, "wrong-order", None, "the reaper's queue does not give the earliest deadline first", " " + S.frame.body.p)


class Client(Part):
    """the request carries the ttl that was given"""
    name = "ttl-sent"
    K = 4

    def __init__(self, ctx, roots, parse, inner):
        Part.__init__(self, ctx, roots)
        self.parse, self.inner = parse, inner

    def opaque(self, body):
        return body.p not in self.inner

    def root_tags(self, body, i):
        return ("opt",) if body.lty(i + 1).d == OPT and i + 1 in self.ttls(body) else ()

    def ttls(self, body):
        """parameters that reach a parser of durations"""
        out = set()
        for bb in body.blocks:
            t = bb["t"]
            if t[0] == "call" and "k" in t[1]:
                fn = t[1]["k"].get("fn")
                if fn and (fn.get("r") or fn["p"]) in self.parse:
                    out |= {x[1] for o in t[2] for x in sources(body, o) if x[0] == "param"}
        return out

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "discr" and isinstance(x, int):
                if "parsed" in origin(a.a[0]) and x == 1:
                    self.add(S, "bad")
                elif "opt" in origin(a.a[0]):
                    self.drop(S, "given")
                    self.add(S, ("given", x))

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        if p in self.parse:
            self.ok("ttls parsed", ev)
            return Act(ret=self.result(S, "parsed", RES, ["parsed"]))
        if l in ("as_ref", "as_deref", "clone") and n == 1 and "opt" in origin(E.load(S.env, ev.args[0])):
            return Act(ret=E.load(S.env, ev.args[0]))
        for i in range(n):
            if ev.argty(i).peel().d == CLI and ev.p in E.F.bodies:
                self.check(S, ev, E.load(S.env, ev.args[i]))
        b = E.F.bodies.get(p)
        if b is not None and self.opaque(b) and b.kind != "closure" and b.lty(0).d == RES:
            return Act(ret=self.result(S, "done"))
        return None

    def check(self, S, ev, v):
        if v.k != "agg" or v.a[0] != CLI:
            return
        if "bad" in S.st:
            self.rep(S, "ignored", ev, "an attach goes on although its ttl could not be parsed")
        x = next(x for (nm, t), x in zip(fields(self.E.F, CLI), v.a[2]) if t is not None and t.d == OPT and DUR in t.s)
        if x.k == "agg" and x.a[0] == OPT and x.a[1] == 0:
            if ("given", 0) not in S.st:
                self.rep(S, "ignored", ev, "the ttl that was given is dropped")
        elif not ("parsed" in origin(x) or x.k == "agg" and x.a[2] and "parsed" in origin(x.a[2][0])):
            self.rep(S, "ignored", ev, "the ttl used is not the one that was given")
        self.ok("ttls kept", ev)


def closure_sources(F, b, o, depth=3):
    out = set()
    for x in sources(b, o):
        out.add(x)
        if x[0] == "closure" and depth and x[1] in F.bodies:
            c = F.bodies[x[1]]
            out |= closure_sources(F, c, {"c": [0]}, depth - 1)
    return out


def sent(ctx):
    """ttl_secs of every attach request that is built"""
    F, G = ctx.F, ctx.G
    n = 0
    fi = index_of(F, HDR, "ttl_secs")
    for p, b in sorted(F.bodies.items()):
        if not p.startswith("libshpool::"):
            continue
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is None or st[2][0] != "agg" or st[2][1][0] != "adt" or st[2][1][1] != HDR:
                    continue
                n += 1
                src = closure_sources(F, b, st[2][2][fi])
                calls = {x[-1].rsplit("::", 1)[-1] for x in src if x[0] == "call"}
                wrong = calls & {"as_millis", "as_micros", "as_nanos", "subsec_nanos", "min", "max", "clamp", "saturating_sub", "saturating_mul", "filter", "take", "checked_sub", "saturating_add", "wrapping_mul", "subsec_millis"}
                keep = any(x[0] == "field" and x[1] in ("ttl", "ttl_secs") for x in src) or any(x[0] == "param" for x in src)
                arith = arithmetic(F, b, st[2][2][fi])
                if wrong or not keep or arith:
                    ctx.bad("not-sent", "ttl|" + G.owner(p), "the request does not carry the ttl that was given, in seconds (%s)" % ", ".join(sorted(wrong) or ["arithmetic" if arith else "not taken from it"]), str(st[0]) if st[0] else p, [])
                else:
                    ctx.ok("ttl sent", G.owner(p))
    ctx.floor("requests built", n, 1)


def arithmetic(F, b, o):
    todo, seen = [(b, o)], set()
    while todo:
        b, o = todo.pop()
        for x in sources(b, o):
            if x[0] == "closure" and x[1] in F.bodies and x[1] not in seen:
                seen.add(x[1])
                c = F.bodies[x[1]]
                if any(st[1] is not None and st[2][0] == "bin" and st[2][1] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") for bb in c.blocks for st in bb["s"]):
                    return True
    return False


def lengths(b, o):
    """is it made of lengths and positions in a text alone?"""
    src = sources(b, o)
    calls = {x[-1].rsplit("::", 1)[-1] for x in src if x[0] == "call" and "fmt::" not in x[-1]}
    if all(x[0] == "const" for x in src):
        return True
    return bool(calls & {"len", "len_utf8", "count", "find", "rfind", "position"}) and not calls & {"parse", "from_str", "from_str_radix", "to_digit"}


def wraps(ctx, fns):
    """arithmetic on the numbers of a ttl"""
    F, G = ctx.F, ctx.G
    R = c22.Ranges(ctx)
    n = 0
    for p in sorted(fns):
        b = F.bodies[p]
        n += 1
        for i, bb in enumerate(b.blocks):
            if bb.get("cl"):
                continue
            for st in bb["s"]:
                if st[1] is None or st[2][0] != "bin" or not st[2][1].startswith(("Add", "Mul", "Sub", "Shl")):
                    continue
                op = st[2][1][:3]
                if all(lengths(b, o) for o in st[2][2:4]):
                    continue
                x, y = (R.val(b, o, i) for o in st[2][2:4])
                pl = next((o.get("c") or o.get("m") for o in st[2][2:4] if o.get("c") or o.get("m")), None)
                ty = c22.INT.get(c22.place_ty(b, pl).peel().s) if pl else None
                if ty is None or ty[1] < 2 ** 31:
                    continue
                r = R.arith(op, x, y)
                if ty[0] <= r[0] and r[1] <= ty[1]:
                    ctx.ok("arithmetic that cannot wrap", "%s %s" % (G.owner(p), op))
                else:
                    ctx.bad("wraps", "wraps|%s|%s" % (G.owner(p), op), "a ttl that is too large wraps around to a small one instead of being refused", p, [])
            t = bb["t"]
            if t[0] == "call" and "k" in t[1]:
                fn = t[1]["k"].get("fn")
                q = (fn.get("r") or fn["p"]) if fn else ""
                if q.rsplit("::", 1)[-1] in ("sum", "product") and c22.INT.get(c22.place_ty(b, t[3]).peel().s):
                    ctx.bad("wraps", "wraps|%s|%s" % (G.owner(p), q), "a ttl that is too large wraps around to a small one instead of being refused", p, [])
                if "num::" in q and q.rsplit("::", 1)[-1].startswith(("wrapping_", "overflowing_", "unchecked_")):
                    ctx.bad("wraps", "wraps|%s|%s" % (G.owner(p), q), "a ttl that is too large wraps around to a small one instead of being refused", p, [])
    ctx.floor("functions that read a ttl", n, 1)


def run(ctx):
    ctx.rule("ttl: parsed without wrapping, sent, registered with its deadline, and reaped at that deadline")
    F, G = ctx.F, ctx.G
    parse = {p for p, b in F.bodies.items() if b.kind != "closure" and p.startswith("libshpool::") and b.argc >= 1 and b.lty(0).d == RES and b.lty(0).args and b.lty(0).args[0].d == DUR and b.lty(1).peel().s == "str"}
    used = {p for p in parse if any(s.p == p and s.body.p not in parse for s in G.sites)}
    wraps(ctx, {p for p in G.reach(used) if p in F.bodies and p.startswith("libshpool::duration") or p in parse})
    sent(ctx)
    client = {G.owner(s.body.p) for s in G.sites if s.p in used and s.body.p.startswith("libshpool::")}
    cparts = [Client(ctx, client, used, set(p for p in F.bodies if F.bodies[p].kind == "closure"))]
    ctx.floor("clients that parse a ttl", len(client), 1)

    sends = {s.body.p for s in G.sites if last(s).startswith(("send", "try_send")) and "crossbeam_channel" in s.p and any(t.d == REC for t in s.ta)}
    puts = {s.body.p for s in G.sites if last(s) == "insert" and len(s.t[2]) == 3 and is_table(s.argty(0).peel())}
    goal = {G.owner(p) for p in sends | puts}
    up = G.up(goal) | goal
    hdrs = {p for p, b in F.bodies.items() if b.kind != "closure" and p.startswith("libshpool::daemon::server::") and any(b.lty(i).peel().d == HDR for i in range(1, b.argc + 1))}
    inner = {p for p in F.bodies if p.startswith("libshpool::daemon::server::") and (p in up or F.bodies[p].kind == "closure" or p in sends | puts)}
    # the innermost functions that see both the table and the registration
    both_ = {p for p in hdrs if p in up and goal <= (G.reach({p}) | {p})}
    roots = {p for p in both_ if not any(q != p and q in G.reach({p}) for q in both_)} or both_
    reg = Register(ctx, roots, inner)
    ctx.floor("functions that create sessions with a ttl", len(roots), 1)

    kills = G.up(G.calling(lambda s: s.p in ("nix::sys::signal::kill", "libc::kill"))) | G.calling(lambda s: s.p in ("nix::sys::signal::kill", "libc::kill"))
    mod = {p for p in F.bodies if p.startswith("libshpool::daemon::ttl_reaper") or F.bodies[p].kind == "closure" and "ttl_reaper" in p}
    reapers = {p for p in mod if F.bodies[p].kind != "closure" and any((F.bodies[p].lty(i).peel().d or "").endswith("Receiver") and F.bodies[p].lty(i).mentions(REC) for i in range(1, F.bodies[p].argc + 1))}
    reapers = {p for p in reapers if not any(s.p == p and s.body.p in mod for s in G.sites)}
    reap = Reap(ctx, reapers, mod, {p for p in kills if p not in mod})
    ctx.floor("reapers", len(reapers), 1)

    heaps = {t.s for s in G.sites if s.body.p in mod and s.t[2] and last(s) in ("push", "pop", "peek") for t in [s.argty(0).peel()] if (t.d or "").endswith("BinaryHeap")}
    want = "natural" if any("Reverse<" in x for x in heaps) else "reverse"
    ords = {p for p in F.bodies if p.endswith(("std::cmp::Ord>::cmp", "std::cmp::PartialOrd>::partial_cmp")) and p.split(" as ")[0].endswith(REC.split("::", 1)[1])}
    order = Order(ctx, ords, want)
    ctx.floor("orders of records", len(ords), 1)
    text = Text(ctx, used, {p for p in G.reach(used) | used if p in F.bodies and p.startswith("libshpool::")})
    run_parts(ctx, cparts + [reg, reap, order, text])
    floors(ctx, [text], "numbers read", "ways a ttl is read")
    floors(ctx, cparts, "ttls parsed", "ttls kept")
    floors(ctx, [reg], "registrations", "sessions created", "ways a session is created")
    floors(ctx, [reap], "wake-ups", "records queued", "records taken", "kills")
    floors(ctx, [order], "orders")
