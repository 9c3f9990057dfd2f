"""C14: reattaching restores the screen before anything new is shown."""
from .part import *
from .c12 import names

EXPLAIN = ("The output relay is explored with every message, read and write result left open. Once a new client's connection has been received by a relay that has read shell output before, the history is "
           "resized to that client's size, the terminal is given another size first and the client's own size is given or kept pending for as long as it has not been, and the restore data is asked for after the "
           "resize and sent whole, block by block, and flushed before the terminal is polled or read again and before any other data. Each restore engine is judged by itself: everything it is given goes "
           "to the terminal model, a resize passes on the new rows (and columns), the restore data is the screen or the configured number of lines followed by the input modes; the engine is picked by the "
           "configured mode, and the size a connection is announced with is the one in the client's request.")
ASSUME = ["unwinding paths are not followed", "the terminal models (shpool_vt100, shpool_vterm) themselves are trusted", "how long the interim size is kept is not judged"]

MSG = "libshpool::daemon::shell::ClientConnectionMsg"
CONN = "libshpool::daemon::shell::ClientConnection"
SIZE = "shpool_protocol::TtySize"
CHUNK = "shpool_protocol::Chunk"
KIND = "shpool_protocol::ChunkKind"
MODE = "libshpool::config::SessionRestoreMode"
HDR = "shpool_protocol::AttachHeader"
SPOOL = "libshpool::session_restore::SessionSpool"


def setters(F, G):
    """functions that give a terminal a size"""
    io = G.calling(lambda s: s.p.rsplit("::", 1)[-1] == "ioctl")
    up = G.up(io) | io
    return {p for p, b in F.bodies.items() if p in up and any(b.lty(i).peel().d == SIZE for i in range(1, b.argc + 1)) and any(b.lty(i).s == "i32" for i in range(1, b.argc + 1))}


def tagsof(v, d=6):
    """tags of everything a value is made of"""
    if not isinstance(v, V) or d == 0:
        return frozenset()
    if v.k == "S":
        return frozenset(v.a[1])
    out = frozenset()
    for x in v.a:
        for y in flat(x):
            out |= tagsof(y, d - 1)
    return out


def cells(F, v):
    """rows and columns of a size, if they can be told from the rest"""
    if v.k != "agg" or v.a[0] != SIZE:
        return v
    return agg("()", None, tuple(x for (n, _), x in zip(fields(F, SIZE), v.a[2]) if n in ("rows", "cols")))


def computed(v, d=5):
    """something is worked out (added, ...), not just taken over"""
    if not isinstance(v, V) or d == 0:
        return False
    if v.k == "op":
        # adding or taking away nothing is not a change
        return not (any(x in n for n in [str(v.a[0]).lower()] for x in ("add", "sub")) and I(0) in v.a[1:])
    return any(computed(y, d - 1) for x in v.a for y in flat(x))


class Reattach(Part):
    name = "reattach"
    K = 3

    def __init__(self, ctx, roots, setters, learn=None):
        Part.__init__(self, ctx, roots)
        self.setters, self.slots, self.learn = setters, learn if learn is not None else set(), learn is None
        self.msgs, self.empties = names(ctx.F, MSG), set()
        self.new = [d for d, n in self.msgs.items() if n == "New"][0]
        self.fs = [f[0] for f in ctx.F.adts[CHUNK]["v"][0]["f"]]
        G = ctx.G
        hot = {s.body.p for s in G.sites if "SessionSpool::" in s.p or last(s) == "write_to" or s.p in setters}
        self.reach = G.up(hot) | hot
        if self.learn:
            self.name = "reattach-slot"

    def opaque(self, body):
        return not (body.kind == "closure" or body.p.startswith("libshpool::daemon::shell::") and body.p in self.reach or body.lty(0).d == SIZE)

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l, n = ev.p, last(ev), len(ev.ops)
        if l in ("recv", "try_recv", "recv_timeout") and "crossbeam_channel" in p:
            r = self.result(S, ("got", ev.span[0]), RES, ["size" if SIZE in str([t.d for t in ev.ta]) else "msg"])
            if any(t.d == MSG for t in ev.ta):
                E.discr_n.setdefault(mk("discr", E.get(mk("dc", r, 0), ("f", 0, "0"))), (MSG, tuple(self.msgs)))
            return Act(ret=r)
        if l == "clone" and n == 1 and ev.argty(0).peel().d == SIZE:
            return Act(ret=E.load(S.env, ev.args[0]))
        if "SessionSpool" in p and l == "resize" and n > 1:
            if "owed-size" in S.st:
                if "msg" in tagsof(ev.args[1]) and not computed(ev.args[1]) and "size" not in tagsof(ev.args[1]):
                    self.ok("history resized", ev)
                    self.drop(S, "owed-size")
                else:
                    self.rep(S, "wrong-history-size", ev, "on reattach the history is not resized to the new client's own size")
            return Act(ret=UNIT)
        if "SessionSpool" in p and l == "restore_buffer":
            if "owed-size" in S.st:
                self.rep(S, "restored-before-resize", ev, "the restore data is worked out before the history has the new client's size")
            if "owed" in S.st:
                self.ok("restore data asked for", ev)
                self.drop(S, "owed")
                self.add(S, "unsent")
            r = E.fresh(S, "restore", ["restore"])
            return Act(ret=r)
        if p in self.setters and n > 1:
            b = F.bodies[p]
            i = [i for i in range(n) if b.lty(i + 1).peel().d == SIZE][0]
            a = ev.args[i]
            if self.learn:
                if a.k == "ref" and a.a[1]:
                    self.slots.add((a.a[0], a.a[1]))
                return None
            v = E.load(S.env, a)
            known = tagsof(v) & {"msg", "size"} or any(self.pending(S, r, q) for r, q in self.slots)
            if computed(cells(F, v)) or not known:
                if "owed-jiggle" in S.st:
                    self.ok("interim sizes", ev)
                    self.drop(S, "owed-jiggle")
                self.add(S, "odd")
            else:
                self.ok("client sizes set", ev)
                self.drop(S, "odd")
            r = self.result(S, "sized")
            return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), (S.st, agg(RES, 1, (E.fresh(S, "serr"),)))])
        if l in ("chunks", "chunks_exact") and n and "restore" in self.tags(S, ev.args[0]):
            if l == "chunks_exact":
                self.rep(S, "restore-cut", ev, "the last block of the restore data is left out")
            return Act(ret=E.fresh(S, "blocks", ["restore", "blocks"]))
        if l in ("as_slice", "deref", "as_ref", "borrow") and n == 1 and "restore" in self.tags(S, ev.args[0]):
            return Act(ret=E.fresh(S, "slice", sorted(self.tags(S, ev.args[0]))))
        if l in ("split_at", "split_first_chunk", "split_at_checked") and n and "restore" in self.tags(S, ev.args[0]):
            if l == "split_at":
                if "block" in S.st:
                    self.rep(S, "restore-cut", ev, "a block of the restore data is not sent")
                self.add(S, "block")
                return Act(ret=agg("()", None, (E.fresh(S, "head", ["restore", "block"]), E.fresh(S, "tail", ["restore"]))))
        if l in ("index", "get") and n == 2 and "restore" in self.tags(S, ev.args[0]):
            r = E.fresh(S, "part", ["restore", "part"])
            return Act(ret=r if l == "index" else agg(OPT, 1, (r,)))
        if l in ("len", "is_empty") and n and "restore" in self.tags(S, ev.args[0]):
            r = E.fresh(S, "restlen", ["restore", "islen" if l == "len" else "isempty"])
            return Act(ret=r)
        if l == "next" and n and "blocks" in self.tags(S, ev.args[0]):
            if "block" in S.st:
                self.rep(S, "restore-cut", ev, "a block of the restore data is not sent")
            r = self.result(S, "nextblock", OPT, ["restore", "block"])
            return Act(ret=r)
        if l in ("take", "skip", "step_by", "rev", "take_while", "skip_while", "filter", "nth", "truncate", "drain", "pop") and n and "restore" in self.tags(S, ev.args[0]):
            self.rep(S, "restore-cut", ev, "only a part of the restore data is sent, or in another order")
        if l == "write_to" and ("ChunkExt" in ev.q or CHUNK in p):
            c = E.load(S.env, ev.args[0])
            if c.k != "agg":
                return None
            kind, buf = c.a[2][self.fs.index("kind")], c.a[2][self.fs.index("buf")]
            data = kind.k == "agg" and F.adts[KIND]["v"][kind.a[1] or 0]["n"] == "Data"
            if "restore" in self.tags(S, buf):
                if not data:
                    self.rep(S, "restore-kind", ev, "the restore data is not sent as output")
                self.ok("restore blocks sent", ev)
                if buf.k == "ref" and buf.a[1] and not self.learn and "block" in self.tags(S, buf):
                    self.rep(S, "restore-cut", ev, "only a part of a block of the restore data is sent")
                self.drop(S, "block", "started")
                st = S.st - ({"unsent"} if not self.tags(S, buf) & {"block", "part"} and not (buf.k == "ref" and buf.a[1]) else set())
                return Act(forks=[(st | {"unflushed", "started"}, agg(RES, 0, (UNIT,))), (S.st - {"unsent", "unflushed"}, agg(RES, 1, (E.fresh(S, "werr"),)))])
            if data:
                self.settled(S, ev)
            return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), (S.st, agg(RES, 1, (E.fresh(S, "werr"),)))])
        if l == "flush" and "io::Write" in ev.q:
            return Act(forks=[(S.st - {"unflushed"}, agg(RES, 0, (UNIT,))), (S.st - {"unflushed"}, agg(RES, 1, (E.fresh(S, "ferr"),)))])
        if l in ("poll", "ppoll") or l == "read" and "Read" in ev.q and "pty" in p.lower():
            self.settled(S, ev)
            if l == "read":
                self.add(S, "running")
        return None

    def tags(self, S, v):
        for _ in range(3):
            t = tagsof(v)
            if "restore" in t:
                return t
            if v.k != "ref":
                return t
            v = self.E.load(S.env, v)
        return tagsof(v)

    def settled(self, S, ev):
        for f, c, m in (("owed", "not-restored", "shell output is handled again before a reattached client has been sent the restore data"),
                        ("unsent", "not-restored", "shell output is handled again before a reattached client has been sent all of the restore data"),
                        ("block", "restore-cut", "a block of the restore data is not sent"),
                        ("unflushed", "not-flushed", "the restore data is not flushed before the relay waits for output"),
                        ("owed-size", "not-resized", "the history is not resized to the new client's terminal"),
                        ("owed-jiggle", "no-redraw", "the shell is not made to redraw by a size change when a client reattaches")):
            if f in S.st and not self.learn:
                self.rep(S, c, ev, m)
        if "odd" in S.st and not self.learn and not any(self.pending(S, r, q) for r, q in self.slots):
            self.rep(S, "left-at-interim-size", ev, "the terminal is left at a size that is not the client's")

    def pending(self, S, r, q):
        """the place the final size is taken from holds a client's size"""
        E = self.E
        for i in range(len(q), -1, -1):
            v = E.read(S.env, r, q[:i])
            if v.k == "agg" and v.a[0] == OPT:
                if v.a[1] == 0:
                    return False
                t = tagsof(v)
                return bool(t & {"msg", "size"}) and not self.off(v)
        v = E.read(S.env, r, q)
        return bool(tagsof(v) & {"msg", "size"}) and not computed(v)

    def off(self, v):
        """a size in there has been computed"""
        if v.k == "agg" and v.a[0] == SIZE:
            return computed(v)
        return v.k == "agg" and any(isinstance(x, V) and self.off(x) for x in v.a[2])

    def on_branch(self, S, v, val):
        E = self.E
        n = E.discr_n.get(v, (None,))[0] if v.k == "discr" else None
        if n == MSG and isinstance(val, int):
            self.arrived(S, v.a[0], val)
        if n == OPT and "block" in tagsof(v):
            if val == 1:
                self.add(S, "block")
            else:
                self.drop(S, "unsent")
        for a, x in both(v, val):
            t = tagsof(a)
            if "isempty" in t and x == 1 or "islen" in t and (a.k == "S" and x == 0 or a.k == "op" and self.none_left(a, x)):
                self.drop(S, "unsent")

    def none_left(self, a, x):
        return a.a[0] == "Eq" and I(0) in a.a[1:] and x == 1 or a.a[0] == "Ne" and I(0) in a.a[1:] and x == 0 or a.a[0] in ("Lt", "Le", "Gt", "Ge")

    def arrived(self, S, m, val):
        """a message just received is found to be / the current client is found not to be a connection"""
        if val == self.new:
            if "fresh" in S.st:
                self.drop(S, "fresh")
                if "running" in S.st:
                    self.add(S, "owed", "owed-size", "owed-jiggle")
        else:
            self.drop(S, "fresh", "unsent", "owed", "block")

    def on_discr(self, S, v, ty, n):
        if ty.d == MSG and n != self.new:
            self.drop(S, "unsent", "owed", "block")

    def on_result(self, S, ev, ret):
        if last(ev) in ("recv", "try_recv") and "crossbeam_channel" in ev.p and any(t.d == MSG for t in ev.ta):
            self.add(S, "fresh")
        return None


class Engine(Part):
    """one restore engine"""
    name = "engines"
    K = 6

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.kinds = {}        # spool type -> set of what its restore data is
        self.emu = {}

    def opaque(self, body):
        return body.argc > 0 and body.lty(1).peel().d == "libshpool::config::Manager"

    def impl(self, p):
        return p.split(" as ")[0].split("<", 1)[1]

    def start(self, root):
        return frozenset()

    def model(self, root):
        b = self.E.F.bodies[root]
        d = b.lty(1).peel().d
        return d in self.E.F.adts and any(t is not None and x in t.s for _, t in fields(self.E.F, d) for x in ("shpool_vt100", "shpool_vterm"))

    def root_tags(self, body, i):
        return ["arg%d" % i]

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        if l in ("with_capacity", "new", "default") and ev.p.startswith(("std::vec", "alloc::vec", "std::string")):
            return Act(ret=E.fresh(S, "empty"))
        if l in ("max", "min", "clamp"):
            return Act(ret=mk("op", l, *ev.args))
        emu = p.startswith("shpool_vt100::") or p.startswith("shpool_vterm::")
        if emu and l == "process" and n == 2:
            v = ev.args[1]
            if v.k == "ref" and v.a[1] or "arg1" not in tagsof(v):
                self.rep(S, "not-all-recorded", ev, "a restore engine is not given all of the output")
            self.ok("output modelled", ev)
            self.add(S, "processed")
            return Act(ret=UNIT)
        if emu and l in ("set_size", "resize"):
            if l == "resize":
                s = E.load(S.env, ev.args[1])
                fs = [f[0] for f in (E.F.adts.get(s.a[0]) or {"v": [{"f": []}]})["v"][0]["f"]] if s.k == "agg" else []
                h, w = (s.a[2][fs.index("height")], s.a[2][fs.index("width")]) if fs else (None, None)
            else:
                h, w = ev.args[1], None
            if h is not None and not ("rows" in str(h) and "cols" not in str(h)):
                self.rep(S, "wrong-rows", ev, "a resize does not give the model the new number of rows")
            if w is not None and not ("cols" in str(w) and "rows" not in str(w)):
                self.rep(S, "wrong-columns", ev, "a resize does not give the model the new number of columns")
            self.ok("models resized", ev)
            self.add(S, "resized")
            return Act(ret=UNIT)
        if emu and l in ("contents_formatted", "last_n_rows_contents_formatted", "contents", "input_mode_formatted", "state_formatted"):
            if l == "input_mode_formatted":
                return Act(ret=E.fresh(S, "modes", ["modes"]))
            what = {"contents_formatted": "screen", "state_formatted": "screen", "last_n_rows_contents_formatted": "lines"}.get(l)
            arg = None
            if l == "last_n_rows_contents_formatted":
                arg = str(ev.args[1])
            if l == "contents":
                r = E.load(S.env, ev.args[1])
                nm = self.E.F.adts[r.a[0]]["v"][r.a[1] or 0]["n"] if r.k == "agg" and r.a[0] in self.E.F.adts else str(r)
                what = {"Screen": "screen", "BottomLines": "lines"}.get(nm, nm)
                if what == "screen" and r.k == "agg" and r.a[2]:
                    what = nm
                self.add(S, ("mode-" + what, self.mode(S)))
                if what == "lines" and not ("arg0" in tagsof(r) and not self.computed(r)):
                    self.rep(S, "wrong-line-count", ev, "the number of lines restored is not the configured one")
            elif what == "lines" and not ("arg0" in tagsof(ev.args[1]) and not self.computed(ev.args[1])):
                self.rep(S, "wrong-line-count", ev, "the number of lines restored is not the configured one")
            self.drop(S, "what")
            self.add(S, ("what", what))
            return Act(ret=E.fresh(S, "contents", ["contents"] + (["whole"] if l in ("contents", "state_formatted") else [])))
        if l in ("extend", "append", "extend_from_slice", "write_all", "push_str", "chain") and n == 2:
            d, a = self.tags(S, ev.args[0]), self.tags(S, ev.args[1])
            if "contents" in d and "modes" in a:
                self.add(S, "joined")
            elif "modes" in d and "contents" in a:
                self.rep(S, "modes-first", ev, "the input modes are restored before the contents, which reset them")
            elif a & {"contents", "modes"} and ev.args[0].k == "ref":
                E.write(S.env, ev.args[0].a[0], ev.args[0].a[1], E.fresh(S, "joined", sorted(d | a)))
            if l == "chain":
                return Act(ret=E.fresh(S, "joined", sorted(d | a)))
            return Act(ret=UNIT)
        if l == "concat":
            x = E.load(S.env, ev.args[0])
            t = [self.tags(S, y) for y in x.a[2]] if x.k == "agg" else []
            if len(t) == 2 and "contents" in t[0] and "modes" in t[1]:
                self.add(S, "joined")
                return Act(ret=E.fresh(S, "joined", ["contents", "modes"]))
        if l in ("truncate", "clear", "drain", "split_off", "pop") and self.tags(S, ev.args[0]) & {"contents", "modes"}:
            self.rep(S, "restore-cut", ev, "a part of the restore data is thrown away")
        return None

    def computed(self, v):
        return v.k == "op" and v.a[0] != "cast" or any(isinstance(y, V) and (y.k == "op" and y.a[0] not in ("cast",) or self.computed(y)) for x in v.a for y in flat(x) if isinstance(y, V))

    def tags(self, S, v):
        t = tagsof(v)
        for _ in range(3):
            if t & {"contents", "modes"} or v.k != "ref":
                return t
            v = self.E.load(S.env, v)
            t = tagsof(v)
        return t

    def mode(self, S):
        return next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "mode"), None)

    def on_branch(self, S, v, val):
        if v.k == "discr" and self.E.discr_n.get(v, (None,))[0] == MODE and isinstance(val, int):
            self.drop(S, "mode")
            self.add(S, ("mode", val))

    def on_end(self, S, v):
        root = S.root if hasattr(S, "root") else S.frame.body.p
        what = root.rsplit("::", 1)[-1]
        me = self.E.F.bodies[root].lty(1).peel().d
        if not self.model(root):
            if what == "restore_buffer":
                self.kinds.setdefault(me, set()).add(("none", None))
            return
        if what == "process" and "processed" not in S.st:
            self.rep(S, "not-recorded", None, "a restore engine drops output", " " + root)
        if what == "resize" and "resized" not in S.st:
            self.rep(S, "not-resized", None, "a restore engine ignores the new size", " " + root)
        if what == "restore_buffer":
            w = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "what"), "none")
            self.kinds.setdefault(me, set()).add((w, self.mode(S)))
            t = self.tags(S, v)
            if w != "none" and "contents" not in t:
                self.rep(S, "restore-lost", None, "the restore data is not handed out", " " + root)
            if w != "none" and "whole" not in t and "joined" not in S.st:
                self.rep(S, "modes-lost", None, "the terminal's input modes are not restored along with the contents", " " + root)
            self.seen.add(("restore data", me + " " + str(w)))


class Choice(Part):
    """which engine is used"""
    name = "engine-choice"
    K = 8

    def __init__(self, ctx, roots, kinds):
        Part.__init__(self, ctx, roots)
        self.kinds, self.modes = kinds, names(ctx.F, MODE)

    def opaque(self, body):
        return body.argc > 0 and body.lty(1).peel().d == "libshpool::config::Manager"

    def on_branch(self, S, v, val):
        if v.k == "discr" and self.E.discr_n.get(v, (None,))[0] == MODE and isinstance(val, int):
            self.drop(S, "mode")
            self.add(S, ("mode", val))

    def on_call(self, S, ev):
        if ev.p == "std::boxed::Box::<T>::new" and ev.ta and ev.ta[0].d in self.kinds:
            d = ev.ta[0].d
            m = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "mode"), None)
            v = self.E.load(S.env, ev.args[0])
            got = self.kinds[d]
            byself = any(k[1] is not None for k in got)      # the engine looks at the mode itself
            tys = [t for _, t in fields(self.E.F, d)]
            if byself:
                for val in self.modes:
                    want = {"Simple": "none", "Screen": "screen", "Lines": "lines"}.get(self.modes[val])
                    g = {k[0] for k in got if k[1] in (val, None)}
                    if want and g and g != {want} and not (want == "none" and not g):
                        self.E.report(S, "wrong-restore", d + " " + self.modes[val], "with restore mode %s the restore data is %s" % (self.modes[val], "/".join(sorted(g))))
                i = [i for i, t in enumerate(tys) if t.d == MODE]
                if v.k != "agg" or not i or not self.configured(v.a[2][i[0]], m):
                    self.rep(S, "mode-not-configured", ev, "the restore engine is not given the configured mode")
                self.ok("engines chosen", ev)
                return None
            if m is None:
                self.rep(S, "mode-ignored", ev, "the restore engine is chosen without looking at the configured mode")
                return None
            want = {"Simple": "none", "Screen": "screen", "Lines": "lines"}.get(self.modes[m])
            if want and {k[0] for k in got} != {want}:
                self.rep(S, "wrong-restore", ev, "with restore mode %s the restore data is %s" % (self.modes[m], "/".join(sorted(k[0] for k in got))), " " + self.modes[m])
            if want == "lines":
                i = [i for i, t in enumerate(tys) if t.s in ("u16", "usize", "u32")]
                if v.k != "agg" or not i or v.a[2][i[0]].k == "i" or "session_restore_mode" not in str(v.a[2][i[0]]) and not ("restoremode" in tagsof(v.a[2][i[0]])):
                    self.rep(S, "wrong-line-count", ev, "the number of lines restored is not the configured one")
            self.ok("engines chosen", ev)
        return None

    def configured(self, v, m):
        return v.k != "agg" or v.a[1] == m


def run(ctx):
    ctx.rule("reattach: resize history, jiggle, restore whole, then output")
    F, G = ctx.F, ctx.G
    relays = {s.body.p for s in G.sites if "SessionSpool" in s.p and last(s) == "restore_buffer" and not s.body.p.startswith("libshpool::session_restore")}
    up = set()
    for p in relays:
        b = F.bodies[p]
        up |= {p} if b.kind == "closure" else {s.body.p for s in G.sites if s.p == p}
    sz = setters(F, G)
    ctx.floor("size setters", len(sz), 1)
    learn = Reattach(ctx, up, sz)
    ctx.engine(learn)
    relay = Reattach(ctx, up, sz, learn.slots)
    eng = Engine(ctx, {p for p in F.bodies if "as session_restore::SessionSpool>::" in p and "{closure" not in p})
    run_parts(ctx, [relay, eng])
    choice = Choice(ctx, {G.owner(s.body.p) for s in G.sites if s.p == "std::boxed::Box::<T>::new" and s.ta and s.ta[0].d in eng.kinds}, eng.kinds)
    run_parts(ctx, [choice])
    size = [n for n, t in fields(F, CONN)].index("size") if "size" in dict(fields(F, CONN)) else [i for i, (n, t) in enumerate(fields(F, CONN)) if t.d == SIZE][0]
    made = 0
    for b in F.bodies.values():
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][:2] == ["adt", SIZE] and b.p.startswith("libshpool::daemon::"):
                    ctx.check(not any("k" in o for o in st[2][2][:2]), "sizes made in the daemon", G.owner(b.p), "the daemon makes up a terminal size", "%s:%s" % (b.file, st[0][0]))
                if st[1] is not None and st[2][0] == "agg" and st[2][1][:2] == ["adt", CONN]:
                    made += 1
                    ctx.check(("field", "local_tty_size") in sources_up(ctx, b, st[2][2][size]), "announced size", G.owner(b.p), "a connection is not announced with the size of the client's terminal", "%s:%s" % (b.file, st[0][0]))
    ctx.floor("connections announced", made, 1)
    floors(ctx, [relay, eng, choice], "history resized", "interim sizes", "client sizes set", "restore data asked for", "restore blocks sent", "output modelled", "models resized", "restore data", "engines chosen")
