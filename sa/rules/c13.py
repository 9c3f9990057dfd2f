"""C13: shell output reaches both the screen model and the client."""
from .part import *
from .c12 import Pump, names

EXPLAIN = ("The relay is explored with every read, poll answer, message and write result left open, up to the join of loop iterations. A block read from the shell's terminal has been given whole to the output "
           "history, and whole and flushed to the client if one is attached, before the next block is read and before the relay ends, unless the prompt has not been seen yet (the one flag that "
           "the prompt scanner sets) or the client failed; a block is cut only right after the prompt marker; the relay's own orderly end needs the terminal to have nothing left to read, or the "
           "time allowed for that to be over, or its owner to be gone. In the attach command every data frame is written whole to the terminal and flushed before the next frame is read.")
ASSUME = ["unwinding paths are not followed", "a client whose connection fails gets no more output"]

SPOOL = "libshpool::session_restore::SessionSpool"
MSG = "libshpool::daemon::shell::ClientConnectionMsg"
CHUNK = "shpool_protocol::Chunk"
KIND = "shpool_protocol::ChunkKind"
POLLIN, POLLPRI = 1, 2


def flagbits(v, d=4):
    """the constant bits of a flags value"""
    while d and isinstance(v, V):
        if v.k == "i":
            return v.a[0]
        if v.k == "agg" and len(v.a[2]) == 1:
            v = v.a[2][0]
        elif v.k == "ref" and v.a[0][0] == "K":
            v = v.a[0][1]
        else:
            return None
        d -= 1
    return None


def scanner(F, p):
    """a function that is shown the output byte by byte and says when the prompt has been seen"""
    b = F.bodies.get(p)
    return b is not None and b.lty(0).s == "bool" and any(b.lty(i).s == "u8" for i in range(1, b.argc + 1))


def scanned(S, E, ctx, ev):
    """the result of a call that scans for the prompt, and the value that says so"""
    if scanner(E.F, ev.p) and E.F.bodies[ev.p].kind != "closure":
        r = E.fresh(S, "prompt")
        return r, r
    if last(ev) in ("position", "any", "find", "find_map") and len(ev.ops) == 2 and "Iterator" in ev.q:
        c = ev.argty(1).peel()
        if c.k == "closure" and any(scanner(E.F, q) for q in ctx.G.reach({c.d}) if q != c.d):
            r = E.fresh(S, "prompt")
            if last(ev) == "any":
                return r, r
            E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
            return r, mk("discr", r)
    return None


class Gate(Part):
    """finds the flag that says that the prompt has been seen: the one set when the scanner reports it"""
    name = "prompt-gate"
    K = 3
    local_stores = True

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.gates, self.scans = set(), set()

    def opaque(self, body):
        return True

    def on_call(self, S, ev):
        r = scanned(S, self.E, self.ctx, ev)
        if r:
            self.scans.add(r[1])
            self.drop(S, "seen")
            return Act(ret=r[0])
        self.drop(S, "seen")
        return None

    def on_branch(self, S, v, val):
        if v in self.scans and val == 1:
            self.add(S, "seen")

    def on_store(self, S, root, path, v, body, span):
        if "seen" in S.st and v == I(1) and (root[0] != "L" or root[1] == 0) and body.p in self._roots:
            self.gates.add((root, path))


class Relay(Pump):
    name = "output-relay"
    K = 4

    def __init__(self, ctx, roots, gates):
        Part.__init__(self, ctx, roots)
        self.gates = gates
        self.bufref = None
        self.scans, self.reads, self.flags, self.late, self.recvs, self.polls = set(), {}, {}, set(), set(), set()
        self.new = [d for d, n in names(ctx.F, MSG).items() if n == "New"][0]
        self.fs = [f[0] for f in ctx.F.adts[CHUNK]["v"][0]["f"]]
        self.reach = ctx.G.up({p for p in ctx.F.bodies if "as session_restore::SessionSpool>" in p} | {s.body.p for s in ctx.G.sites if "SessionSpool::" in s.p or "ChunkExt::write_to" in s.q or last(s) == "write_to"})

    def opaque(self, body):
        return not (body.kind == "closure" or body.p.startswith("libshpool::daemon::shell::") and body.p in self.reach)

    def view(self, S, v):
        v = self.deslice(S, v)
        return self.buffer(v)

    def deslice(self, S, v):
        # a local that holds the slice
        for _ in range(4):
            if v.k == "ref" and not (v.a[1] and v.a[1][-1][0] == "ix"):
                x = self.E.load(S.env, v)
                if x.k == "ref":
                    v = x
                    continue
            break
        return v

    def whole(self, S, ev, v, what):
        v = self.deslice(S, v)
        starts, ends = [], []
        while v.k == "ref" and v.a[1] and v.a[1][-1][0] == "ix":
            r = v.a[1][-1][1]
            n = r.a[0].rsplit("::", 1)[-1] if isinstance(r, V) and r.k == "agg" else ""
            if n == "Range":
                starts.append(r.a[2][0])
                e = r.a[2][1]
            elif n == "RangeTo":
                e = r.a[2][0]
            elif n == "RangeFrom":
                starts.append(r.a[2][0])
                e = None
            else:
                return None
            if e is not None:
                ends.append(e)
            v = mk("ref", v.a[0], v.a[1][:-1], 0)
        if ("buf", str(v)) not in S.st:
            return None
        if any(s != I(0) and not ("marker" in S.st and s.k == "op" and s.a[0] == "Add" and I(1) in s.a[1:] and not any(self.islen(x) for x in s.a[1:])) for s in starts):
            self.rep(S, "head-lost", ev, "a block of the shell's output is not %s from its start" % what)
        if not ends or not all(self.islen(e) for e in ends):
            self.rep(S, "tail-lost", ev, "a block of the shell's output is not %s to its end" % what)
        return True

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l, n = ev.p, last(ev), len(ev.ops)
        if l == "read" and "Read" in ev.q and "pty" in p.lower():
            self.settled(S, ev)
            self.ok("reads", ev)
            buf = self.bufref = self.buffer(ev.args[1])[0]
            S.st = frozenset(x for x in S.st if not isinstance(x, tuple)) - {"unspooled", "unsent", "unflushed", "marker", "noinput"} | {("buf", str(buf))}
            r = self.result(S, "nread", RES, ["len"])
            self.reads[mk("discr", r)] = E.get(mk("dc", r, 0), ("f", 0, "0"))
            return Act(ret=r)
        if "SessionSpool" in p and l == "process" and n > 1:
            if self.whole(S, ev, ev.args[1], "recorded"):
                self.ok("blocks recorded", ev)
                self.drop(S, "unspooled")
            return Act(ret=UNIT)
        if l == "write_to" and ("ChunkExt" in ev.q or CHUNK in p):
            c = E.load(S.env, ev.args[0])
            if c.k != "agg":
                return None
            kind, buf = c.a[2][self.fs.index("kind")], c.a[2][self.fs.index("buf")]
            good = S.st
            if kind.k == "agg" and F.adts[KIND]["v"][kind.a[1] or 0]["n"] == "Data" and self.whole(S, ev, buf, "sent"):
                self.ok("blocks sent", ev)
                good = S.st - {"unsent"} | {"unflushed"}
            return Act(forks=[(good, agg(RES, 0, (UNIT,))), (S.st - {"unsent", "unflushed"} | {"failed"}, agg(RES, 1, (E.fresh(S, "werr"),)))])
        if l == "flush" and "io::Write" in ev.q:
            return Act(forks=[(S.st - {"unflushed"}, agg(RES, 0, (UNIT,))), (S.st - {"unflushed"} | {"failed"}, agg(RES, 1, (E.fresh(S, "ferr"),)))])
        if l in ("poll", "ppoll"):
            self.drop(S, "noinput", "late")
        if l == "revents" and "poll" in p:
            return Act(ret=agg(OPT, 1, (E.fresh(S, "revents", ["revents"]),)))
        if l in ("contains", "intersects") and n == 2 and "Flags" in p:
            b = flagbits(ev.load(1))
            r = E.fresh(S, "has")
            self.flags[r] = b
            return Act(ret=r)
        if l in ("recv", "try_recv") and "crossbeam_channel" in p:
            r = self.result(S, ("got", ev.span[0]))
            self.recvs.add(mk("discr", r))
            self.drop(S, "gone")
            return Act(ret=r)
        if l == "now" and "Instant" in p:
            return Act(ret=E.fresh(S, "now", ["now"]))
        if l == "elapsed":
            return Act(ret=E.fresh(S, "elapsed", ["now"]))
        r = scanned(S, E, self.ctx, ev)
        if r:
            self.scans.add(r[1])
            return Act(ret=r[0])
        b = F.bodies.get(p)
        if b is not None and b.kind != "closure" and self.opaque(b) and b.lty(0).d == RES:
            return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "fine"),))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "bad"),)))])
        return None

    def isnow(self, v):
        return v.k == "S" and self.E.symkey(v.a[0])[-1] in ("now", "elapsed")

    def settled(self, S, ev):
        for r, q in self.gates:
            v = self.E.read(S.env, r, q)
            if v == I(0) or self.E.known(S.env, v) == 0 or "shut" in S.st and v != I(1):        # the prompt has not been seen yet
                self.drop(S, "unspooled", "unsent")
        if "unspooled" in S.st:
            self.rep(S, "block-not-recorded", ev, "the shell's output is not recorded before the relay goes on")
        if "unsent" in S.st:
            self.rep(S, "block-not-sent", ev, "the shell's output is not sent to the client before the relay goes on")
        if "unflushed" in S.st:
            self.rep(S, "block-not-flushed", ev, "the shell's output is not flushed to the client before the relay goes on")

    def on_branch(self, S, v, val):
        E = self.E
        if v in self.reads and val == 0:
            self.add(S, "unspooled", "unsent")
        if v in self.recvs and val == 1:
            self.add(S, "gone")
        if v.k == "discr" and E.discr_n.get(v, (None,))[0] == MSG:
            if val != self.new:
                self.drop(S, "unsent")
        for a, x in both(v, val):
            if a in self.scans and x == 1:
                self.add(S, "marker")
                self.drop(S, "shut")
                self.add(S, "open")
            for r, q in self.gates:
                if isinstance(x, int) and E.read(S.env, r, q) == a:
                    self.drop(S, "shut", "open")
                    self.add(S, "open" if x else "shut")
                    E.write(S.env, r, q, I(x))
            if self.islen(a) and x == 0 or a.k == "op" and a.a[0] in ("Eq", "Gt", "Lt", "Ge", "Le", "Ne") and any(y.k == "i" and y.a[0] in (0, 1) for y in a.a[1:]) and any(self.islen(y) for y in a.a[1:]) and self.zero(a, x):
                self.drop(S, "unspooled", "unsent")
                self.add(S, "noinput")
            if (a.k == "len" and x == 0 or a.k == "op" and a.a[0] == "Eq" and x == 1 and I(0) in a.a[1:] and any(y.k == "len" for y in a.a[1:])) and self.bufref is not None and mentions(a, E.load(S.env, self.bufref)):
                self.drop(S, "unspooled", "unsent")
            if a in self.flags and self.flags[a] is not None and x == 0 and self.flags[a] & POLLIN:
                self.add(S, "noinput")
            if a.k == "op" and a.a[0] in ("Ge", "Gt", "Lt", "Le"):
                op, y, z = a.a
                if self.isnow(z) and not self.isnow(y):
                    op, y, z = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op], z, y
                if self.isnow(y) and not self.isnow(z) and (op in ("Ge", "Gt")) == (x == 1):
                    self.add(S, "late")

    def on_drop(self, S, v, ty, root, path):
        pass

    def on_discr(self, S, v, ty, n):
        if ty.d == MSG and n != self.new:
            self.drop(S, "unsent")

    def on_end(self, S, v):
        if v.k == "agg" and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            return
        self.settled(S, None)
        if S.st & {"noinput", "late", "gone"}:
            self.seen.add(("orderly ends", "relay"))
        else:
            self.rep(S, "output-left", None, "the relay ends although the shell's terminal may still hold output")


class Screen(Part):
    """socket -> terminal in the attach command"""
    name = "output-client"
    K = 6

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.data = [d for d, n in names(ctx.F, KIND).items() if n == "Data"][0]

    def opaque(self, body):
        return body.p not in self.io

    def on_call(self, S, ev):
        E = self.E
        p, l = ev.p, last(ev)
        if l == "read_into" and ("ChunkExt" in ev.q or CHUNK in p):
            self.settled(S, ev)
            self.ok("frame reads", ev)
            self.drop(S, "pending", "unflushed")
            return Act(ret=self.result(S, "chunk", RES, ["chunk"]))
        if l in ("write_all", "write") and "io::Write" in ev.q:
            v = ev.args[1]
            for _ in range(3):
                if v.k == "ref" and not (v.a[1] and v.a[1][-1][0] == "ix"):
                    x = E.load(S.env, v)
                    if x.k == "ref" or "chunk" in origin(x):
                        v = x
            if "chunk" in origin(v) or v.k == "ref" and v.a[0][0] == "D" and "chunk" in origin(v.a[0][1]):
                self.ok("frames shown", ev)
                if l == "write":
                    self.rep(S, "partial-write", ev, "a write that may stop half way is used to show output")
                if v.k == "ref" and v.a[1]:
                    self.rep(S, "cut", ev, "only a part of a data frame is shown")
                return Act(forks=[(S.st - {"pending"} | {"unflushed"}, agg(RES, 0, (UNIT,))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "werr"),)))])
        if l == "flush" and "io::Write" in ev.q:
            self.drop(S, "unflushed")
        return None

    def settled(self, S, ev):
        if "pending" in S.st:
            self.rep(S, "frame-not-shown", ev, "a data frame is not written to the terminal before the next one is read")
        if "unflushed" in S.st:
            self.rep(S, "frame-not-flushed", ev, "a data frame is not flushed to the terminal before the next one is read")

    def on_branch(self, S, v, val):
        if v.k == "discr" and self.E.discr_n.get(v, (None,))[0] == KIND and val == self.data:
            self.add(S, "pending")

    def on_end(self, S, v):
        if not (v.k == "agg" and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1):
            self.settled(S, None)


def run(ctx):
    ctx.rule("output: read -> record -> send and flush -> read; drained before the end")
    F, G = ctx.F, ctx.G
    relays = {s.body.p for s in G.sites if "SessionSpool" in s.p and last(s) == "process" and not s.body.p.startswith("libshpool::session_restore")}
    up = set()
    for p in relays:
        b = F.bodies[p]
        up |= {p} if b.kind == "closure" else {s.body.p for s in G.sites if s.p == p}
    readers = {s.body.p for s in G.sites if last(s) == "read_into" and ("ChunkExt" in s.q or CHUNK in s.p) and "daemon" not in s.body.p}
    g = Gate(ctx, up)
    ctx.engine(g)
    ctx.floor("prompt flags", len(g.gates), 1)
    parts = [Relay(ctx, up, g.gates), Screen(ctx, readers)]
    parts[1].io = {p for p in G.calling(lambda s: "io::Write" in s.q) if p.startswith("libshpool::protocol::")}
    run_parts(ctx, parts)
    floors(ctx, parts, "reads", "blocks recorded", "blocks sent", "orderly ends", "frame reads", "frames shown")
