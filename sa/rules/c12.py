"""C12: what the user types reaches the shell block by block."""
from .part import *

EXPLAIN = ("The two threads that carry input (terminal -> socket in the attach command, socket -> terminal in the daemon) are explored with every read, write and key binding result left open. "
           "A block that was read is written from its first byte up to the number of bytes read (or to the length left by the function that cuts out key bindings) and that write has succeeded "
           "before the next read and before any orderly end other than a detach; bytes put aside for a key binding are written, or are part of the current block, before they are forgotten "
           "when the binding does not match; an orderly end happens only at end of file, when stopped, or after the detach binding asked the relay to let the client go.")
ASSUME = ["unwinding paths are not followed", "how many bytes of a matching binding are cut out of a block is not judged here (N01)"]

BIND = "libshpool::daemon::keybindings::BindingResult"
ACTION = "libshpool::daemon::keybindings::Action"
MSG = "libshpool::daemon::shell::ClientConnectionMsg"


def names(F, adt):
    return {int(v["d"]): v["n"] for v in F.adts[adt]["v"]}


class Pump(Part):
    name = "input-relay"
    K = 8

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.flags, self.reads, self.steps = set(), {}, set()
        self.binds, self.actions = names(ctx.F, BIND), names(ctx.F, ACTION)
        self.letgo = ctx.G.calling(lambda s: "crossbeam_channel" in s.p and last(s).startswith("send") and s.ta and any(t.d == MSG for t in s.ta))
        self.letgo = ctx.G.up(self.letgo) | self.letgo
        io = ctx.G.calling(lambda s: s.q.startswith("std::io::Write::write") or "as std::io::Write>::write" in s.p)
        self.io = {p for p in io if "test_hooks" not in p and (p.startswith("libshpool::daemon::shell::") or p.startswith("libshpool::protocol::"))}
        self.mods = {ctx.G.owner(r).rsplit("::", 2)[0] for r in self._roots}

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.io

    def buffer(self, v):
        """(identity of the storage, start, end) of a slice"""
        start = end = None
        while v.k == "ref" and v.a[1] and v.a[1][-1][0] == "ix":
            r = v.a[1][-1][1]
            if isinstance(r, V) and r.k == "agg":
                n = r.a[0].rsplit("::", 1)[-1]
                if n == "Range":
                    start, end = r.a[2]
                elif n == "RangeTo":
                    start, end = I(0), r.a[2][0]
                elif n == "RangeFrom":
                    start = r.a[2][0]
            v = mk("ref", v.a[0], v.a[1][:-1], 0)
        return v, start, end

    def on_call(self, S, ev):
        E, F = self.E, self.E.F
        p, l = ev.p, last(ev)
        io = ev.q.startswith("std::io::") or "as std::io::" in p
        if io and l in ("read", "read_exact", "read_to_end", "read_vectored"):
            self.ok("reads", ev)
            if "pending" in S.st:
                self.rep(S, "block-skipped", ev, "the next block is read although the last one has not been handed on")
            if "failed-write" in S.st:
                self.rep(S, "write-error-ignored", ev, "the relay carries on although a write failed")
            self.held(S, ev)
            self.drop(S, "eof", "pending", "nomatch", "cleared", "given", "handled")
            if l != "read":
                self.rep(S, "waits-for-more", ev, "input is held back until a whole buffer has been read")
            buf, s, e = self.buffer(ev.args[1])
            S.st = frozenset(x for x in S.st if not isinstance(x, tuple)) | {("buf", str(buf))}
            r = self.result(S, "nread", RES, ["len"])
            n = E.get(mk("dc", r, 0), ("f", 0, "0"))
            self.reads[mk("discr", r)] = n
            return Act(ret=r)
        if io and l in ("write_all", "write", "write_vectored"):
            if l != "write_all":
                self.rep(S, "partial-write", ev, "a write that may stop half way is used to hand input on")
            buf, s, e = self.buffer(ev.args[1])
            if ("buf", str(buf)) in S.st:
                self.ok("blocks written", ev)
                if s is not None and s != I(0):
                    self.rep(S, "head-lost", ev, "a block is not written from its start")
                if e is None or not self.islen(e):
                    self.rep(S, "tail-lost", ev, "what is written does not end where the block read ends")
                good = S.st - {"pending", "nomatch"} | {"written"}
            else:
                self.ok("withheld bytes written", ev)
                good = S.st | {"given"}
            bad = S.st | {"failed-write", "failed"}
            return Act(forks=[(good, agg(RES, 0, (UNIT,))), (bad, agg(RES, 1, (E.fresh(S, "werr"),)))])
        if io and l == "flush":
            r = self.result(S, "flushed")
            return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "ferr"),)))])
        if l == "load" and "Atomic" in p:
            r = E.fresh(S, "stop")
            self.flags.add(r)
            return Act(ret=r)
        if p.startswith("anyhow::") and l in ("format_err", "msg", "new"):
            self.add(S, "made")
        b = F.bodies.get(p)
        if b is not None and b.lty(0).d == BIND:
            self.held(S, ev)
            self.ok("bytes scanned", ev)
            self.drop(S, "nomatch", "cleared", "given", "handled", "inblock")
            r = E.fresh(S, "step")
            E.discr_n.setdefault(mk("discr", r), (BIND, tuple(self.binds)))
            return Act(ret=r)
        if l in ("clear", "truncate", "drain") and "Vec" in p and ev.argty(0).mentions("u8") or l in ("take", "replace") and p.startswith("std::mem") and "u8" in str([t.s for t in ev.ta]):
            if "nomatch" in S.st and not S.st & {"given", "inblock"}:
                self.rep(S, "withheld-bytes-lost", ev, "bytes put aside for a key binding are forgotten when it does not match")
            self.add(S, "cleared")
            return None
        if b is not None and b.kind != "closure" and p not in self.io:
            if p in self.letgo:
                self.add(S, "letgo")
            if b.lty(0).s == "usize":
                return Act(ret=E.fresh(S, "kept", ["len"] if any("len" in a.tags for a in ev.args) else []))
            if b.lty(0).d == RES:
                return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "fine"),))), (S.st | {"failed"}, agg(RES, 1, (E.fresh(S, "bad"),)))])
        return None

    def held(self, S, ev):
        if "nomatch" in S.st and "cleared" not in S.st and "given" in S.st:
            self.rep(S, "withheld-bytes-repeated", ev, "bytes put aside for a key binding that did not match are written and kept for another time")

    def on_branch(self, S, v, val):
        E = self.E
        if v.k == "discr" and E.discr_n.get(v, (None,))[0] == RES and val == 1:
            self.add(S, "failed")
        if v in self.reads and val == 0:
            self.add(S, "pending")
        n = E.discr_n.get(v, (None,))[0] if v.k == "discr" else None
        if n == BIND and isinstance(val, int):
            k = self.binds.get(val)
            if k == "NoMatch":
                self.add(S, "nomatch")
        if n == ACTION and isinstance(val, int) and self.actions.get(val) == "Detach":
            self.add(S, "detach")
        for a, x in both(v, val):
            if a in self.flags and x == 1:
                self.add(S, "stop")
            if self.islen(a) and x == 0 or a.k == "op" and a.a[0] in ("Eq", "Gt", "Lt", "Ge", "Le", "Ne") and any(y.k == "i" and y.a[0] in (0, 1) for y in a.a[1:]) and any(self.islen(y) for y in a.a[1:]) and self.zero(a, x):
                self.drop(S, "pending")     # nothing (left) to hand on
            if a in self.reads.values() and x == 0 or a.k == "op" and a.a[0] == "Eq" and I(0) in a.a[1:] and any(y in self.reads.values() for y in a.a[1:]) and x == 1:
                self.add(S, "eof")
                self.drop(S, "pending")
            if a.k == "op" and a.a[0] in ("Lt", "Gt", "Le", "Ge") and any(isinstance(y, V) and y.k == "len" for y in a.a[1:]) and x == 0:
                self.add(S, "inblock")
            if a.k == "op" and a.a[0] == "Eq" and I(0) in a.a[1:] and any(y.k == "len" for y in a.a[1:]) and x == 1 or a.k == "len" and x == 0:
                self.add(S, "inblock")

    def islen(self, v):
        """a number of bytes a read or the function that cuts bindings out reported, and nothing computed from it"""
        if v.k == "op" or "len" not in origin(v):
            return False
        while v.k != "S":
            v = v.a[0]
        k = v.a[0]
        while True:
            k = self.E.symkey(k)
            if k[0] != "old":
                return k[-1] != "ret"
            k = k[1]

    def zero(self, a, x):
        """the comparison says that the length is zero"""
        op, l, r = a.a
        if l.k == "i":
            op, l, r = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), r, l
        c = r.a[0]
        return (op, c, x) in {("Eq", 0, 1), ("Ne", 0, 0), ("Gt", 0, 0), ("Lt", 1, 1), ("Ge", 1, 0), ("Le", 0, 1)}

    def on_drop(self, S, v, ty, root, path):
        if ty.d == "std::vec::Vec" and ty.args and ty.args[0].s == "u8" and "nomatch" in S.st and "failed" not in S.st:
            if not S.st & {"given", "inblock"}:
                self.E.report(S, "withheld-bytes-lost", self.ctx.G.owner(S.frame.body.p), "bytes put aside for a key binding are forgotten when it does not match")
            self.add(S, "cleared")

    def on_discr(self, S, v, ty, n):
        if ty.d == ACTION and self.actions.get(n) == "Detach":
            self.add(S, "detach")

    def on_end(self, S, v):
        if v.k == "agg" and v.a[1] == 1 or self.E.known(S.env, mk("discr", v)) == 1:
            if "made" in S.st and "failed" not in S.st:
                self.rep(S, "gives-up", None, "the relay fails although nothing it did failed", " " + S.frame.body.p)
            return
        if "detach" in S.st and "letgo" in S.st:
            self.seen.add(("orderly ends", "detach"))
        elif "detach" in S.st:
            self.rep(S, "not-detached", None, "the detach binding ends the input relay without the client being let go", " " + S.frame.body.p)
        elif "pending" in S.st:
            self.rep(S, "block-skipped", None, "the relay ends although the last block has not been handed on", " " + S.frame.body.p)
        elif not S.st & {"eof", "stop", "full"}:
            self.rep(S, "gives-up", None, "the relay ends although it was not stopped and there was no end of file", " " + S.frame.body.p)
        else:
            self.seen.add(("orderly ends", "eof/stop"))


class Client(Pump):
    name = "input-relay-client"

    def on_branch(self, S, v, val):
        Pump.on_branch(self, S, v, val)
        for a, x in both(v, val):
            if a.k == "discr" and S.env.held and self.E.discr_n.get(a, (None,))[0] == OPT and x == 1:
                self.add(S, "full")         # the other direction has a result


def run(ctx):
    ctx.rule("input: read -> scan -> write all of it -> read")
    F, G = ctx.F, ctx.G
    daemon, client = set(), set()
    for s in G.sites:
        if s.body.kind == "closure" and last(s) == "read" and "std::io::Read" in s.p:
            if "UnixStream as" in s.p:
                daemon.add(s.body.p)
            elif "Stdin" in s.p:
                client.add(s.body.p)
    parts = [Pump(ctx, daemon), Client(ctx, client)]
    run_parts(ctx, parts)
    for r in parts:
        floors(ctx, [r], "reads", "blocks written", "orderly ends")
    floors(ctx, parts[:1], "bytes scanned", "withheld bytes written")
