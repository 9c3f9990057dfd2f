"""C15: frames written by one side are always acceptable to the other."""
from .part import *
from .c12 import names
from .c14 import tagsof

EXPLAIN = ("The function that turns a tag byte into a frame kind is evaluated for every byte and compared with the discriminants the writer casts; the sequences of fields the writer emits and the reader consumes are "
           "derived per frame kind from all their paths and compared, as is the byte order; the reader reaches the payload only with a kind that was recognised and after comparing the length with the buffer's, "
           "refusing exactly the longer ones. For every frame built anywhere the length of the payload is bounded on every path (a read's count into a buffer of known size, a block of chunks(N), fixed bytes, "
           "or a length compared with a constant) and the bound is compared with the smallest buffer a frame is read into.")
ASSUME = ["unwinding paths are not followed", "read() reports at most the length of the slice it was given"]

CHUNK = "shpool_protocol::Chunk"
KIND = "shpool_protocol::ChunkKind"
FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}


class Tags(Part):
    """u8 -> kind"""
    name = "tags"
    K = 300

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.made = {}

    def opaque(self, body):
        return False

    def root_tags(self, body, i):
        return ["tag"]

    def on_branch(self, S, v, val):
        if v.k == "op" and v.a[0] in ("Eq", "Ne") and val == (1 if v.a[0] == "Eq" else 0):
            c = [x.a[0] for x in v.a[1:] if x.k == "i"]
            v, val = ([x for x in v.a[1:] if x.k != "i"] or [v])[0], c[0] if c else None
        if v.k == "S" and "tag" in origin(v) and isinstance(val, int):
            self.drop(S, "is")
            self.add(S, ("is", val))

    def on_end(self, S, v):
        t = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "is"), None)
        if v.k == "agg" and v.a[0] == RES and v.a[1] == 0:
            k = v.a[2][0]
            if k.k != "agg" or t is None:
                self.rep(S, "tag-table", None, "a frame kind is made up for a tag that is not known")
                return
            self.made.setdefault(t, set()).add(k.a[1] or 0)


class Writer(Part):
    name = "layout-writer"
    K = 6

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.layouts = {}
        self.kinds = names(ctx.F, KIND)
        self.fs = [n for n, _ in fields(ctx.F, CHUNK)]

    def opaque(self, body):
        return body.lty(0).d == KIND or KIND in [t.d for t in body.lty(0).args]

    def root_tags(self, body, i):
        return ["arg%d" % i]

    def seq(self, S):
        return next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "seq"), ())

    def step(self, S, x):
        q = self.seq(S)
        self.drop(S, "seq")
        self.add(S, ("seq", (q + (x,))[:6]))

    def kind(self, S):
        return next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "kind"), None)

    def on_branch(self, S, v, val):
        if v.k == "discr" and self.E.discr_n.get(v, (None,))[0] == KIND:
            self.setkind(S, frozenset([val]) if isinstance(val, int) else frozenset(self.kinds) - frozenset(val[1]))

    def on_discr(self, S, v, ty, n):
        if ty.d == KIND:
            self.setkind(S, frozenset([n]))

    def setkind(self, S, ks):
        o = self.kind(S)
        self.drop(S, "kind")
        self.add(S, ("kind", ks & o if o is not None else ks))

    def on_call(self, S, ev):
        E = self.E
        p, l = ev.p, last(ev)
        io = "io::Write" in ev.q or "WriteBytesExt" in ev.q or "byteorder" in p
        if l == "eq" and ev.argty(0).peel().d == KIND:
            a, b = E.load(S.env, ev.args[0]), E.load(S.env, ev.args[1])
            k = b if b.k == "agg" else a if a.k == "agg" else None
            if k is not None:
                n = k.a[1] or 0
                return Act(forks=[(self.withkind(S, frozenset([n])), I(1)), (self.withkind(S, frozenset(self.kinds) - {n}), I(0))])
        if io and (l.startswith("write_") or l == "write"):
            x = "?"
            a = ev.args[1]
            if l == "write_u8":
                x = "u8"
                if a.k == "i" and self.kind(S) == frozenset([a.a[0]]):
                    pass        # the kind is known from a branch already taken
                elif "arg0" not in tagsof(a) and self.fs[0] not in str(a):
                    self.rep(S, "wrong-tag", ev, "the tag written is not the frame's kind")
                elif a.k == "op" and a.a[0] not in ("cast",) and any(y.k == "i" for y in a.a[1:] if isinstance(y, V)):
                    self.rep(S, "wrong-tag", ev, "the tag written is not the frame's kind")
            elif l.startswith("write_u") or l.startswith("write_i"):
                x = l[6:] + " " + "/".join(t.s.rsplit("::", 1)[-1] for t in ev.ta if "Endian" in t.s)
                if not self.lenof(S, a):
                    self.rep(S, "wrong-length", ev, "the length written is not the payload's")
            elif l == "write_all":
                v = a
                for _ in range(3):
                    if "payload" in self.what(S, v) or v.k != "ref":
                        break
                    v = E.load(S.env, v)
                w = self.what(S, v)
                x = w
                if w == "payload" and a.k == "ref" and a.a[1] and a.a[1][-1][0] == "ix":
                    self.rep(S, "cut", ev, "only a part of the payload is written")
            else:
                self.rep(S, "partial-write", ev, "a write that may stop half way is used for a frame")
            r = self.result(S, "wrote")
            ok = S.st
            self.step(S, x)
            return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), (ok | {"failed"}, agg(RES, 1, (E.fresh(S, "werr"),)))])
        if l in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
            ty = p.split("impl ")[-1].split(">")[0]
            end = {"to_le_bytes": "LittleEndian", "to_be_bytes": "BigEndian", "to_ne_bytes": "native"}[l]
            t = ty + " " + end
            if not self.lenof(S, ev.args[0]):
                t += "?"
            return Act(ret=E.fresh(S, "bytes", ["layout:" + t]))
        return None

    def withkind(self, S, ks):
        o = self.kind(S)
        return frozenset(x for x in S.st if not (isinstance(x, tuple) and x[0] == "kind")) | {("kind", ks & o if o is not None else ks)}

    def lenof(self, S, a):
        while a.k == "op" and a.a[0] == "cast":
            a = a.a[1]
        return "len" in str(a) or a.k == "len" or any(isinstance(x, V) and self.lenof(S, x) for x in a.a) if isinstance(a, V) else False

    def what(self, S, v):
        for t in tagsof(v):
            if str(t).startswith("layout:"):
                return t[7:]
        if v.k == "agg" and v.a[0] == "[]" and len(v.a[2]) == 1:
            return "u8"
        if "arg0" in tagsof(v) or "buf" in str(v):
            return "payload"
        return "?"

    def on_end(self, S, v):
        if v.k == "agg" and v.a[1] == 1 or "failed" in S.st or self.E.known(S.env, mk("discr", v)) == 1:
            return
        for k in self.kind(S) if self.kind(S) is not None else self.kinds:
            self.layouts.setdefault(k, set()).add(self.seq(S))


class Reader(Writer):
    name = "layout-reader"
    K = 6

    def on_call(self, S, ev):
        E = self.E
        p, l = ev.p, last(ev)
        io = "io::Read" in ev.q or "ReadBytesExt" in ev.q or "byteorder" in p
        b = E.F.bodies.get(p)
        if l == "eq" and len(ev.ops) and ev.argty(0).peel().d == KIND:
            return Writer.on_call(self, S, ev)
        if (b is not None or l in ("try_from", "try_into")) and ev.destty_has(KIND) if hasattr(ev, "destty_has") else (l in ("try_from", "try_into") or b is not None and b.lty(0).d == RES and b.lty(0).args and b.lty(0).args[0].d == KIND):
            k = E.fresh(S, "kind")
            E.discr_n.setdefault(mk("discr", k), (KIND, tuple(self.kinds)))
            return Act(forks=[(S.st | {"kind-ok"}, agg(RES, 0, (k,))), (S.st - {"kind-ok"}, agg(RES, 1, (E.fresh(S, "kerr"),)))])
        if l in ("get", "get_mut") and len(ev.args) == 2 and "slice" in p:
            ix = ev.args[1]
            if ix.k == "agg" and ix.a[0].endswith("RangeTo"):
                r, q = E.deref(ev.args[0])
                x = E.read(S.env, r, q)
                while x.k == "ref":
                    r, q = x.a[0], x.a[1]
                    x = E.read(S.env, r, q)
                v = mk("ref", r, q + (("ix", ix),), 1 if l == "get_mut" else 0)
                return Act(forks=[(S.st | {("fits", str(ix.a[2][0]))}, agg(OPT, 1, (v,))), (S.st, agg(OPT, 0, ()))])
        if io and l.startswith("read"):
            ok = S.st
            if l == "read_u8":
                self.step(S, "u8")
                return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "byte"),))), (ok | {"failed"}, agg(RES, 1, (E.fresh(S, "rerr"),)))])
            if l == "read_exact":
                a = ev.args[1]
                base, end = a, None
                if a.k == "ref" and a.a[1] and a.a[1][-1][0] == "ix":
                    r = a.a[1][-1][1]
                    if r.k == "agg" and r.a[0].endswith("RangeTo"):
                        end = r.a[2][0]
                    elif r.k == "agg" and r.a[0].endswith("Range") and r.a[2][0] == I(0):
                        end = r.a[2][1]
                    else:
                        self.rep(S, "payload-place", ev, "the payload is not read to the start of the buffer")
                    base = mk("ref", a.a[0], a.a[1][:-1], a.a[2])
                if "arg1" in tagsof(base) or "arg1" in str(base):
                    self.ok("payload reads", ev)
                    if "kind-ok" not in S.st:
                        self.rep(S, "kind-unchecked", ev, "a payload is read although the frame's kind has not been recognised")
                    if end is None:
                        self.rep(S, "length-ignored", ev, "the payload read is not as long as the frame says")
                    elif not any(isinstance(x, tuple) and x[0] == "fits" and x[1] == str(end) for x in S.st):
                        self.rep(S, "length-unchecked", ev, "a payload is read without its length having been compared with the buffer")
                    elif "length" not in tagsof(end) and not (end.k == "i" and end.a[0] == 4):
                        self.rep(S, "length-ignored", ev, "the payload read is not as long as the frame says")
                    else:
                        self.drop(S, "end")
                        self.add(S, ("end", str(end)))
                    self.step(S, "payload")
                else:
                    t = ev.argty(1).peel()
                    self.step(S, "arr")
                return Act(forks=[(S.st, agg(RES, 0, (UNIT,))), (ok | {"failed"}, agg(RES, 1, (E.fresh(S, "rerr"),)))])
            if l.startswith("read_u") or l.startswith("read_i"):
                self.step(S, l[5:] + " " + "/".join(t.s.rsplit("::", 1)[-1] for t in ev.ta if "Endian" in t.s))
                return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "word", ["length"]),))), (ok | {"failed"}, agg(RES, 1, (E.fresh(S, "rerr"),)))])
            self.rep(S, "partial-read", ev, "a read that may stop half way is used for a frame")
        if l in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            end = {"from_le_bytes": "LittleEndian", "from_be_bytes": "BigEndian", "from_ne_bytes": "native"}[l]
            q = self.seq(S)
            if q and q[-1] == "arr":
                self.drop(S, "seq")
                self.add(S, ("seq", q[:-1] + (p.split("impl ")[-1].split(">")[0] + " " + end,)))
            return Act(ret=E.fresh(S, "word", ["length"]))
        return None

    def on_branch(self, S, v, val):
        Writer.on_branch(self, S, v, val)
        for a, x in both(v, val):
            if a.k == "op" and a.a[0] in FLIP and isinstance(x, int):
                op, l, r = a.a
                if self.blen(l) and not self.blen(r):
                    op, l, r = FLIP[op], r, l
                if self.blen(r) and not self.blen(l):       # l op buffer length
                    fits = op in ("Le", "Lt") and x == 1 or op in ("Gt", "Ge") and x == 0
                    if fits:
                        self.add(S, ("fits", str(l)))
                        if op in ("Lt", "Ge"):
                            self.E.report(S, "refuses-full", self.ctx.G.owner(S.frame.body.p), "a frame that just fits the buffer is refused")

    def blen(self, v):
        while v.k == "op" and v.a[0] == "cast":
            v = v.a[1]
        return v.k == "len" or "len" in str(v) and "arg1" in tagsof(v)

    def on_end(self, S, v):
        Writer.on_end(self, S, v)
        if v.k == "agg" and v.a[1] == 0 and v.a[2][0].k == "agg":
            c = v.a[2][0]
            b = c.a[2][self.fs.index("buf")]
            e = next((x[1] for x in S.st if isinstance(x, tuple) and x[0] == "end"), None)
            ix = b.a[1][-1][1] if b.k == "ref" and b.a[1] and b.a[1][-1][0] == "ix" else None
            end = None if ix is None or ix.k != "agg" else ix.a[2][-1]
            if e is not None and str(end) != e:
                self.rep(S, "payload-handed-on", None, "the frame handed on does not have the payload that was read")


class Limits(Part):
    """how large a buffer frames are read into"""
    name = "buffers"
    K = 2

    def __init__(self, ctx, roots):
        Part.__init__(self, ctx, roots)
        self.sizes, self.unknown = set(), 0

    def opaque(self, body):
        return True

    def made(self, S, ev):
        E = self.E
        l = last(ev)
        if l == "from_elem":
            n = ev.args[1]
            return Act(ret=E.fresh(S, "vec", ["max:%d" % n.a[0]] if n.k == "i" else []))
        return None

    def phi_tags(self, a, x, b, y):
        m, n = self.bound(a, x), self.bound(b, y)
        t = frozenset(z for z in x.tags | y.tags if not str(z).startswith("max:"))
        return t | {"max:%d" % max(m, n)} if m is not None and n is not None else t

    def bound(self, env, v):
        if v.k == "i":
            return v.a[0]
        if v.k in ("op", "agg", "clo", "b", "s"):
            return None
        return self.storage(None, v, env=env)

    def storage(self, S, v, d=4, env=None):
        """the upper bound on the length of what a slice refers to"""
        E = self.E
        st = S.st if S is not None else ()
        env = S.env if env is None else env
        best = None
        while d:
            t = [int(x[4:]) for x in tagsof(v) if str(x).startswith("max:")]
            if v.k != "ref":
                if t:
                    return min(t) if best is None else min(best, min(t))
                if v.k == "op" and v.a[0] == "repeat":
                    return v.a[2].a[0] if len(v.a) > 2 else None
                if v.k == "agg" and v.a[0] == "[]":
                    return len(v.a[2])
                return best
            if v.a[1] and v.a[1][-1][0] == "ix":
                r = v.a[1][-1][1]
                if isinstance(r, V) and r.k == "agg" and r.a[0].endswith(("Range", "RangeTo")):
                    e = r.a[2][-1]
                    if len(r.a[2]) == 2 and e.k == "op" and e.a[0] in ("min", "Add"):
                        for x in e.a[1:] if e.a[0] == "min" else (e,):
                            while x.k == "op" and x.a[0] == "cast":
                                x = x.a[1]
                            if x.k == "op" and x.a[0] == "Add" and r.a[2][0] in x.a[1:]:
                                o = [y for y in x.a[1:] if y != r.a[2][0]]
                                if o and o[0].k == "i":
                                    best = o[0].a[0] if best is None else min(best, o[0].a[0])
                    if e.k == "op" and e.a[0] == "min":
                        for x in e.a[1:]:
                            if x.k == "i":
                                best = x.a[0] if best is None else min(best, x.a[0])
                    b = e.a[0] if e.k == "i" else min([int(x[4:]) for x in origin(e) if str(x).startswith("max:")], default=None)
                    if b is not None and e.k != "op":
                        best = b if best is None else min(b, best)
                v = mk("ref", v.a[0], v.a[1][:-1], 0)
                continue
            v = E.load(env, v)
            f = [x[2] for x in st if isinstance(x, tuple) and x[0] == "atmost" and x[1] == str(v)]
            if f:
                return min(f)
            d -= 1
        return best

    def on_call(self, S, ev):
        if last(ev) == "read_into" and ("ChunkExt" in ev.q or CHUNK in ev.p):
            n = self.storage(S, ev.args[1])
            if n is None:
                self.rep(S, "buffer-unknown", ev, "the size of the buffer frames are read into is not known")
            else:
                self.sizes.add(n)
                self.ok("frame buffers", ev)
        return self.made(S, ev)


class Emit(Limits):
    name = "emitters"
    K = 4

    def __init__(self, ctx, roots, limit, follow):
        Limits.__init__(self, ctx, roots)
        self.limit, self.follow = limit, follow
        self.fs = [n for n, _ in fields(ctx.F, CHUNK)]
        self.exact = [d for d, n in names(ctx.F, KIND).items() if n == "ExitStatus"]

    def opaque(self, body):
        return body.p not in self.follow and body.kind != "closure"

    def on_call(self, S, ev):
        E = self.E
        p, l, n = ev.p, last(ev), len(ev.ops)
        if l in ("read", "read_at", "recv") and n >= 2 and ("Read" in ev.q or "pty" in p):
            m = self.storage(S, ev.args[1])
            tags = ["max:%d" % m] if m is not None else []
            r = self.result(S, "nread", RES, tags)
            return Act(ret=r)
        if l in ("chunks", "chunks_exact", "rchunks") and n == 2:
            k = ev.args[1]
            return Act(ret=E.fresh(S, "blocks", ["max:%d" % k.a[0]] if k.k == "i" else []))
        if l == "next" and n == 1:
            t = [x for x in tagsof(E.load(S.env, ev.args[0]) if ev.args[0].k == "ref" else ev.args[0]) if str(x).startswith("max:")]
            if t:
                return Act(ret=self.result(S, "block", OPT, t))
        if l in ("min", "clamp") and n >= 2:
            return Act(ret=mk("op", l, *ev.args)) if l == "min" else None
        if l in ("split_at",) and n == 2 and ev.args[1].k != "i":
            k = ev.args[1]
            t = [x for x in origin(k) if str(x).startswith("max:")]
            if k.k == "op":
                t = ["max:%d" % x.a[0] for x in k.a[1:] if x.k == "i"] if k.a[0] == "min" else []
            if t:
                return Act(ret=agg("()", None, (E.fresh(S, "head", t), E.fresh(S, "tail"))))
        if l in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
            ty = p.split("impl ")[-1].split(">")[0]
            k = {"i32": 4, "u32": 4, "u8": 1, "u16": 2, "i64": 8, "u64": 8}.get(ty)
            return Act(ret=E.fresh(S, "bytes", ["max:%d" % k, "exact:%d" % k, "be"] if k and l != "to_le_bytes" else ["max:%d" % k, "exact:%d" % k] if k else []))
        if l == "len" and n == 1:
            v = ev.args[0]
            while v.k == "ref" and not (v.a[1] and v.a[1][-1][0] == "ix"):
                v = E.load(S.env, v)
            return Act(ret=mk("len", v))
        if l == "write_to" and ("ChunkExt" in ev.q or CHUNK in p):
            c = E.load(S.env, ev.args[0])
            if c.k != "agg":
                self.rep(S, "frame-unknown", ev, "a frame of unknown make is written")
                return None
            kind, buf = c.a[2][self.fs.index("kind")], c.a[2][self.fs.index("buf")]
            if kind.k == "agg" and (kind.a[1] or 0) in self.exact:
                t = tagsof(E.load(S.env, buf) if buf.k == "ref" else buf)
                if "exact:4" not in t or "be" in t:
                    self.rep(S, "exit-status-layout", ev, "an exit status frame is not the status in four little endian bytes")
            m = self.storage(S, buf)
            if m is None or m > self.limit:
                self.rep(S, "frame-too-big", ev, "a frame of up to %s bytes is written, but a receiver takes only %d" % ("any number of" if m is None else m, self.limit))
            self.ok("frames written", ev)
        return self.made(S, ev)

    def on_branch(self, S, v, val):
        for a, x in both(v, val):
            if a.k == "op" and a.a[0] in FLIP and isinstance(x, int):
                op, l, r = a.a
                if l.k == "i":
                    op, l, r = FLIP[op], r, l
                if r.k == "i" and l.k == "len":
                    c = r.a[0]
                    b = {("Gt", 0): c, ("Ge", 0): c - 1, ("Le", 1): c, ("Lt", 1): c - 1}.get((op, x))
                    if b is not None:
                        self.add(S, ("atmost", str(l.a[0]), b))


def lift(ctx, fns, pred):
    """roots: callers take the place of functions that are handed what matters"""
    G, F = ctx.G, ctx.F
    roots, follow, todo = set(), set(), set(fns)
    while todo:
        p = todo.pop()
        follow.add(p)
        b = F.bodies[p]
        up = p.rsplit("::{closure", 1)[0]
        if b.kind == "closure" and up in F.bodies and any(b.lty(i).peel().d == CHUNK or b.lty(i).peel().s == "[u8]" for i in range(2, b.argc + 1)):
            # what a closure is given comes from where it is made
            todo |= {up} - follow
            continue
        ups = {s.body.p for s in G.sites if s.p == p} if pred(b) else set()
        if ups:
            todo |= ups - follow
        else:
            roots.add(p)
    return roots, follow


def run(ctx):
    ctx.rule("frames: same tags, same layout, bounded lengths")
    F, G = ctx.F, ctx.G
    kinds = names(F, KIND)
    tags = Tags(ctx, {p for p, b in F.bodies.items() if b.argc == 1 and b.lty(1).s == "u8" and b.lty(0).d == RES and b.lty(0).args[0].d == KIND})
    run_parts(ctx, [tags])
    for d, n in kinds.items():
        ctx.check(tags.made.get(d) == {[i for i, v in enumerate(F.adts[KIND]["v"]) if v["n"] == n][0]}, "tag table", n, "tag %d is written for %s frames but read as %s" % (d, n, sorted(F.adts[KIND]["v"][i]["n"] for i in tags.made.get(d, ()))), "shpool-protocol/src/lib.rs")
    for t in tags.made:
        ctx.check(t in kinds, "tag table", "tag %d" % t, "a tag no frame has is accepted", "shpool-protocol/src/lib.rs")
    io = G.calling(lambda s: s.q.startswith("std::io::Write::write") or "WriteBytesExt" in s.q)
    ro = G.calling(lambda s: s.q.startswith("std::io::Read::read") or "ReadBytesExt" in s.q)
    w = Writer(ctx, {p for p in io if F.bodies[p].argc >= 1 and F.bodies[p].lty(1).peel().d == CHUNK})
    r = Reader(ctx, {p for p in ro if F.bodies[p].lty(0).d == RES and F.bodies[p].lty(0).args[0].d == CHUNK})
    run_parts(ctx, [w, r])
    for d, n in kinds.items():
        a, b = w.layouts.get(d, set()), r.layouts.get(d, set())
        ctx.check(len(a) == 1 and a == b and "?" not in str(a), "layout", n, "%s frames are written as %s but read as %s" % (n, sorted(a), sorted(b)), "libshpool/src/protocol.rs")
    lim = Limits(ctx, {s.body.p for s in G.sites if last(s) == "read_into" and ("ChunkExt" in s.q or CHUNK in s.p)})
    run_parts(ctx, [lim])
    ctx.floor("frame buffers", len(lim.sizes), 1)
    made = {b.p for b in F.bodies.values() if b.p not in r._roots and any(st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == CHUNK for bb in b.blocks for st in bb["s"])}
    made |= {s.body.p for s in G.sites if last(s) == "write_to" and ("ChunkExt" in s.q or CHUNK in s.p)}
    made = {p for p in made if not p.startswith("shpool_protocol::") and "as std::fmt::" not in p}
    handed = lambda b: any(b.lty(i).peel().d == CHUNK or b.lty(i).peel().s in ("[u8]",) for i in range(1, b.argc + 1)) and b.kind != "closure"
    roots, follow = lift(ctx, made, handed)
    em = Emit(ctx, roots, min(lim.sizes, default=0), follow)
    run_parts(ctx, [em])
    floors(ctx, [em], "frames written")
    floors(ctx, [r], "payload reads")
