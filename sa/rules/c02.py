"""C02: unusable or escaping session names are refused with no side effect, by the daemon and by the client."""
from .common import *
from ..strpred import *

EXPLAIN = ("Path-sensitive predicate analysis: on every path from decoding an Attach header to an effect (fork, table insert, directory, file or link "
           "change, session lock) the branches taken must prove that the name is non-empty, not '.', not '..', and free of '/' and whitespace; a path "
           "that found the name bad must write an error reply. The client must prove the same about the name it sends before it writes an attach header.")
ASSUME = ["std string predicates mean what their documentation says"]
NEED = {"nonempty", ("nestr", "."), ("nestr", ".."), ("ne", 47), "nows"}
FS = {"write", "create_dir_all", "create_dir", "remove_file", "remove_dir_all", "set_permissions", "rename", "symlink", "copy", "hard_link"}
HDR = "shpool_protocol::AttachHeader"
CONN = "shpool_protocol::ConnectHeader"
REPLY = "shpool_protocol::AttachReplyHeader"


class St:
    __slots__ = ("k", "facts", "loop", "bad", "replied")

    def __init__(self, k="none", facts=frozenset(), loop=frozenset(), bad=frozenset(), replied=False):
        self.k, self.facts, self.loop, self.bad, self.replied = k, facts, loop, bad, replied

    def t(self):
        return (self.k, self.facts, self.loop, self.bad, self.replied)

    def __hash__(self):
        return hash(self.t())

    def __eq__(self, o):
        return isinstance(o, St) and self.t() == o.t()

    def w(self, **kw):
        n = St(*self.t())
        for k, v in kw.items():
            setattr(n, k, v)
        return n


def effect(s, site=False):
    p = s.p
    if p.endswith("Fork::from_ptmx"):
        return "fork"
    if p.startswith("std::fs::") and p.rsplit("::", 1)[-1] in FS or p == "std::os::unix::fs::symlink":
        return "file system change"
    op = table_op(s, site)
    if op is not None and op in ("insert", "remove", "remove_entry", "entry", "insert_entry", "or_insert", "or_insert_with"):
        return "session table change"
    return None


def encodes(s):
    return s.p.startswith("libshpool::protocol::encode_to") and s.ta and s.ta[0].d


class R(StrFacts, SliceRule):
    """side: 'daemon' tracks the name in a decoded header, 'find' finds the values a client sends, 'client' tracks those"""
    need = NEED

    def __init__(self, ctx, side):
        SliceRule.__init__(self, ctx)
        self.side, self.name, self.sent = side, "session-name-" + side, set()
        if side == "find":
            self.on_phi, self.parts = self.stands_for, {}
        self.guarded, self.client, self.refused, self.charof, self.wanted = set(), set(), set(), {}, set()

    def stands_for(self, n, x, y):
        for v in (x, y):
            if v.k in ("S", "dc"):
                self.parts.setdefault(n, set()).update(v.syms)

    def names_of(self, v):
        """the symbols v may stand for"""
        work, seen = list(v.syms), set()
        while work:
            n = work.pop()
            if n not in seen:
                seen.add(n)
                work.extend(self.parts.get(n, ()))
                k = self.E.symkey(n)
                if k[0] == "old":
                    work.append(k[1])
        return seen

    def tracked(self, base):
        if self.side == "daemon":
            return is_name(base)
        if self.side == "find":
            return False
        return any(self.point(n) in self.wanted for n in base.syms)

    def point(self, n):
        """what introduces a symbol, in words that mean the same in another run"""
        m = self.E.symmeta[n]
        return m if m and m[0] == "call" else self.E.symkey(n)

    def slice_roots(self):
        return self.entry_roots()

    def start(self, root):
        return St()

    def on_spawn(self, S, ev, clo):
        return S.st.w(loop=frozenset())

    def relevant(self, s):
        if self.side != "daemon":
            return encodes(s) == CONN
        if effect(s, True) or encodes(s) == REPLY:
            return True
        if s.p.startswith("libshpool::protocol::decode_from") and s.ta and s.ta[0].d == CONN:
            return True
        return False

    def rel_bodies(self):
        # helpers that judge a string: local functions over &str returning bool/Result, called from relevant files
        G, out = self.ctx.G, set()
        for s in G.sites:
            if s.p in PREDS or s.q in ITERP or s.p == WS:
                o = self.ctx.F.bodies.get(G.owner(s.body.p))
                if o is not None and o.kind in ("fn", "method") and o.argc >= 1 and any("str" in o.lty(i + 1).s and "HashMap" not in o.lty(i + 1).s for i in range(o.argc)) and len(o.blocks) < 120 and (o.lty(0).s == "bool" or o.lty(0).d in (OPT, RES)):
                    out.add(o.p)
        near = G.up(G.calling(self.relevant))
        types = (HDR,) if self.side == "daemon" else ("libshpool::attach::",)
        handles = {b.p for b in self.ctx.F.bodies.values() if b.p in near and any(l.mentions(t) if not t.endswith("::") else t in (l.peel().d or "") for l in map(b.lty, range(len(b.locals))) for t in types)}
        out = {o for o in out if G.pred.get(o, set()) & (handles | out)} & G.reach(handles) if handles else out
        return out if self.side == "daemon" else out | makers(self.ctx.F)

    def result_tags(self, S, ev):
        if ev.p.startswith("libshpool::protocol::decode_from") and ev.ta and ev.ta[0].d == CONN:
            return ["hdr"]
        return None

    def on_result(self, S, ev, ret):
        if ev.p.startswith("libshpool::protocol::decode_from") and ev.ta and ev.ta[0].d == CONN:
            S.st = S.st.w(k="req", facts=frozenset(), bad=frozenset(), replied=False)

    # facts
    def sp_fact(self, S, base, fact):
        if fact == ("nestr", ""):
            fact = "nonempty"
        if fact in self.need and self.tracked(base):
            S.st = S.st.w(facts=S.st.facts | {(fact, base)})

    def sp_neg(self, S, base):
        if is_name(base):
            S.st = S.st.w(bad=S.st.bad | {base})

    def sp_set(self, S, base, v):
        if not self.tracked(base):
            return
        d = dict(S.st.loop)
        if v == (None, None):
            d.pop(base, None)
        else:
            d[base] = v
        S.st = S.st.w(loop=frozenset(d.items()))

    def sp_cur(self, S, c, base):
        self.charof[c] = base

    def sp_char(self, S, c, fact):
        b = self.charof.get(c)
        if b is not None:
            d = dict(S.st.loop)
            if b in d and d[b][0] is not None and fact in self.need:
                d[b] = (d[b][0] | {fact}, d[b][1])
                S.st = S.st.w(loop=frozenset(d.items()))

    def on_branch(self, S, v, val):
        self.sp_branch(S, v, val)

    def proved(self, S, v):
        return {f for f, b in S.st.facts if b is v}

    def on_call(self, S, ev):
        w = effect(ev)
        if w and S.st.k == "req":
            names = {b for f, b in S.st.facts if is_name(b)}
            good = [b for b in names if self.need <= self.proved(S, b)]
            if w == "session table change" and not any(e == "insert" for e in [table_op(ev)]) and table_op(ev) in ("remove", "remove_entry"):
                return None
            if w == "file system change" and not any("hdr" in self.E.deep_tags(S.env, a) for a in ev.args):
                return None
            where = self.ctx.G.owner(ev.body.p)
            if not good:
                miss = self.need - set().union(*[self.proved(S, b) for b in names]) if names else self.need
                self.E.report(S, "unchecked-name", "%s in %s" % (w, where),
                              "%s is reached by an attach request without proof that the session name is usable (missing: %s)" % (w, sorted(map(str, miss))))
            else:
                self.guarded.add((w, where))
        t = encodes(ev)
        if S.st.k == "req" and any(ev.argty(i).peel().d == REPLY for i in range(len(ev.ops))):
            S.st = S.st.w(replied=True)
        if t == CONN and self.side != "daemon":
            h = ev.load(0, ) if ev.argty(0).peel().d == CONN else None
            if h is not None and h.k == "agg" and h.a[0] == CONN and self.E.F.adts[CONN]["v"][h.a[1]]["n"] == "Attach":
                a = self.E.load(S.env, h.a[2][0])
                nm = None
                if a.k == "agg":
                    i = [f[0] for f in self.E.F.adts[HDR]["v"][0]["f"]].index("name")
                    nm = self.E.load(S.env, a.a[2][i], 4)
                if nm is not None:
                    self.sent |= {self.point(n) for n in (self.names_of(nm) if self.side == "find" else nm.syms)}
                if self.side == "find":
                    return None
                pr = self.proved(S, nm) if nm is not None else set()
                where = self.ctx.G.owner(ev.body.p)
                if self.need <= pr:
                    self.client.add(where)
                else:
                    self.E.report(S, "client-unchecked", "attach header", "the client sends an attach request for a name it did not check (missing: %s)" % sorted(map(str, self.need - pr)))
        return self.sp_call(S, ev)

    def on_end(self, S, v):
        if S.st.bad and S.st.k == "req":
            if S.st.replied:
                self.refused.add(S.root)
            else:
                self.E.report(S, "silent-refusal", "attach", "a bad session name is refused without an answer to the client")


def is_name(v):
    return v.k == "fld" and v.a[1] == "name" and "hdr" in v.tags or (v.k == "fld" and len(v.a) > 2 and v.a[2] == "name" and "hdr" in v.tags)


def run(ctx):
    ctx.rule("every attach effect and every attach header sent is preceded by branches proving {non-empty, != '.', != '..', no '/', no whitespace} of the name")
    d, f, c = R(ctx, "daemon"), R(ctx, "find"), R(ctx, "client")
    ctx.engine(d)
    ctx.engine(f)
    c.wanted = f.sent
    ctx.engine(c)
    for w, x in sorted(d.guarded):
        ctx.ok("name-checked-before", "%s in %s" % (w, x))
    for x in sorted(c.client):
        ctx.ok("client-checks-name", x)
    for x in sorted(d.refused):
        ctx.ok("refusal-answered", x)
    ctx.floor("guarded effects", len(d.guarded), 1)
    ctx.floor("client attach headers", len(c.client), 1)
    ctx.floor("answered refusals", len(d.refused), 1)
