"""Facts about strings established by the usual std predicates (what a test for bad characters proves).

Mixin for path rules.  State facts are (fact, base value) pairs; facts are the ones a caller's `charfact` /
`strfact` recognise.  Handles str::contains/find with char, string, fn or closure patterns, Iterator::any/all/position
over chars()/bytes(), hand-written loops over chars(), comparisons with literals, is_empty and len tests.
"""
from .engine import Engine, Rule, Act
from .values import *

STR = "core::str::<impl str>::"
PREDS = {STR + x for x in ("contains", "find", "rfind", "chars", "bytes", "char_indices", "starts_with", "ends_with", "split_once")}
ITERP = {"std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::position", "std::iter::Iterator::find", "std::iter::Iterator::count"}
WS = "std::char::methods::<impl char>::is_whitespace"


class CharRule(Rule):
    """facts about the char argument of a predicate, per truth value of its result"""
    name = "char-predicate"
    K = 8

    def __init__(self, body, argi):
        self.p, self.argi = body, argi
        self.out = {0: None, 1: None}

    def roots(self, E):
        return [(self.p, None, frozenset())]

    def root_tags(self, body, i):
        return ("ch",) if i == self.argi else ()

    def is_ch(self, v):
        n = 0
        while v.k in ("drf", "fld", "op") and n < 4:
            if v.k == "op" and v.a[0] != "cast":
                return False
            v = v.a[0] if v.k != "op" else v.a[1]
            n += 1
        if v.k == "ref" and v.a[0][0] == "D":
            v = v.a[0][1]
        return v.k == "S" and "ch" in v.tags

    def facts(self, E, env, v, val):
        """facts that v == val proves about the char"""
        if v.k == "un" and v.a[0] == "Not" and isinstance(val, int):
            return self.facts(E, env, v.a[1], 1 - val)
        if v.k == "op" and v.a[0] == "isws" and val == 0 and self.is_ch(v.a[1]):
            return {"nows"}
        if v.k == "op" and v.a[0] in ("Eq", "Ne"):
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if b.k == "i" and self.is_ch(a):
                    if (val == 0) == (v.a[0] == "Eq"):
                        return {("ne", b.a[0])}
        if v.k == "op" and v.a[0] == "BitOr" and val == 0:
            return self.facts(E, env, v.a[1], 0) | self.facts(E, env, v.a[2], 0)
        if self.is_ch(v) and isinstance(val, tuple):
            return {("ne", x) for x in val[1]}
        if self.is_ch(v) and isinstance(val, int):
            return {("eq", val)}
        return set()

    def on_branch(self, S, v, val):
        S.st = S.st | frozenset(self.facts(self.E, S.env, v, val))

    def on_call(self, S, ev):
        if ev.p == WS:
            return Act(ret=mk("op", "isws", self.E.load(S.env, ev.args[0])))
        if ev.p not in self.E.F.bodies and ev.dest is not None and len(ev.dest) == 1 and ev.body.lty(ev.dest[0]).peel().k == "bool":
            # another predicate about the char: its answer is not the char
            return Act(ret=self.E.fresh(S, "ret"))
        return None

    def on_end(self, S, v):
        v = self.E.load(S.env, v)
        for val in (0, 1):
            if v.k == "i" and v.a[0] != val:
                continue
            f = set(S.st)
            if v.k != "i":
                k = self.E.known(S.env, v)
                if k is not None and k != val:
                    continue
                f |= self.facts(self.E, S.env, v, val)
            eqs = [x[1] for x in f if isinstance(x, tuple) and x[0] == "eq"]
            if eqs:
                f |= {("ne", c) for c in (0, 47) if c not in eqs}
                if all(not chr(c).isspace() for c in eqs if 0 <= c < 0x110000):
                    f.add("nows")
            self.out[val] = f if self.out[val] is None else self.out[val] & f


def char_pred(F, path, cache={}):
    """{0: facts, 1: facts} about a char for a predicate body"""
    if path in cache:
        return cache[path]
    if path == WS:
        cache[path] = {0: {"nows"}, 1: set()}
        return cache[path]
    b = F.bodies.get(path)
    if b is None:
        return {0: set(), 1: set()}
    r = CharRule(path, 1 if b.kind == "closure" else 0)
    E = Engine(F, r)
    r.E = E
    E.run()
    cache[path] = {k: (v if v is not None else {"nows", ("ne", 47), ("ne", 0)}) for k, v in r.out.items()}
    return cache[path]


class StrFacts:
    """mixin: call sp_call in on_call, sp_branch in on_branch; facts are delivered to sp_fact(S, base, fact)"""
    def pat_facts(self, S, v, ty, val):
        E = self.E
        x = E.load(S.env, v)
        if x.k == "i":
            return {("ne", x.a[0])} if val == 0 else set()
        if x.k == "s":
            return {("ne", ord(x.a[0]))} if val == 0 and len(x.a[0]) == 1 else set()
        if x.k == "agg" and x.a[0] == "[]":
            return {("ne", y.a[0]) for y in x.a[2] if y.k == "i"} if val == 0 else set()
        if x.k == "clo":
            return char_pred(E.F, x.a[0])[val]
        if x.k == "fn":
            fn, tys = E.fnlist[x.a[0]]
            return char_pred(E.F, fn.get("r") or fn["p"])[val]
        return set()

    def base(self, S, v):
        return self.E.load(S.env, v, 4)

    def sp_call(self, S, ev):
        p, E = ev.p, self.E
        if p in (STR + "contains", STR + "find", STR + "rfind", STR + "split_once") and len(ev.args) == 2:
            b = self.base(S, ev.args[0])
            f = tuple(sorted(self.pat_facts(S, ev.args[1], None, 0), key=str))
            if p == STR + "contains":
                return Act(ret=mk("op", "strpred", b, mk("u", f, "f0"), mk("u", (), "f1")))
            r = mk("op", "strfind", b, mk("u", f, "f0"))
            E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
            return Act(ret=r)
        if ev.q == "std::iter::IntoIterator::into_iter" and ev.args:
            it = E.load(S.env, ev.args[0])
            if it.k == "op" and it.a[0] == "chars":
                return Act(ret=it)
        if p in (STR + "chars", STR + "bytes", STR + "char_indices"):
            return Act(ret=mk("op", "chars", self.base(S, ev.args[0])))
        if ev.q in ITERP and ev.args:
            it = E.load(S.env, ev.args[0])
            if it.k == "op" and it.a[0] == "chars":
                last = ev.q.rsplit("::", 1)[-1]
                if last == "count":
                    return Act(ret=mk("len", it.a[1]))
                if last in ("any", "all"):
                    bad = 0 if last == "any" else 1
                    f = tuple(sorted(self.pat_facts(S, ev.args[1], None, bad), key=str))
                    fs = (f, ()) if bad == 0 else ((), f)
                    return Act(ret=mk("op", "strpred", it.a[1], mk("u", fs[0], "f0"), mk("u", fs[1], "f1")))
                f = tuple(sorted(self.pat_facts(S, ev.args[1], None, 0), key=str))
                r = mk("op", "strfind", it.a[1], mk("u", f, "f0"))
                E.discr_n.setdefault(mk("discr", r), (OPT, (0, 1)))
                return Act(ret=r)
        if ev.q == "std::iter::Iterator::next" and ev.args:
            it = E.load(S.env, ev.args[0])
            if it.k == "op" and it.a[0] == "chars":
                b = it.a[1]
                cur, run = self.sp_loop(S).get(b, (None, None))
                if cur is not None:
                    run = cur if run is None else run & cur
                s2 = S.fork()
                # end of the string: what held for every char seen holds for the string
                for f in (run if run is not None else {"nows", ("ne", 47), ("ne", 0)}):
                    self.sp_fact(s2, b, f)
                self.sp_set(s2, b, (None, None))
                c = E.fresh(S, "char", [("charof",)], ("char", b))
                self.sp_set(S, b, (frozenset(), run))
                self.sp_fact(S, b, "nonempty")
                self.sp_cur(S, c, b)
                return Act(forks=[(s2.st, NONE), (S.st, some(c))])
        if p == WS:
            return Act(ret=mk("op", "isws", E.load(S.env, ev.args[0])))
        if p == "core::slice::<impl [T]>::contains" and len(ev.args) == 2:
            a, b = E.load(S.env, ev.args[0]), self.base(S, ev.args[1])
            if a.k == "agg" and a.a[0] == "[]" and all(x.k == "s" or E.load(S.env, x).k == "s" for x in a.a[2]):
                f = tuple(("nestr", E.load(S.env, x).a[0]) for x in a.a[2])
                return Act(ret=mk("op", "strpred", b, mk("u", f, "f0"), mk("u", (), "f1")))
        return None

    def sp_loop(self, S):
        return dict(S.st.loop)

    def sp_branch(self, S, v, val):
        if v.k == "op" and v.a[0] in ("Eq", "Ne") and val in (0, 1) and v.a[1].k == "discr" and v.a[2].k == "i" and v.a[2].a[0] in (0, 1):
            n = v.a[2].a[0]
            v, val = v.a[1], n if (val == 1) == (v.a[0] == "Eq") else 1 - n     # is_some() and the like
        if v.k == "op" and v.a[0] == "strpred" and val in (0, 1):
            fs = v.a[2 + val].a[0]
            for f in fs:
                self.sp_fact(S, v.a[1], f)
            if v.a[3 - val].a[0]:
                self.sp_neg(S, v.a[1])
            return
        if v.k == "discr" and v.a[0].k == "op" and v.a[0].a[0] == "strfind":
            if val == 0:
                for f in v.a[0].a[2].a[0]:
                    self.sp_fact(S, v.a[0].a[1], f)
            elif v.a[0].a[2].a[0]:
                self.sp_neg(S, v.a[0].a[1])
            return
        if v.k == "op" and v.a[0] in ("Eq", "Ne") and val in (0, 1):
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                eq = (val == 1) == (v.a[0] == "Eq")
                if b.k == "s":
                    if not eq:
                        self.sp_fact(S, a, ("nestr", b.a[0]))
                    else:
                        self.sp_neg(S, a)
                elif a.k == "len" and b.k == "i":
                    if b.a[0] == 0:
                        if eq:
                            self.sp_neg(S, a.a[0])
                        else:
                            self.sp_fact(S, a.a[0], "nonempty")
                elif b.k == "i" and a.k == "S" and not eq:
                    self.sp_char(S, a, ("ne", b.a[0]))
        if v.k == "op" and v.a[0] in ("Lt", "Gt", "Le", "Ge") and val in (0, 1):
            for a, b, o in ((v.a[1], v.a[2], v.a[0]), (v.a[2], v.a[1], {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[v.a[0]])):
                if a.k == "len" and b.k == "i":
                    n = b.a[0]
                    if (o == "Gt" and val == 1 and n >= 0) or (o == "Ge" and val == 1 and n >= 1) or (o == "Lt" and val == 0 and n >= 1) or (o == "Le" and val == 0 and n >= 0):
                        self.sp_fact(S, a.a[0], "nonempty")
                    elif (o == "Lt" and n <= 1 and val == 1) or (o == "Gt" and n == 0 and val == 0):
                        self.sp_neg(S, a.a[0])
        if v.k == "op" and v.a[0] == "isws" and val == 0:
            self.sp_char(S, v.a[1], "nows")
        if v.k == "S" and isinstance(val, tuple):
            for x in val[1]:
                self.sp_char(S, v, ("ne", x))

    # hooks
    def sp_fact(self, S, base, fact):
        pass

    def sp_neg(self, S, base):
        pass

    def sp_set(self, S, base, v):
        pass

    def sp_cur(self, S, c, base):
        pass

    def sp_char(self, S, c, fact):
        pass
