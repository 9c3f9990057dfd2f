"""Iterating over a collection, by an arbitrary one of its elements.

An iterator (and what it is collected into) over an unknown collection is Some(element) or None: the element is any one of the collection's, None says it
yields no element the adapters let pass. Adapters then do to it what they do to an Option."""
from .part import *
from ..models import option_result

AS = {"map": "map", "filter": "filter", "filter_map": "and_then", "flat_map": "and_then", "cloned": "cloned", "copied": "copied", "inspect": "inspect", "find_map": "and_then", "find": "filter", "for_each": "map", "map_while": "and_then", "try_for_each": "map"}
PLAIN = {"collect", "into_iter", "iter", "iter_mut", "by_ref", "peekable", "fuse", "rev", "skip", "take", "to_vec", "into_boxed_slice", "sorted", "drain", "clone", "to_owned", "as_slice", "from_iter", "chunks", "skip_while", "take_while"}


def gen(v):
    return v.k == "agg" and v.a[0] == OPT


class Gen:
    """mixin for a Part; element(S, ev, v) makes an element of the unknown collection v, or None to leave it alone"""

    def element(self, S, ev, v):
        return None

    def without(self, st):
        """the state when the collection yields nothing"""
        return st

    def began(self, S, e):
        """a loop is given an element"""

    def ended(self, S, e):
        """and comes to its end"""

    def coll(self, S, v):
        E = self.E
        for _ in range(6):
            w = E.load(S.env, v)
            while w.k == "drf":
                w = w.a[0]
            if w == v or w.k != "ref":
                return w
            v = w
        return w

    def geniter(self, S, ev):
        E, l, n = self.E, last(ev), len(ev.ops)
        if not n or ev.p in E.F.bodies:
            return None
        it = ev.trait in ("std::iter::Iterator", "std::iter::IntoIterator", "std::iter::FromIterator") or l in ("iter", "iter_mut", "to_vec", "drain", "keys", "values", "into_keys", "into_values") and ("Vec" in ev.argty(0).s or "[" in ev.argty(0).s or "Map" in ev.argty(0).s)
        if not it and not (l in ("clone", "to_owned", "deref", "as_slice") and gen(self.coll(S, ev.args[0])) and "Vec" in ev.argty(0).s):
            return None
        if l == "next":
            r, q = E.deref(ev.args[0])
            x = E.read(S.env, r, q)
            while x.k == "ref":
                r, q = x.a[0], x.a[1]
                x = E.read(S.env, r, q)
            if gen(x):
                if x.a[1] == 1:
                    E.write(S.env, r, q, agg("$end", None, x.a[2]))
                    self.began(S, x.a[2][0])
                return Act(ret=x)
            if x.k == "agg" and x.a[0] == "$end":
                self.ended(S, x.a[2][0])
                return Act(ret=NONE)
            return None
        v = self.coll(S, ev.args[0])
        if not gen(v) and not (v.k == "agg" and v.a[0] == "[]"):
            if l in ("iter", "iter_mut", "into_iter", "drain", "keys", "values", "into_keys", "into_values"):
                e = self.element(S, ev, v)
                if e is not None:
                    if l in ("keys", "into_keys", "values", "into_values"):
                        e = e.a[2][0 if "keys" in l else 1] if e.k == "agg" and len(e.a[2]) == 2 else E.fresh(S, "elem")
                    return Act(forks=[(S.st, agg(OPT, 1, (e,))), (self.without(S.st), agg(OPT, 0, ()))])
            return None
        if not gen(v):
            return None
        if l in PLAIN or l == "deref":
            return Act(ret=v if l != "deref" else ev.args[0])
        if l == "chain" and n == 2:
            w = self.coll(S, ev.args[1])
            if gen(w) or w.k == "agg" and w.a[0] == "[]":
                outs = [(S.st, v), (S.st, w)] if gen(w) else [(S.st, v)] + [(S.st, agg(OPT, 1, (x,))) for x in w.a[2]]
                return Act(forks=outs)
            return None
        if l in ("any", "all"):
            if v.a[1] == 0:
                return Act(ret=B(int(l == "all")))
        if l in AS:
            ev.args[0] = v
            return Act(states=option_result(E, S, ev, True, AS[l]))
        return None
