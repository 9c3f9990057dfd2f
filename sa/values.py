"""Hash-consed abstract values.

 i(n) s(str) b(bytes) u(x)         constants / opaque constants
 agg(name, variant, fields)        struct / enum / tuple '()' / array '[]'
 ref(root, path, mut)              pointer to a known place
 clo(path, upvals) fn(calleeid)    callables
 S(n, tags)                        symbol introduced at a program point
 fld vf drf op un discr len idx    derived symbolic expressions
 ov(base, items)                   symbolic value with some fields overwritten
 guard(cls, kind, n, root, path)   lock guard
 X(...)                            rule specific
Roots: ('L',fid,local) ('B',n) ('T',..) ('G',path) ('K',V) ('D',V)
"""
_tab = {}
EMPTY = frozenset()


class V:
    __slots__ = ("k", "a", "syms", "tags", "refs", "depth", "own")

    def __repr__(self):
        return show(self)


def _attrs(v):
    syms, tags, refs, own, depth = EMPTY, EMPTY, EMPTY, EMPTY, 0
    k, a = v.k, v.a
    if k == "S":
        syms = frozenset((a[0],))
        tags = a[1]
        o = frozenset(t[1] for t in tags if isinstance(t, tuple) and t[0] == "own")
        own = o
    elif k == "ref":
        r = a[0]
        refs = frozenset((r,))
        if r[0] == "D":
            syms, tags = r[1].syms, frozenset(t for t in r[1].tags if not (isinstance(t, tuple) and t[0] == "own"))
            refs = refs | r[1].refs
            depth = r[1].depth
        elif r[0] == "K":
            tags = r[1].tags
        for e in a[1]:
            if e[0] == "ix" and len(e) > 1 and isinstance(e[1], V):
                syms |= e[1].syms
    elif k == "guard":
        own = frozenset((v,))
        r = a[3]
        refs = frozenset((r,))
        if r[0] == "D":
            syms = r[1].syms
            refs |= r[1].refs
            depth = r[1].depth
    else:
        def walk(x):
            nonlocal syms, tags, refs, own, depth
            if isinstance(x, V):
                if x.syms:
                    syms = syms | x.syms
                if x.tags:
                    tags = tags | x.tags
                if x.refs:
                    refs = refs | x.refs
                if x.own:
                    own = own | x.own
                if x.depth > depth:
                    depth = x.depth
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        for x in a:
            walk(x)
    v.syms, v.tags, v.refs, v.own, v.depth = syms, tags, refs, own, depth + 1


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k, v.a = k, a
        _attrs(v)
        _tab[key] = v
    return v


def I(n):
    return mk("i", n)


UNIT = mk("agg", "()", None, ())
TRUE, FALSE = I(1), I(0)


def B(x):
    return TRUE if x else FALSE


OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
NONE = mk("agg", OPT, 0, ())


def some(v):
    return mk("agg", OPT, 1, (v,))


def ok(v):
    return mk("agg", RES, 0, (v,))


def err(v):
    return mk("agg", RES, 1, (v,))


def agg(name, variant, fields):
    return mk("agg", name, variant, tuple(fields))


def show(v, d=0):
    if not isinstance(v, V):
        return str(v)
    k, a = v.k, v.a
    if d > 5:
        return ".."
    if k == "i":
        return str(a[0])
    if k in ("s", "b", "u"):
        return repr(a[0])
    if k == "agg":
        return "%s%s(%s)" % (str(a[0]).split("::")[-1], "" if a[1] is None else "#%d" % a[1],
                             ", ".join(show(x, d + 1) for x in a[2]))
    if k == "ref":
        return "&%s%s" % (showroot(a[0], d + 1), "".join("." + str(e[-1]) for e in a[1]))
    if k == "clo":
        return "clo<%s>" % a[0].split("::", 2)[-1]
    if k == "S":
        t = [x for x in a[1] if not (isinstance(x, tuple) and x[0] == "own")]
        return "$%s%s" % (a[0], "{%s}" % ",".join(sorted(map(str, t))) if t else "")
    if k == "fld":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if k == "vf":
        return "%s@%s.%s" % (show(a[0], d + 1), a[1], a[2])
    if k == "drf":
        return "*%s" % show(a[0], d + 1)
    if k == "guard":
        return "guard<%s %s@%s>" % (a[1], a[0].split("::")[-1][:30], a[2])
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) for x in a))


def showroot(r, d=0):
    if r[0] == "D":
        return "[%s]" % show(r[1], d + 1)
    if r[0] == "K":
        return show(r[1], d + 1)
    return "%s" % (r,)


MAXDEPTH = 14


def tup(*x):
    return mk("agg", "()", None, x)


def flat(x):
    """the values in a part of a value (updates and field lists are nested tuples)"""
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    else:
        yield x
