"""C30: every key name stands for the byte its terminal sends."""
import string

from .part import *
from .c14 import computed
from .c20 import component

EXPLAIN = ("The function that turns a chord into a byte is interpreted over a finite abstract domain, the set of documented chords a path may still stand for (every comparison with a name, length, character test and range test splits it): "
           "each value returned is compared with the control code (or the key's own byte) of every chord left, and an error may only be left with chords nobody documented. A lookup table is read off its constant and compared entry by entry. "
           "The tokenizer is interpreted the same way over the documented characters. The compiled bindings are keyed by exactly these codes, and the byte typed is looked up as it is.")
ASSUME = ["a chord's text is its keys joined by '-'"]

SYMS = "\\[]@^_?"
KEYS = ["Space"] + list(string.ascii_lowercase) + list(string.digits) + list(SYMS)
CTRL = {"Space": {0}, "@": {0}, "2": {0}, "[": {27}, "3": {27}, "\\": {28}, "4": {28}, "]": {29}, "5": {29}, "^": {30}, "6": {30}, "_": {31}, "7": {31}, "?": {127}, "8": {127}, "0": {127, 48}, "1": {49}, "9": {57}}
CTRL.update({c: {i + 1} for i, c in enumerate(string.ascii_lowercase)})
MUST = {1: set(KEYS), 2: set(KEYS) - {"0", "1", "9"}}
CHORD = "libshpool::daemon::keybindings::Chord"


def code(kind, k):
    return CTRL[k] if kind == 2 else {32 if k == "Space" else ord(k)}


def ev_int(v, tag, c):
    """value of an expression over one character, or None"""
    if v.k == "i":
        return v.a[0]
    if v.k == "S":
        return c if tag in v.a[1] else None
    if v.k == "drf":
        return ev_int(v.a[0], tag, c)
    if v.k == "idx":
        return c if tag == "symchar" and "symkey" in origin(v) else None
    if v.k == "un":
        x = ev_int(v.a[1], tag, c)
        return None if x is None else 1 - x if v.a[0] == "Not" else -x
    if v.k == "op" and len(v.a) == 3:
        x, y = (ev_int(a, tag, c) if isinstance(a, V) else None for a in v.a[1:])
        if x is None or y is None:
            return None
        try:
            return {"Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y), "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y), "Add": lambda: x + y, "Sub": lambda: x - y,
                    "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Rem": lambda: x % y, "OvfAdd": lambda: int(x + y > 255), "OvfSub": lambda: int(x < y)}[v.a[0]]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


TESTS = {"is_ascii_lowercase": lambda c: c in string.ascii_lowercase, "is_lowercase": lambda c: c in string.ascii_lowercase, "is_ascii_digit": lambda c: c in string.digits, "is_numeric": lambda c: c in string.digits,
         "is_alphanumeric": str.isalnum, "is_ascii_alphanumeric": str.isalnum, "is_ascii_alphabetic": str.isalpha, "is_alphabetic": str.isalpha, "is_ascii_uppercase": str.isupper, "is_uppercase": str.isupper,
         "is_ascii_punctuation": lambda c: c in string.punctuation, "is_whitespace": str.isspace, "is_ascii_whitespace": str.isspace, "is_ascii": lambda c: True, "is_ascii_graphic": lambda c: True}


class Domain(Part):
    """st carries ("left", frozenset): what the path may stand for"""
    tag = "ch"
    chars = staticmethod(lambda x: x)

    def left(self, S):
        return next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "left"), None)

    def cut(self, st, left):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "left")) | {("left", frozenset(left))}

    def split(self, S, yes):
        """forks of a test that holds for the elements in yes"""
        l = self.left(S)
        out = []
        for s, r in ((l & yes, 1), (l - yes, 0)):
            if s:
                out.append((self.cut(S.st, s), B(r)))
        return Act(forks=out) if out else Act(ret=B(0))

    def on_branch(self, S, v, val):
        l = self.left(S)
        if l is None:
            return
        keep = set()
        for k in l:
            x = ev_int(v, self.tag, ord(self.chars(k)))
            if x is None:
                return
            if (x == val) if isinstance(val, int) else x not in val[1]:
                keep.add(k)
        self.refined(S)
        S.st = self.cut(S.st, keep)

    def refined(self, S):
        pass

    def char_test(self, S, ev):
        """std's tests of one character"""
        E, l, n = self.E, last(ev), len(ev.ops)
        if not n or self.left(S) is None:
            return None
        v = E.load(S.env, ev.args[0])
        if v.k == "S" and self.tag in v.a[1]:
            if l in TESTS and n == 1:
                self.refined(S)
                return self.split(S, {k for k in self.left(S) if TESTS[l](self.chars(k))})
            if l == "is_digit" and n == 2 and ev.args[1].k == "i":
                self.refined(S)
                return self.split(S, {k for k in self.left(S) if self.chars(k).isalnum() and int(self.chars(k), 36) < ev.args[1].a[0]})
            if l in ("clone", "deref", "to_owned", "into", "from") and n == 1 and ev.destty().s in ("char", "u8", "u32", "&char", "&u8"):
                return Act(ret=v)
        if n == 2 and l == "contains" and v.k == "s":
            x = E.load(S.env, ev.args[1])
            if x.k == "S" and self.tag in x.a[1]:
                self.refined(S)
                return self.split(S, {k for k in self.left(S) if self.chars(k) in v.a[0]})
        return None


class Code(Domain):
    name = "code"
    K = 200
    tag = "symchar"
    chars = staticmethod(lambda k: k[0])
    exact_tags = frozenset(["symkey", "ctrlkey", "symchar", "entry"])

    def __init__(self, ctx, roots, table):
        Part.__init__(self, ctx, roots)
        self.table = table
        self.names = {k[5:] for k in table}

    def opaque(self, body):
        return False

    def root_tags(self, body, i):
        return ("chord",)

    def kind(self, S):
        return next((f[1] for f in S.st if isinstance(f, tuple) and f[0] == "kind"), None)

    def kinds(self, S):
        """[(kind, state)] with the kind decided"""
        if self.kind(S) is not None:
            return [(self.kind(S), S.st)]
        return [(k, S.st | {("kind", k), ("left", frozenset(KEYS))}) for k in (1, 2)]

    def sym(self, S):
        return self.E.fresh(S, "key", ["symkey"])

    def on_call(self, S, ev):
        E, l, n = self.E, last(ev), len(ev.ops)
        if not n:
            return None
        v = E.load(S.env, ev.args[0])
        o = origin(v)
        ty = ev.argty(0).s
        # the table
        if "(&str, u8)" in ty or "(&'static str, u8)" in ty:
            if l in ("iter", "into_iter"):
                return Act(ret=E.fresh(S, "table"))
            lf = self.left(S) or frozenset(KEYS)
            if l == "next" and n == 1 and self.kind(S) is not None:
                if "turn" in S.st:
                    self.rep(S, "lookup", ev, "an entry of the table of control codes is not compared with the chord")
                out = [(self.cut(S.st | {"turn"}, lf), agg(OPT, 1, (E.fresh(S, "entry", ["entry"]),)))]
                # every entry has been compared by then
                out.append((self.cut(S.st - {"turn"}, lf - self.names), agg(OPT, 0, ())))
                return Act(forks=out)
            if l in ("find", "find_map") and self.kind(S) is not None:
                hit = agg(OPT, 1, (E.fresh(S, "entry", ["entry"] if l == "find" else ["entry", "code"]),))
                out = [(self.cut(S.st | {"via"}, lf & self.names), hit), (self.cut(S.st, lf - self.names), agg(OPT, 0, ()))]
                return Act(forks=[f for f in out if self.pick(f[0])])
        if "std::string::String" in ty and "chord" in o and "symkey" not in o and "Vec" in ty + ev.p or "chord" in o and ("[std::string::String]" in ty or "[String]" in ty):
            if l == "len":
                return Act(forks=[(st, I(k)) for k, st in self.kinds(S)])
            if l == "is_empty":
                return Act(forks=[(st, B(0)) for k, st in self.kinds(S)])
            if l in ("index", "get") and n == 2:
                i = E.load(S.env, ev.args[1])
                out = []
                for k, st in self.kinds(S):
                    x = None
                    if i.k == "i" and i.a[0] < k:
                        x = self.sym(S) if i.a[0] == k - 1 else E.fresh(S, "ctrl", ["ctrlkey"])
                    if l == "get":
                        out.append((st, agg(OPT, 1, (x,)) if x else agg(OPT, 0, ())))
                    elif x is not None:
                        out.append((st, x))
                return Act(forks=out)
            if l in ("first", "last"):
                return Act(forks=[(st, agg(OPT, 1, (self.sym(S) if l == "last" or k == 1 else E.fresh(S, "ctrl", ["ctrlkey"]),))) for k, st in self.kinds(S)])
            if l in ("iter", "into_iter"):
                return Act(ret=E.fresh(S, "keys", ["chord", "keyiter"]))
        if l == "next" and "keyiter" in o:
            out = []
            for k, st in self.kinds(S):
                out += [(st, agg(OPT, 0, ())), (st, agg(OPT, 1, (self.sym(S),)))]
                if k == 2:
                    out.append((st, agg(OPT, 1, (E.fresh(S, "ctrl", ["ctrlkey"]),))))
            return Act(forks=out)
        if l in ("all", "any") and "keyiter" in o:
            return None
        if l in ("eq", "ne") and n == 2:
            r = self.equal(S, ev, v, E.load(S.env, ev.args[1]))
            if r is not None and l == "ne":
                if r.forks:
                    r.forks = [(st, B(1 - x.a[0])) for st, x in r.forks]
                else:
                    r.ret = B(1 - r.ret.a[0])
            return r
        if "symkey" in o or "ctrlkey" in o:
            me = "symkey" in o
            if l in ("deref", "as_str", "as_ref", "borrow", "clone", "to_string", "to_owned", "as_bytes", "into", "from") and n == 1:
                return Act(ret=v)
            if l == "len" and n == 1:
                if not me:
                    return Act(ret=I(4))
                lf = self.left(S)
                return Act(forks=[(self.cut(S.st, s), I(x)) for x, s in ((1, lf - {"Space"}), (5, lf & {"Space"})) if s])
            if l == "is_empty":
                return Act(ret=B(0))
            if l in ("chars", "bytes"):
                return Act(ret=E.fresh(S, "chars", ["symchars" if me else "ctrlchars"]))
            if l in ("index", "first", "get") and me:
                c = E.fresh(S, "char", ["symchar"])
                return Act(ret=c if l == "index" else agg(OPT, 1, (c,)))
        if l in ("next", "last", "nth") and "symchars" in o:
            return Act(ret=agg(OPT, 1, (E.fresh(S, "char", ["symchar"]),)))
        return self.char_test(S, ev)

    def pick(self, st):
        return next((f[1] for f in st if isinstance(f, tuple) and f[0] == "left"), True)

    def equal(self, S, ev, a, b):
        for x, y in ((a, b), (b, a)):
            ox = origin(x)
            oy = origin(y)
            if "entry" in oy and component(y) == 0 and "chord" in self.E.deep_tags(S.env, x):
                lf = self.left(S)
                if lf is None:
                    return None
                st = (S.st - {"turn"}) | {"seen"}
                out = [(self.cut(st | {"via"}, lf & self.names), B(1)), (self.cut(st, lf), B(0))]
                return Act(forks=[f for f in out if self.pick(f[0])])
            if y.k == "s":
                if "symkey" in ox:
                    return self.split(S, {y.a[0]})
                if "ctrlkey" in ox:
                    return Act(ret=B(int(y.a[0] == "Ctrl")))
                if "chord" in self.E.deep_tags(S.env, x) and self.left(S) is not None:
                    k = self.kind(S)
                    return self.split(S, {y.a[0][5:]} if k == 2 and y.a[0].startswith("Ctrl-") else {y.a[0]} if k == 1 else set())
        return None

    def on_end(self, S, v):
        E = self.E
        v = E.load(S.env, v)
        ev = type("e", (), {"body": S.frame.body})
        todo = [(self.kind(S), self.left(S))] if self.kind(S) is not None else [(1, frozenset(KEYS)), (2, frozenset(KEYS))]
        bad = v.a[1] if v.k == "agg" else E.known(S.env, mk("discr", v))
        pay = E.load(S.env, E.get(E.get(v, ("v", 0)) if v.k != "agg" else v, ("f", 0, "0"))) if bad == 0 and v.k == "agg" else None
        for kind, left in todo:
            if left is None:
                left = frozenset(KEYS)
            if not left:
                continue
            if bad == 1:
                miss = left & MUST[kind]
                if miss:
                    self.rep(S, "rejected", ev, "documented chords are not accepted: %s" % " ".join(sorted(("Ctrl-" if kind == 2 else "") + k for k in miss)[:5]))
                continue
            if pay is None:
                self.rep(S, "code", ev, "cannot tell which code a chord gets")
                continue
            o = origin(pay)
            if "entry" in o and (component(pay) == 1 or "code" in o) and "via" in S.st:
                self.ok("codes from the table", ev)
                if kind == 1:
                    self.rep(S, "code", ev, "a plain key gets the code of a control chord")
                continue
            wrong = []
            for k in left:
                x = ev_int(pay, "symchar", ord(k[0]))
                if x is None or x & 255 not in code(kind, k):
                    wrong.append(("Ctrl-" if kind == 2 else "") + k)
            if wrong:
                self.rep(S, "code", ev, "chords get another code than their terminal sends: %s" % " ".join(sorted(wrong)[:5]))
            else:
                self.ok("codes of %s" % ("plain keys" if kind == 1 else "control chords"), ev)


class Lex(Domain):
    name = "tokens"
    K = 120
    exact_tags = frozenset(["ch"])
    local_stores = True

    def opaque(self, body):
        return body.kind != "closure" and "Token" not in body.lty(0).s

    def refined(self, S):
        self.add(S, "refined")

    def on_call(self, S, ev):
        E, l, n = self.E, last(ev), len(ev.ops)
        if l == "next" and n == 1 and "slice::Iter<'_, char>" in ev.argty(0).s:
            self.turn(S, ev)
            st = S.st - {"refined", "pushed"}
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "left"))
            return Act(forks=[(st, agg(OPT, 0, ())), (st | {("left", frozenset(KEYS[1:]))}, agg(OPT, 1, (E.fresh(S, "ch", ["ch"]),)))])
        if n == 1 and l in ("from", "to_string", "into", "to_owned"):
            v = E.load(S.env, ev.args[0])
            if v.k == "s" and "String" in ev.destty().s:
                return Act(ret=v)
            if "ch" in origin(v) and "String" in ev.destty().s:
                return Act(ret=E.fresh(S, "own", ["ownname"]))
        return self.char_test(S, ev)

    def turn(self, S, ev):
        l = self.left(S)
        if "refined" in S.st and l and "pushed" not in S.st:
            self.rep(S, "dropped", ev, "documented keys are dropped by the tokenizer: %s" % " ".join(sorted(l)[:5]))

    def on_store(self, S, root, path, v, body, span):
        if v.k == "agg" and v.a[0].endswith("::Token") and v.a[2]:
            ev = type("e", (), {"body": body})
            self.add(S, "pushed")
            x = self.E.load(S.env, v.a[2][0])
            l = self.left(S)
            if x.k == "s":
                if l is not None and l - {x.a[0]} or l is None:
                    self.rep(S, "token", ev, "another key than the one written is read: %s as %s" % (" ".join(sorted((l or set()) - {x.a[0]})[:5]), x.a[0]))
                else:
                    self.ok("names of keys", ev)
            elif l and "refined" in S.st and "ownname" not in origin(x):
                self.rep(S, "token", ev, "cannot tell which key a character is read as")
            else:
                self.ok("names of keys", ev)

    def on_end(self, S, v):
        v = self.E.load(S.env, v)
        l = self.left(S)
        if v.k == "agg" and v.a[1] == 1 and l and "refined" in S.st:
            self.rep(S, "rejected", type("e", (), {"body": S.frame.body}), "documented keys are not accepted: %s" % " ".join(sorted(l)[:5]))


class Compile(Part):
    name = "compile"
    K = 8
    local_stores = True

    def __init__(self, ctx, roots, coders):
        Part.__init__(self, ctx, roots)
        self.coders = coders

    def opaque(self, body):
        return body.kind != "closure"

    def root_tags(self, body, i):
        return ("byte",) if body.lty(i + 1).s == "u8" else ()

    def on_store(self, S, root, path, v, body, span):
        if "code" in v.tags and computed(v):
            self.add(S, "changed")

    def on_call(self, S, ev):
        E, l, n = self.E, last(ev), len(ev.ops)
        if ev.p in self.coders:
            self.ok("codes taken", ev)
            return Act(forks=[(S.st, agg(RES, 0, (E.fresh(S, "code", ["code"]),))), (S.st, agg(RES, 1, (E.fresh(S, "bad"),)))])
        if n >= 2 and "Trie<u8" in ev.argty(0).s:
            x = E.load(S.env, ev.args[-1 if l == "advance" else 1])
            if l == "insert":
                if "code" not in E.deep_tags(S.env, ev.args[1]) or "changed" in S.st or computed(ev.args[1]):
                    self.rep(S, "key", ev, "a binding is stored under something else than its chord's code")
                else:
                    self.ok("chords stored", ev)
            elif l == "advance":
                if not (x.k == "S" and "byte" in x.a[1]):
                    self.rep(S, "byte", ev, "something else than the byte typed is looked up")
                else:
                    self.ok("bytes looked up", ev)
        if n >= 2 and "HashMap" in ev.argty(0).s and "Atom" in ev.argty(0).s and l in ("entry", "insert", "get"):
            if "code" not in E.deep_tags(S.env, ev.args[1]):
                self.rep(S, "key", ev, "chords are told apart by something else than the code they send")
            else:
                self.ok("chords numbered", ev)
        return None


def run(ctx):
    ctx.rule("code(chord) = the byte a terminal sends for it, for every documented chord; every documented chord is accepted")
    F, G = ctx.F, ctx.G
    table = {}
    for p, b in F.bodies.items():
        if not p.startswith("libshpool::daemon::keybindings"):
            continue
        for bb in b.blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] == "agg" and st[2][1][0] == "tuple" and len(st[2][2]) == 2:
                    a, c = (o.get("k", {}).get("v") if isinstance(o, dict) else None for o in st[2][2])
                    if isinstance(a, dict) and isinstance(c, dict) and str(a.get("str", "")).startswith("Ctrl-") and "i" in c:
                        table.setdefault(a["str"], set()).add(int(c["i"]))
    for n, cs in sorted(table.items()):
        k = n[5:]
        ctx.check(k in CTRL and cs <= CTRL[k], "table", n, "%s is listed with code %s, a terminal sends %s" % (n, sorted(cs), sorted(CTRL.get(k, ()))), "table of control codes")
    roots = {p for p, b in F.bodies.items() if b.kind != "closure" and b.argc == 1 and b.lty(1).peel().d == CHORD and b.lty(0).d == RES and b.lty(0).args and b.lty(0).args[0].s == "u8"}
    ctx.floor("functions from a chord to its code", len(roots), 1)
    c = Code(ctx, roots, table)
    lexers = {p for p, b in F.bodies.items() if b.kind != "closure" and b.lty(0).d == RES and "Vec<daemon::keybindings::Token>" in b.lty(0).s}
    ctx.floor("tokenizers", len(lexers), 1)
    x = Lex(ctx, lexers)
    builders = {G.owner(s.body.p) for s in G.sites if s.t[2] and "Trie<u8" in s.argty(0).s and s.body.p.startswith("libshpool::daemon::keybindings") and last(s) in ("insert", "advance")}
    k = Compile(ctx, builders, roots)
    run_parts(ctx, [c, x, k])
    floors(ctx, [c, x, k], "codes of plain keys", "names of keys", "codes taken", "chords stored", "chords numbered", "bytes looked up")
    ctx.floor("codes of control chords", len({y for y in c.seen if y[0] in ("codes of control chords", "codes from the table")}), 1)
    # the notation's words
    def strs(x):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str):
                yield x["str"]
            for y in x.values():
                yield from strs(y)
        elif isinstance(x, list):
            for y in x:
                yield from strs(y)
    words = {w for p, b in F.bodies.items() if p.startswith("libshpool::daemon::keybindings") for w in strs(b.blocks)}
    for w in ("Ctrl", "Space"):
        ctx.check(w in words, "rejected", w, "the word %s is not part of the notation" % w, "tokenizer")
