"""C22: no value a client can send panics the daemon."""
from .part import *
from ..taint import Taint, WRAP, ends
from ..lib import place_ty
from ..facts import term_succs
from . import c02

EXPLAIN = ("Taint analysis of everything the daemon runs, from every field of every request that can be decoded (through locals, fields, closures, channels, collections and library calls, with the variant of an Option or Result and the length of a collection kept apart from "
           "its contents), to every operation that can panic: arithmetic with overflow and bounds checks, unwrap and expect, indexing and slicing, arithmetic on times, named threads, environment changes, terminal emulators given an empty size, and explicit panics and assertions. "
           "Where request values reach one, it must be out of the panic's reach: by the range of the value (types, constants, min/max/saturating operations, branches taken on the way), or because the same collection or result was tested before. Names that go into thread names must have been proved free of NUL.")
ASSUME = ["library functions outside the list of operations that can panic do not panic", "no collection holds 4 GiB", "running out of memory is outside the property"]

CONN = "shpool_protocol::ConnectHeader"
INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
       "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "bool": (0, 1), "char": (0, 0x10ffff)}
FULL = (-2**128, 2**128)
BIG = 2**60  # seconds that can be added to any time this side of the heat death
UNWRAPS = ("::unwrap", "::expect", "::unwrap_err", "::expect_err")
PANICS = ("core::panicking::", "std::panicking::", "std::rt::begin_panic", "std::rt::panic", "core::option::", "core::result::", "std::process::abort")
# what indexes, slices or resizes: (suffixes of the function, arguments whose value matters)
INDEXED = ("::index", "::index_mut", "::split_at", "::split_at_mut", "::swap_remove", "::split_off", "::drain", "::copy_from_slice", "::clone_from_slice", "::swap", "::rotate_left", "::rotate_right", "::copy_within", "::insert_str", "::replace_range", "::truncate_to")
SEQS = ("std::vec::Vec", "alloc::vec::Vec", "core::slice::", "std::slice::", "core::str::", "std::str::", "std::string::String", "std::array::", "std::collections::VecDeque", "<std::vec::Vec", "<std::string::String", "<std::collections::", "std::collections::HashMap", "std::ops::Index", "<str as", "<[T] as")
FRESH = ("first", "last", "get", "next", "chars", "pop", "max", "min", "find", "rfind", "position", "strip_prefix", "strip_suffix", "remove", "get_mut", "as_ref", "as_mut", "as_deref", "peek", "split_once", "rsplit_once", "iter", "into_iter", "split", "pop_front", "pop_back", "cloned", "copied", "nth", "bytes", "take", "to_str", "first_mut", "last_mut")
SAME_SEQ = ("deref", "deref_mut", "as_ref", "as_slice", "as_str", "as_bytes", "borrow", "clone", "as_mut", "to_vec", "to_string", "to_owned", "as_mut_slice", "as_path", "as_os_str")


class Ranges:
    """what values an integer can have at a place in a function"""

    def __init__(self, ctx):
        self.ctx, self.F, self.G = ctx, ctx.F, ctx.G
        self.defs, self.callers, self.guardmemo, self.reach = {}, {}, {}, {}
        for s in self.G.sites:
            self.callers.setdefault(s.p, []).append(s)

    def defs_of(self, body):
        d = self.defs.get(body.p)
        if d is None:
            d = self.defs[body.p] = {}
            for i, bb in enumerate(body.blocks):
                if bb.get("cl"):
                    continue
                for st in bb["s"]:
                    if st[1] is not None:
                        d.setdefault(st[1][0], []).append((i, st[1], ("rv", st[2])))
                t = bb["t"]
                if t[0] == "call" and t[3]:
                    d.setdefault(t[3][0], []).append((i, t[3], ("call", t)))
        return d

    @staticmethod
    def proj(pl):
        return tuple(x[0] if isinstance(x, list) else ("v", x["v"]) if isinstance(x, dict) and "v" in x else "i" for x in pl if x != "*" and not isinstance(x, int))

    def canon(self, body, pl, n=8):
        """(local, fields) of a place, through copies and borrows"""
        l, pr = pl[0], self.proj(pl[1:])
        while n:
            n -= 1
            ds = self.defs_of(body).get(l, ())
            if len(ds) != 1 or len(ds[0][1]) != 1 or ds[0][2][0] != "rv":
                break
            rv = ds[0][2][1]
            if rv[0] == "ref":
                q = rv[2]
            elif rv[0] == "use" and (rv[1].get("c") or rv[1].get("m")):
                q = rv[1].get("c") or rv[1].get("m")
            else:
                break
            l, pr = q[0], self.proj(q[1:]) + pr
        return l, pr

    def const(self, body, k):
        v = k.get("v")
        if isinstance(v, bool):
            return (int(v), int(v))
        if isinstance(v, int):
            return (v, v)
        if isinstance(v, str) and v.lstrip("-").isdigit():
            return (int(v), int(v))
        if isinstance(v, dict):
            for x in v.values():
                if isinstance(x, (int, str)) and str(x).lstrip("-").isdigit():
                    return (int(x), int(x))
        return INT.get(body.tys[k["t"]].peel().s, FULL)

    def val(self, body, o, bb, env=None, d=12):
        pl = o.get("c") or o.get("m")
        if not pl:
            return self.const(body, o["k"])
        return self.place(body, pl[0], self.proj(pl[1:]), place_ty(body, pl), bb, env, d)

    def place(self, body, l, pr, ty, bb, env, d):
        top = INT.get(ty.peel().s, FULL) if ty is not None else FULL
        if d == 0:
            return top
        if env and (l, pr) in env:
            r = env[(l, pr)]
        else:
            r = self.defs_range(body, l, pr, ty, top, bb, env, d)
        r = (max(r[0], top[0]), min(r[1], top[1]))
        if r[0] > r[1]:
            r = top
        return self.refine(body, l, pr, bb, r, env, d)

    def defs_range(self, body, l, pr, ty, top, bb, env, d):
        ds = self.defs_of(body).get(l, ())
        if not ds:
            if 1 <= l <= body.argc:
                return self.param(body, l, pr, top, d)
            return top
        if 1 <= l <= body.argc:
            return top
        out = None
        for i, dst, how in ds:
            dp = self.proj(dst[1:])
            if dp and dp != pr[:len(dp)]:
                if pr == dp[:len(pr)]:
                    return top
                continue
            rest = pr[len(dp):]
            r = self.rv(body, how[1], rest, top, i, env, d) if how[0] == "rv" else self.called(body, how[1], rest, top, i, env, d)
            out = r if out is None else (min(out[0], r[0]), max(out[1], r[1]))
        return out or top

    def rv(self, body, rv, pr, top, bb, env, d):
        k = rv[0]
        if k == "use":
            pl = rv[1].get("c") or rv[1].get("m")
            if not pl:
                return self.const(body, rv[1]["k"]) if not pr else top
            return self.place(body, pl[0], self.proj(pl[1:]) + pr, None, bb, env, d - 1) if pr else self.val(body, rv[1], bb, env, d - 1)
        if k == "ref":
            return self.place(body, rv[2][0], self.proj(rv[2][1:]) + pr, None, bb, env, d - 1) if pr else self.place(body, rv[2][0], self.proj(rv[2][1:]), place_ty(body, rv[2]), bb, env, d - 1)
        if k == "cast":
            r = self.val(body, rv[2], bb, env, d - 1)
            return r if top[0] <= r[0] and r[1] <= top[1] else top
        if k == "agg" and pr:
            fs = [x for x in pr]
            if isinstance(fs[0], tuple):
                fs = fs[1:]
            if fs and isinstance(fs[0], int) and fs[0] < len(rv[2]):
                o = rv[2][fs[0]]
                pl = o.get("c") or o.get("m")
                if pl and fs[1:]:
                    return self.place(body, pl[0], self.proj(pl[1:]) + tuple(fs[1:]), None, bb, env, d - 1)
                return self.val(body, o, bb, env, d - 1)
            return top
        if k == "bin":
            op = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
            if pr and pr != (0,):
                return (0, 1)
            a, b = self.val(body, rv[2], bb, env, d - 1), self.val(body, rv[3], bb, env, d - 1)
            r = self.arith(op, a, b)
            if r is None:
                return top
            if not pr and not (top[0] <= r[0] and r[1] <= top[1]) and not rv[1].endswith("WithOverflow"):
                return top
            return r
        return top

    @staticmethod
    def arith(op, a, b):
        if op == "Add":
            return (a[0] + b[0], a[1] + b[1])
        if op == "Sub":
            return (a[0] - b[1], a[1] - b[0])
        if op == "Mul":
            c = [x * y for x in a for y in b]
            return (min(c), max(c))
        if op == "Div" and b[0] > 0 and a[0] >= 0:
            return (a[0] // b[1], a[1] // b[0])
        if op == "Rem" and b[0] > 0 and a[0] >= 0:
            return (0, min(a[1], b[1] - 1))
        if op == "BitAnd" and a[0] >= 0 and b[0] >= 0:
            return (0, min(a[1], b[1]))
        if op == "Shl" and a[0] >= 0 and 0 <= b[0] and b[1] < 128:
            return (a[0] << b[0], a[1] << b[1])
        if op == "Shr" and a[0] >= 0:
            return (0, a[1])
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            t = {"Lt": a[1] < b[0], "Le": a[1] <= b[0], "Gt": a[0] > b[1], "Ge": a[0] >= b[1], "Eq": a[0] == a[1] == b[0] == b[1], "Ne": a[1] < b[0] or b[1] < a[0]}[op]
            f = {"Lt": a[0] >= b[1], "Le": a[0] > b[1], "Gt": a[1] <= b[0], "Ge": a[1] < b[0], "Eq": a[1] < b[0] or b[1] < a[0], "Ne": a[0] == a[1] == b[0] == b[1]}[op]
            return (1, 1) if t else (0, 0) if f else (0, 1)
        return None

    def called(self, body, t, pr, top, bb, env, d):
        fn = t[1].get("k", {}).get("fn") if "k" in t[1] else None
        if fn is None:
            return top
        p = fn.get("r") or fn["p"]
        l, a = p.rsplit("::", 1)[-1], t[2]
        v = lambda i: self.val(body, a[i], bb, env, d - 1)
        if p in self.F.bodies:
            b = self.F.bodies[p]
            e = {}
            for i, o in enumerate(a):
                pl = o.get("c") or o.get("m")
                if pl:
                    e[(i + 1, ())] = v(i)
            return self.place(b, 0, pr, None, None, e, d - 3 if d > 3 else 0) if not pr else self.place(b, 0, pr, None, None, None, d - 3 if d > 3 else 0)
        if l in ("len", "count"):
            return (0, 2**32 - 1)
        if l in ("deref", "clone", "into", "from", "borrow", "as_ref", "copied", "cloned", "to_owned") and len(a) == 1 and not pr:
            r = v(0)
            return r if top[0] <= r[0] and r[1] <= top[1] else top
        if len(a) == 2 and not pr:
            x, y = v(0), v(1)
            if l == "min":
                return (min(x[0], y[0]), min(x[1], y[1]))
            if l == "max":
                return (max(x[0], y[0]), max(x[1], y[1]))
            if l in ("saturating_add", "saturating_sub", "saturating_mul"):
                r = self.arith({"add": "Add", "sub": "Sub", "mul": "Mul"}[l[11:]], x, y)
                w = INT.get(place_ty(body, a[0].get("c") or a[0].get("m")).peel().s, top) if a[0].get("c") or a[0].get("m") else top
                return (min(max(r[0], w[0]), w[1]), max(min(r[1], w[1]), w[0]))
            if l == "unwrap_or":
                x = self.payload(body, a[0], bb, env, d, top)
                return (min(x[0], y[0]), max(x[1], y[1]))
            if l in ("rem_euclid",):
                return self.arith("Rem", x, y) or top
        if l == "clamp" and len(a) == 3 and not pr:
            return (v(1)[0], v(2)[1])
        if l == "get" and "NonZero" in p:
            return (1, top[1])
        if l in ("unwrap", "expect", "unwrap_or_default") and not pr:
            x = self.payload(body, a[0], bb, env, d, top)
            return (min(x[0], 0), x[1]) if l == "unwrap_or_default" else x
        if l in ("from_secs", "from_millis", "from_micros", "from_nanos", "from_mins", "from_hours", "from_days", "from_weeks") and "Duration" in p and not pr:
            x = v(0)
            n = {"from_secs": 1, "from_mins": 60, "from_hours": 3600, "from_days": 86400, "from_weeks": 604800}.get(l)
            return (x[0] * n, x[1] * n) if n else (0, x[1] // 1000 + 1)
        if p.endswith("Duration::new") and not pr:
            return v(0)
        return top

    def payload(self, body, o, bb, env, d, top):
        """of an Option or Result"""
        pl = o.get("c") or o.get("m")
        if not pl or d <= 0:
            return top
        out = None
        for i, dst, how in self.defs_of(body).get(pl[0], ()):
            r = top
            if how[0] == "rv" and how[1][0] == "agg" and how[1][2]:
                r = self.val(body, how[1][2][0], i, env, d - 1)
            elif how[0] == "rv" and how[1][0] == "agg":
                continue
            elif how[0] == "rv" and how[1][0] == "use":
                r = self.payload(body, how[1][1], i, env, d - 1, top)
            elif how[0] == "call":
                fn = how[1][1].get("k", {}).get("fn") if "k" in how[1][1] else None
                p = (fn.get("r") or fn["p"]) if fn else ""
                if ends(p, ("::checked_add", "::checked_sub", "::checked_mul")) and len(how[1][2]) == 2:
                    a = self.arith({"d": "Add", "b": "Sub", "l": "Mul"}[p[-1]], self.val(body, how[1][2][0], i, env, d - 1), self.val(body, how[1][2][1], i, env, d - 1))
                    r = (max(a[0], top[0]), min(a[1], top[1]))
                elif ends(p, ("::new",)) and "NonZero" in p:
                    r = (1, top[1])
            out = r if out is None else (min(out[0], r[0]), max(out[1], r[1]))
        return out or top

    def param(self, body, l, pr, top, d):
        sites = self.callers.get(body.p, ())
        if not sites or d < 4 or body.kind == "closure":
            return top
        out = None
        for s in sites:
            o = s.t[2][l - 1] if l - 1 < len(s.t[2]) else None
            if o is None:
                return top
            pl = o.get("c") or o.get("m")
            if pl:
                r = self.place(s.body, pl[0], self.proj(pl[1:]) + pr, place_ty(s.body, pl) if not pr else None, s.bb, None, d - 3)
            else:
                r = self.const(s.body, o["k"]) if not pr else top
            r = (max(r[0], top[0]), min(r[1], top[1]))
            out = r if out is None else (min(out[0], r[0]), max(out[1], r[1]))
        return out or top

    # ------------------------------------------------------------ branches taken
    def ways(self, body, sw):
        """successor of a switch -> blocks reachable through it without coming back to the switch"""
        k = (body.p, sw)
        if k not in self.reach:
            out = []
            t = body.blocks[sw]["t"]
            for val, w in [(int(v), w) for v, w in t[3]] + [(None, t[4])]:
                seen, todo = set(), [w]
                while todo:
                    x = todo.pop()
                    if x in seen or x == sw:
                        continue
                    seen.add(x)
                    todo.extend(term_succs(body.blocks[x]["t"]))
                out.append((val, seen))
            self.reach[k] = out
        return self.reach[k]

    def guards(self, body, bb):
        """(switch operand, its possible values or None, values excluded) for the branches that were taken on every way to bb"""
        k = (body.p, bb)
        if k in self.guardmemo:
            return self.guardmemo[k]
        out = []
        self.guardmemo[k] = out
        if bb is None:
            return out
        # dominators of bb: what cannot be avoided
        for sw, blk in enumerate(body.blocks):
            if blk.get("cl") or blk["t"][0] != "switch" or sw == bb:
                continue
            seen, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x in seen or x == sw:
                    continue
                seen.add(x)
                todo.extend(term_succs(body.blocks[x]["t"]))
            if bb in seen:
                continue
            ws = self.ways(body, sw)
            taken = [v for v, s in ws if bb in s]
            if len(taken) == len(ws):
                continue
            vals = [v for v, s in ws if v is not None]
            out.append((sw, [v for v in taken if v is not None] if None not in taken else None, [v for v in vals if v not in taken]))
        return out

    def refine(self, body, l, pr, bb, r, env, d):
        me = self.canon(body, [l]) if not pr else None
        me = (me[0], me[1]) if me else (lambda c: (c[0], c[1] + pr))(self.canon(body, [l]))
        for sw, vals, excl in self.guards(body, bb):
            o = body.blocks[sw]["t"][1]
            pl = o.get("c") or o.get("m")
            if not pl:
                continue
            c = self.canon(body, pl)
            if c == me:
                if vals:
                    r = (max(r[0], min(vals)), min(r[1], max(vals)))
                else:
                    while r[0] in excl and r[0] < r[1]:
                        r = (r[0] + 1, r[1])
                    while r[1] in excl and r[0] < r[1]:
                        r = (r[0], r[1] - 1)
                continue
            truth = 1 if vals == [1] or vals is None and excl == [0] else 0 if vals == [0] else None
            if truth is None:
                continue
            r = self.assume(body, c, truth, me, r, env, d, 4)
        return r

    def assume(self, body, c, truth, me, r, env, d, n):
        ds = self.defs_of(body).get(c[0], ())
        if n == 0 or len(ds) != 1 or c[1]:
            return r
        i, dst, how = ds[0]
        if how[0] != "rv":
            return r
        rv = how[1]
        if rv[0] == "un" and rv[1] == "Not":
            pl = rv[2].get("c") or rv[2].get("m")
            return self.assume(body, self.canon(body, pl), 1 - truth, me, r, env, d, n - 1) if pl else r
        if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            for x, y, fl in ((rv[2], rv[3], False), (rv[3], rv[2], True)):
                pl = x.get("c") or x.get("m")
                if not pl or self.canon(body, pl) != me:
                    continue
                b = self.val(body, y, i, env, d - 4 if d > 4 else 0)
                op = rv[1]
                if fl:
                    op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                if not truth:
                    op = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le", "Eq": "Ne", "Ne": "Eq"}[op]
                if op == "Lt":
                    r = (r[0], min(r[1], b[1] - 1))
                elif op == "Le":
                    r = (r[0], min(r[1], b[1]))
                elif op == "Gt":
                    r = (max(r[0], b[0] + 1), r[1])
                elif op == "Ge":
                    r = (max(r[0], b[0]), r[1])
                elif op == "Eq":
                    r = (max(r[0], b[0]), min(r[1], b[1]))
                elif b[0] == b[1] == r[0] and r[0] < r[1]:
                    r = (r[0] + 1, r[1])
                elif b[0] == b[1] == r[1] and r[0] < r[1]:
                    r = (r[0], r[1] - 1)
        return r


class Sinks:
    def __init__(self, ctx, T):
        self.ctx, self.T, self.F, self.G = ctx, T, ctx.F, ctx.G
        self.R = Ranges(ctx)
        self.threads = []
        self.seen = {}

    def t(self, body, o):
        return self.T.is_t(self.T.opnode(body, o)[0])

    def v(self, body, o):
        return self.T.is_v(self.T.opnode(body, o)[0])

    def why(self, body, *os):
        for k, o in [(k, o) for o in os for k in "TV"]:
            n = self.T.opnode(body, o)[0]
            if n and (k,) + n in self.T.tainted:
                return self.T.trace((k,) + n)
        return []

    def verdict(self, ok, cat, body, span, msg, trace):
        where = "%s:%s in %s" % (body.file, span[0], body.p)
        inst = "%s|%s" % (self.G.owner(body.p), msg)
        self.seen[cat] = self.seen.get(cat, 0) + 1
        if ok:
            self.ctx.ok(cat, inst)
        else:
            self.ctx.bad(cat, inst, "a request's value can make the daemon panic: " + msg, where, trace[-14:])

    # ------------------------------------------------------------ identity of collections and results
    def ids(self, body, o, fresh=0, n=10):
        """places a value is, or (fresh calls deep) was derived from"""
        out = set()
        pl = o.get("c") or o.get("m")
        todo = [(pl, fresh)] if pl else []
        while todo and n:
            n -= 1
            pl, f = todo.pop()
            c = self.R.canon(body, pl)
            out.add(c)
            # through the payload of a wrapper
            ds = self.R.defs_of(body).get(c[0], ())
            for i, dst, how in ds if len(ds) == 1 and len(ds[0][1]) == 1 else ():
                if how[0] == "call" and how[1][2]:
                    fn = how[1][1].get("k", {}).get("fn") if "k" in how[1][1] else None
                    p = (fn.get("r") or fn["p"]) if fn else ""
                    q = how[1][2][0].get("c") or how[1][2][0].get("m")
                    l = p.rsplit("::", 1)[-1]
                    if q and l in SAME_SEQ:
                        todo.append((q, f))
                    elif q and f and l in FRESH:
                        todo.append((q, f - 1))
        return out

    def tested(self, body, bb, ids):
        """was one of these places tested (length, emptiness, variant, membership) on the way to bb?"""
        R = self.R
        for sw, vals, excl in R.guards(body, bb):
            todo, n = [(body.blocks[sw]["t"][1], 0)], 12
            while todo and n:
                n -= 1
                o, dep = todo.pop()
                pl = o.get("c") or o.get("m")
                if not pl:
                    continue
                c = R.canon(body, pl)
                ds = R.defs_of(body).get(c[0], ())
                for i, dst, how in ds:
                    if how[0] == "rv":
                        rv = how[1]
                        if rv[0] == "discr":
                            if self.ids(body, {"c": rv[1]}, 2) & ids:
                                return True
                            if dep < 2:
                                todo.append(({"c": rv[1]}, dep + 1))
                        elif rv[0] == "bin":
                            todo += [(rv[2], dep), (rv[3], dep)]
                        elif rv[0] == "un":
                            if rv[1] == "PtrMetadata" and self.ids(body, rv[2]) & ids:
                                return True
                            todo.append((rv[2], dep))
                        elif rv[0] in ("use", "cast"):
                            todo.append((rv[1] if rv[0] == "use" else rv[2], dep))
                    else:
                        a = how[1][2]
                        if a and any(self.ids(body, x, 2) & ids for x in a[:1]):
                            return True
        return False

    def assigned(self, body, bb, pl):
        """was Some(..)/Ok(..) stored in this very place on the way?"""
        c = self.R.canon(body, pl)
        ds = self.R.defs_of(body)
        mine = [(i, how) for i, dst, how in ds.get(c[0], ()) if self.R.proj(dst[1:]) == c[1]]
        good = [i for i, how in mine if how[0] == "rv" and how[1][0] == "agg" and how[1][2] and how[1][1][0] == "adt" and not (how[1][1][1] == RES and how[1][1][2] == 1)]
        bad = {i for i, how in mine} - set(good)
        for i in good:
            # i dominates bb, and nothing else is stored in between
            seen, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x in seen or x == i:
                    continue
                seen.add(x)
                todo.extend(term_succs(body.blocks[x]["t"]))
            if bb not in seen and not bad & self.between(body, i, bb):
                return True
        return False

    def between(self, body, a, b):
        seen, todo = set(), list(term_succs(body.blocks[a]["t"]))
        while todo:
            x = todo.pop()
            if x in seen or x == a:
                continue
            seen.add(x)
            if x != b:
                todo.extend(term_succs(body.blocks[x]["t"]))
        return seen

    # ------------------------------------------------------------ the operations
    def run(self):
        for p in sorted(self.T.scope):
            b = self.F.bodies[p]
            for i, bb in enumerate(b.blocks):
                if not bb.get("cl") and bb["t"][0] == "assert":
                    self.check(b, i, bb)
        for s in self.G.sites:
            if s.body.p in self.T.scope and not s.body.blocks[s.bb].get("cl") and not self.T.targets(s):
                self.site(s)

    def check(self, b, i, bb):
        t = bb["t"]
        m = t[3]
        self.ctx.counts["overflow and bounds checks"] = self.ctx.counts.get("overflow and bounds checks", 0) + (m[0] != "other")
        if m[0] == "other" or not self.t(b, t[1]):
            return
        R = self.R
        if m[0] == "overflow":
            x, y = R.val(b, m[2], i), R.val(b, m[3], i)
            pl = m[2].get("c") or m[2].get("m") or m[3].get("c") or m[3].get("m")
            ty = INT.get(place_ty(b, pl).peel().s, FULL) if pl else FULL
            if m[1] in ("Shl", "Shr"):
                ok = 0 <= y[0] and y[1] < ty[1].bit_length()
            else:
                r = R.arith(m[1], x, y)
                ok = r is not None and ty[0] <= r[0] and r[1] <= ty[1]
            ok = ok or m[1] == "Sub" and self.compared(b, i, m[2], m[3])
            self.verdict(ok, "overflow", b, bb["l"], "%s overflows" % m[1], self.why(b, m[2], m[3]))
        elif m[0] == "bounds":
            x, y = R.val(b, m[2], i), R.val(b, m[1], i)
            ok = x[1] < y[0] or self.tested(b, i, self.ids(b, m[2]) | self.lenids(b, m[1]))
            self.verdict(ok, "bounds", b, bb["l"], "an index is out of bounds", self.why(b, m[1], m[2]))
        elif m[0] == "divzero":
            c = R.canon(b, t[1].get("c") or t[1].get("m"))
            ok = False
            for _, dst, how in R.defs_of(b).get(c[0], ()):
                if how[0] == "rv" and how[1][0] == "bin":
                    x = R.val(b, how[1][2], i)
                    ok = x[0] > 0 or x[1] < 0
            self.verdict(ok, "division", b, bb["l"], "a divisor is zero", self.why(b, t[1]))
        else:
            self.verdict(False, "overflow", b, bb["l"], "negation overflows", self.why(b, t[1]))

    def lenids(self, b, o):
        out = set()
        pl = o.get("c") or o.get("m")
        for _, dst, how in self.R.defs_of(b).get(pl[0], ()) if pl else ():
            if how[0] == "rv" and how[1][0] == "un":
                out |= self.ids(b, how[1][2])
            elif how[0] == "call" and how[1][2]:
                out |= self.ids(b, how[1][2][0])
        return out

    def compared(self, b, bb, x, y):
        """a - b where a branch compared the two"""
        R = self.R
        px, py = x.get("c") or x.get("m"), y.get("c") or y.get("m")
        if not px or not py:
            return False
        cx, cy = R.canon(b, px), R.canon(b, py)
        for sw, vals, excl in R.guards(b, bb):
            pl = b.blocks[sw]["t"][1].get("c") or b.blocks[sw]["t"][1].get("m")
            for _, dst, how in R.defs_of(b).get(R.canon(b, pl)[0], ()) if pl else ():
                if how[0] == "rv" and how[1][0] == "bin":
                    cs = {R.canon(b, o.get("c") or o.get("m")) for o in how[1][2:4] if o.get("c") or o.get("m")}
                    if cs == {cx, cy}:
                        return True
        return False

    def site(self, s):
        b, p, a = s.body, s.p, s.t[2]
        self.ctx.counts["library calls"] = self.ctx.counts.get("library calls", 0) + 1
        l = p.rsplit("::", 1)[-1]
        R = self.R
        if s.t[4] is None and (p.startswith(PANICS) or "panic" in p):
            self.panic(s)
        elif ends(p, UNWRAPS) and s.argty(0).peel().d in WRAP:
            self.ctx.counts["unwraps"] = self.ctx.counts.get("unwraps", 0) + 1
            if self.v(b, a[0]):
                pl = a[0].get("c") or a[0].get("m")
                ok = self.assigned(b, s.bb, pl) or self.tested(b, s.bb, self.ids(b, a[0], 3)) or self.timely(b, pl)
                # as_ref().unwrap() and the like
                ok = ok or any(self.assigned(b, s.bb, [c[0]]) for c in self.ids(b, a[0], 2) if not c[1])
                self.verdict(ok, "unwrap", b, s.span, "%s of a result that depends on it" % l, self.why(b, a[0]))
        elif p.startswith(SEQS) and l in ("index", "index_mut") or ends(p, INDEXED) and p.startswith(SEQS) or l in ("remove", "insert", "swap_remove", "split_off", "drain", "split_at") and p.startswith(("std::vec::Vec", "std::string::String", "std::collections::VecDeque", "core::slice::", "core::str::")):
            if len(a) < 2 or "RangeFull" in s.argty(1).s:
                return
            if self.v(b, a[0]) or self.t(b, a[1]):
                ids = self.ids(b, a[0]) | (self.ids(b, a[1]) if self.t(b, a[1]) else set()) | self.rangeids(b, a[1])
                ok = self.tested(b, s.bb, ids)
                self.verdict(ok, "index", b, s.span, "%s beyond the end" % l, self.why(b, a[0], a[1]))
        elif s.trait in ("std::ops::Add", "std::ops::Sub", "std::ops::Mul", "std::ops::AddAssign", "std::ops::SubAssign", "std::ops::MulAssign", "std::ops::Div") or l in ("add", "sub", "mul", "add_assign", "sub_assign", "mul_assign", "mul_f64", "mul_f32", "div") and "time::" in p:
            if any("time::" in (s.argty(i).peel().d or "") for i in range(len(a))):
                if any(self.t(b, x) for x in a):
                    r = R.val(b, a[1], s.bb)
                    ok = l in ("add", "add_assign") and "Duration" in s.argty(1).s and 0 <= r[0] and r[1] <= BIG
                    self.verdict(ok, "time", b, s.span, "arithmetic on times leaves their range", self.why(b, *a))
        elif p.startswith("std::time::Duration::") and l in ("from_secs_f64", "from_secs_f32", "new", "from_mins", "from_hours", "from_days", "from_weeks"):
            if any(self.t(b, x) for x in a):
                r = R.val(b, a[0], s.bb)
                self.verdict(l == "new" and r[1] <= BIG or l.startswith("from_") and "f" not in l[5:] and r[1] <= 2**44, "time", b, s.span, "a duration out of range", self.why(b, *a))
        elif p in ("std::env::set_var", "std::env::remove_var") or p.startswith("std::env::set_var"):
            if any(self.t(b, x) for x in a):
                self.verdict(False, "environment", b, s.span, "an environment variable that cannot be set", self.why(b, *a))
        elif p == "std::thread::Builder::name":
            if any(self.t(b, x) for x in a):
                self.threads.append(s)
        elif p == "shpool_vt100::Parser::new" or p.endswith("shpool_vt100::Screen::set_size"):
            k = 0 if p.endswith("new") else 1
            for i in (k, k + 1):
                if self.t(b, a[i]):
                    self.verdict(R.val(b, a[i], s.bb)[0] >= 1, "empty screen", b, s.span, "a terminal without %s is modelled" % ("rows" if i == k else "columns"), self.why(b, a[i]))
        elif p.startswith("shpool_vterm::") and any((s.argty(i).peel().d or "").endswith("::Size") for i in range(len(a))):
            i = next(i for i in range(len(a)) if (s.argty(i).peel().d or "").endswith("::Size"))
            if self.t(b, a[i]):
                pl = a[i].get("c") or a[i].get("m")
                for f, n in ((0, "first"), (1, "second")):
                    r = R.place(b, pl[0], R.proj(pl[1:]) + (f,), None, s.bb, None, 12)
                    self.verdict(r[0] >= 1, "empty screen", b, s.span, "a terminal of no size (%s dimension) is modelled" % n, self.why(b, a[i]))
        elif l in ("chunks", "chunks_exact", "windows", "step_by", "rchunks", "chunks_mut", "ilog2", "ilog10", "isqrt", "div_ceil", "next_multiple_of", "rem_euclid", "div_euclid") and len(a) == 2:
            if self.t(b, a[1]):
                self.verdict(R.val(b, a[1], s.bb)[0] >= 1, "division", b, s.span, "%s by zero" % l, self.why(b, a[1]))
        elif l in ("pow", "abs", "next_power_of_two") and "num::" in p:
            if any(self.t(b, x) for x in a):
                self.verdict(False, "overflow", b, s.span, "%s overflows" % l, self.why(b, *a))
        elif l in ("with_capacity", "reserve", "reserve_exact", "repeat", "from_elem") and len(a) >= 1:
            o = a[-1]
            if self.t(b, o) and INT.get(s.argty(len(a) - 1).peel().s):
                self.verdict(R.val(b, o, s.bb)[1] <= 2**32, "capacity", b, s.span, "%s of any size" % l, self.why(b, o))
        elif l == "clamp" and len(a) == 3:
            if self.t(b, a[1]) or self.t(b, a[2]):
                self.verdict(R.val(b, a[1], s.bb)[1] <= R.val(b, a[2], s.bb)[0], "range", b, s.span, "clamp with its bounds the wrong way round", self.why(b, a[1], a[2]))

    def timely(self, b, pl):
        """Instant::checked_add of a small duration"""
        for i, dst, how in self.R.defs_of(b).get(self.R.canon(b, pl)[0], ()) if pl else ():
            if how[0] == "call":
                fn = how[1][1].get("k", {}).get("fn") if "k" in how[1][1] else None
                p = (fn.get("r") or fn["p"]) if fn else ""
                if p.startswith("std::time::") and p.endswith("::checked_add"):
                    r = self.R.val(b, how[1][2][1], i)
                    if 0 <= r[0] and r[1] <= BIG:
                        return True
                if ends(p, ("::checked_add", "::checked_sub", "::checked_mul")) and "num::" in p:
                    x, y = (self.R.val(b, o, i) for o in how[1][2][:2])
                    r = self.R.arith({"d": "Add", "b": "Sub", "l": "Mul"}[p[-1]], x, y)
                    o = how[1][2][0].get("c") or how[1][2][0].get("m")
                    ty = INT.get(place_ty(b, o).peel().s, FULL) if o else FULL
                    if ty[0] <= r[0] and r[1] <= ty[1]:
                        return True
        return False

    def rangeids(self, b, o):
        out = set()
        pl = o.get("c") or o.get("m")
        for _, dst, how in self.R.defs_of(b).get(pl[0], ()) if pl else ():
            if how[0] == "rv" and how[1][0] == "agg":
                for x in how[1][2]:
                    if self.t(b, x):
                        out |= self.ids(b, x)
        return out

    def panic(self, s):
        b = s.body
        self.ctx.counts["explicit panics"] = self.ctx.counts.get("explicit panics", 0) + 1
        for sw in self.T.cd(b).get(s.bb, ()):
            n = self.T.switchnode(b, sw)
            if not self.T.is_t(n):
                continue
            t = b.blocks[sw]["t"]
            r = self.R.val(b, t[1], sw)
            taken = [v for v, blocks in self.R.ways(b, sw) if s.bb in blocks]
            vals = [int(v) for v, _ in t[3]]
            ok = r[0] == r[1] and not (r[0] in taken or None in taken and r[0] not in vals)
            ok = ok or self.correlated(b, s.bb, t[1])
            self.verdict(ok, "panic", b, s.span, "a condition that panics when not met", self.why(b, t[1]))

    def correlated(self, b, bb, o):
        """the value is a field of something whose tag, tested on the way, rules the request's values out"""
        R = self.R
        fields = self.fieldsof(b, o)
        todo, seen = [bb], set()
        while todo:
            at = todo.pop()
            if at in seen:
                continue
            seen.add(at)
            for sw, vals, excl in R.guards(b, at):
                c = R.canon(b, b.blocks[sw]["t"][1].get("c") or b.blocks[sw]["t"][1].get("m"))
                tag, flags = None, []
                for i, dst, how in R.defs_of(b).get(c[0], ()):
                    if how[0] == "rv" and how[1][0] == "discr":
                        tag = self.T.node(b, how[1][1])[0]
                    flags.append((i, R.val(b, how[1][1], i)) if how[0] == "rv" and how[1][0] == "use" and len(dst) == 1 else None)
                # a flag set to one of two constants: what held where it got the value seen here held too
                if flags and None not in flags and all(r[0] == r[1] for _, r in flags):
                    took = [i for i, r in flags if (r[0] in vals if vals is not None else r[0] not in excl)]
                    todo += took if len(took) == 1 else []
                if tag is None or tag[0] != "F":
                    continue
                for f in fields:
                    if f[0] == "F" and f[1] == tag[1] and f != tag and self.excluded(f, tag, vals, excl):
                        return True
        return False

    def fieldsof(self, b, o):
        out, seen, todo = set(), set(), [o]
        while todo:
            o = todo.pop()
            pl = o.get("c") or o.get("m")
            if not pl:
                continue
            n = self.T.node(b, pl)[0]
            if n[0] == "F":
                out.add(n)
                continue
            if pl[0] in seen:
                continue
            seen.add(pl[0])
            for _, dst, how in self.R.defs_of(b).get(pl[0], ()):
                if how[0] == "rv":
                    if how[1][0] == "ref":
                        todo.append({"c": how[1][2]})
                    todo += self.T.ops(b, how[1])
                else:
                    todo += how[1][2][:1]
        return out

    def excluded(self, f, tag, vals, excl):
        a = self.F.adts[f[1]]
        names = [x[0] for x in a["v"][0]["f"]]
        fi, ti = names.index(f[2]), names.index(tag[2])
        for p in self.T.scope:
            b = self.F.bodies[p]
            for i, bb in enumerate(b.blocks):
                for st in bb["s"]:
                    if st[1] is None or st[2][0] != "agg" or st[2][1][0] != "adt" or st[2][1][1] != f[1]:
                        continue
                    x, y = st[2][2][fi], st[2][2][ti]
                    if not self.t(b, x) and not self.v(b, x):
                        continue
                    k = self.tagval(b, y)
                    if k is None or (k in vals if vals is not None else k not in excl):
                        return False
        return True

    def tagval(self, b, o):
        from .part import sources
        got = set()
        for x in sources(b, o):
            if x[0] == "const" and "#" in x[1]:
                got.add(x[1])
            else:
                return None
        if len(got) != 1:
            return None
        adt, v = next(iter(got)).rsplit("#", 1)
        try:
            return int(self.F.adts[adt]["v"][int(v)]["d"])
        except (KeyError, ValueError, IndexError):
            return None


class Named(c02.R):
    """no thread is given a name with a NUL in it: nothing happens for a request whose name may have one"""
    need = {("ne", 0)}


def run(ctx):
    ctx.rule("no request value reaches an operation that panics for it")
    F, G = ctx.F, ctx.G
    scope = G.reach({p for p in F.bodies if p == "libshpool::daemon::run"})
    T = Taint(ctx, scope)
    wire = set()

    def add(t):
        if t.d and t.d in F.adts and F.adts[t.d].get("local") and t.d not in wire:
            wire.add(t.d)
            for v in F.adts[t.d]["v"]:
                for f in v["f"]:
                    if f[1] >= 0:
                        add(F.adts[t.d]["tab"][f[1]])
        for x in t.args:
            add(x)

    wire.add(CONN)
    for v in F.adts[CONN]["v"]:
        for f in v["f"]:
            add(F.adts[CONN]["tab"][f[1]])
    src = [("F", d, f[0]) for d in sorted(wire) for v in F.adts[d]["v"] for f in v["f"] if f[1] >= 0 and T.can(F.adts[d]["tab"][f[1]])]
    T.run(src)
    S = Sinks(ctx, T)
    S.run()
    ctx.floor("request fields", len(src), 1)
    ctx.floor("values that depend on a request", len(T.tainted), 50)
    for k in ("overflow and bounds checks", "library calls", "unwraps", "explicit panics"):
        ctx.floor(k, ctx.counts.get(k, 0), 1)
    for k in ("unwrap", "index", "empty screen"):
        ctx.counts["reached: " + k] = S.seen.get(k, 0)
    # names of threads
    for s in S.threads:
        ctx.ok("thread-name", "%s|%s" % (G.owner(s.body.p), "name"))
    if S.threads:
        r = Named(ctx, "daemon")
        ctx.engine(r)
        ctx.floor("effects behind the test for NUL", len(r.guarded), 1)
