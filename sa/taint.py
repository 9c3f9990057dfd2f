"""Where values of a request go: a flow-insensitive, field-based taint analysis over MIR.

Nodes are locals, fields of the workspace's own types (by type and field, whichever value they belong to), closure captures and channel payloads; every node has a
content (T) and, for enums such as Option and Result, a variant (V).  Values of the workspace's own types never are tainted as a whole, only their fields."""
import re
from .lib import place_ty, Site

WRAP = ("std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::task::Poll")
PLAIN = ("anyhow::Error", "std::io::Error", "std::fmt::Error", "std::fmt::Formatter", "tracing", "std::fs::File", "std::os::unix::net::", "std::sync::mpsc::", "crossbeam_channel::", "std::thread::", "std::time::SystemTimeError",
         "std::process::Child", "shpool_pty::", "std::sync::atomic::", "tempfile::", "nix::errno", "std::any::")
# the variant of what these return has nothing to do with the values they are given
STEADY = ("::lock", "::read", "::write", "::recv", "::recv_timeout", "::try_recv", "::send", "::send_timeout", "::try_send", "::join", "::wait", "::wait_timeout", "::wait_timeout_while", "::wait_while",
          "::try_lock", "::into_inner", "::get_or_init", "::downcast", "::downcast_ref", "::write_all", "::flush", "::write_fmt", "::shutdown", "::accept", "::try_clone")
# the variant of what these return only depends on the variant of what they are given
ADAPT = ("::map_err", "::context", "::with_context", "::ok", "::err", "::as_ref", "::as_mut", "::as_deref", "::as_deref_mut", "::ok_or", "::ok_or_else", "::cloned", "::copied", "::map", "::branch", "::from_residual",
         "::from_output", "::inspect", "::inspect_err", "::take", "::clone", "::is_some", "::is_none", "::is_ok", "::is_err", "::into", "::from", "::downgrade", "::or")
TESTS = ("::is_some", "::is_none", "::is_ok", "::is_err")
LENS = ("::len", "::is_empty", "::capacity", "::count")
# the size of what these return is that of what they are given
KEEP = ("::deref", "::deref_mut", "::as_str", "::as_slice", "::as_ref", "::as_mut", "::clone", "::to_vec", "::to_owned", "::to_string", "::as_bytes", "::iter", "::iter_mut", "::into_iter", "::borrow", "::into_bytes", "::from", "::into",
        "::into_boxed_slice", "::as_path", "::as_os_str", "::index", "::index_mut", "::lock", "::read", "::write", "::drain", "::map", "::enumerate", "::rev", "::collect", "::chunks")
GROW = ("::extend", "::append", "::push_str", "::insert_str", "::extend_from_slice", "::write_str", "::write_fmt", "::resize")
KEYED = ("HashMap", "HashSet", "BTreeMap", "BTreeSet")
IO = ("std::io::Write::", "std::io::Read::", "byteorder::", "<shpool_pty::", "<std::os::unix::net::")
INNER = ("Mutex", "RwLock", "RefCell", "Cell", "OnceLock", "OnceCell", "Atomic", "ArcSwap")
GUARDS = ("Guard", "Entry", "IterMut", "RefMut", "Drain")
CHAN_OUT = ("::send", "::send_timeout", "::try_send", "::send_deadline")
CHAN_IN = ("::recv", "::recv_timeout", "::try_recv", "::recv_deadline", "::iter", "::try_iter", "::next", "::into_iter")
CALLS = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")


def ends(p, names):
    return p.endswith(names)


def texty(t):
    t = t.peel()
    return t.k in ("str", "int", "uint", "char") or t.d in ("std::string::String", "std::borrow::Cow", "std::path::PathBuf", "std::path::Path", "std::ffi::OsString", "std::ffi::OsStr") or t.s == "str" or (t.d or "").startswith("std::ops::Range")


class Taint:
    def __init__(self, ctx, scope):
        self.ctx, self.F, self.G = ctx, ctx.F, ctx.G
        self.scope = {p for p in scope if p in ctx.F.bodies}
        self.local = {k for k, a in ctx.F.adts.items() if a.get("local")}
        self.memo = {}
        self.edges = {}
        self.tainted = {}
        self.cds = {}
        self.bysite = {}
        for s in self.G.sites:
            if s.body.p in self.scope:
                self.bysite.setdefault(s.body.p, []).append(s)
        for p in sorted(self.scope):
            self.build(self.F.bodies[p])

    # ------------------------------------------------------------ types
    def can(self, t):
        """can a value of this type carry text or numbers of a request?"""
        k = id(t)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = False
        if t.k in ("int", "uint", "bool", "char", "float", "str", "param", "alias"):
            r = True
        elif t.k in ("ref", "refmut", "ptr", "array", "slice", "tuple"):
            r = any(self.can(x) for x in t.args)
        elif t.k == "adt":
            d = t.d or ""
            if d in WRAP:
                r = True
            elif d in self.local or d.startswith(PLAIN):
                r = False
            elif t.args:
                r = any(self.can(x) for x in t.args)
            else:
                r = True
        self.memo[k] = r
        return r

    def node(self, body, pl):
        """the node a place reads from (and is written to)"""
        t, n = body.lty(pl[0]), ("L", body.p, pl[0])
        for x in pl[1:]:
            if x == "*":
                t = t.args[0] if t.args and (t.k in ("ref", "refmut", "ptr") or t.d == "std::boxed::Box") else t
            elif isinstance(x, list):
                if t.k == "closure":
                    n = ("U", t.d, x[0])
                elif t.k == "adt" and t.d in self.local:
                    n = ("F", t.d, x[1])
                t = body.tys[x[2]] if x[2] >= 0 else t
            elif "i" in x or "c" in x:
                t = t.args[0] if t.args else t
        return n, t

    def edge(self, a, b, how):
        self.edges.setdefault(a, []).append((b, how))

    def fixed(self, n):
        """no variant and no length to speak of"""
        if n[0] == "L":
            t = self.F.bodies[n[1]].lty(n[2]).peel()
            return t.k in ("int", "uint", "bool", "char", "float", "array")
        return False

    def flow(self, a, b, how, ta=None, tb=None):
        """contents and variants move"""
        if tb is None or self.can(tb):
            self.edge(("T",) + a, ("T",) + b, how)
            self.edge(("V",) + a, ("V",) + b, how)

    # ------------------------------------------------------------ constraints
    def build(self, body):
        for i, bb in enumerate(body.blocks):
            if bb.get("cl"):
                continue
            for st in bb["s"]:
                if st[1] is not None:
                    self.stmt(body, i, st)
        for s in self.bysite.get(body.p, ()):
            if not body.blocks[s.bb].get("cl"):
                self.call(s)

    def ops(self, body, rv):
        k = rv[0]
        if k in ("use", "repeat"):
            return [rv[1]]
        if k in ("cast", "un"):
            return [rv[2]]
        if k == "bin":
            return [rv[2], rv[3]]
        if k == "agg":
            return rv[2]
        if k in ("ref", "discr"):
            return []
        return []

    def opnode(self, body, o):
        pl = o.get("c") or o.get("m")
        return self.node(body, pl) if pl else (None, None)

    def stmt(self, body, bb, st):
        how = (body.p, st[0])
        d, dt = self.node(body, st[1])
        rv = st[2]
        k = rv[0]
        if k == "ref":
            n, t = self.node(body, rv[2])
            self.flow(n, d, how, t, t)
            if rv[1] or any(x in t.s for x in INNER) or "*" in rv[2][1:]:
                self.flow(d, n, how, t, t)
            return
        if k == "discr":
            n, t = self.node(body, rv[1])
            self.edge(("V",) + n, ("T",) + d, how)
            return
        if k == "agg":
            kind = rv[1]
            if kind[0] == "closure":
                for i, o in enumerate(rv[2]):
                    n, t = self.opnode(body, o)
                    if n:
                        self.flow(n, ("U", kind[1], i), how, t, t)
                        if t.k == "refmut" or t.k == "ref" and any(x in t.s for x in INNER):
                            self.flow(("U", kind[1], i), n, how, t, t)
                return
            if kind[0] == "adt" and kind[1] in self.local:
                v = self.F.adts[kind[1]]["v"][kind[2] or 0]["f"]
                for i, o in enumerate(rv[2]):
                    n, t = self.opnode(body, o)
                    if n and i < len(v):
                        self.flow(n, ("F", kind[1], v[i][0]), how, t, t)
                return
            for o in rv[2]:
                n, t = self.opnode(body, o)
                if n and self.can(dt):
                    self.edge(("T",) + n, ("T",) + d, how)
            return
        for o in self.ops(body, rv):
            n, t = self.opnode(body, o)
            if n and k == "un" and rv[1] == "PtrMetadata":
                self.edge(("V",) + n, ("T",) + d, how)
            elif n:
                self.flow(n, d, how, t, dt)
                if k == "use" and t.k == "refmut":
                    self.flow(d, n, how, dt, t)

    def targets(self, s):
        if s.p in self.F.bodies:
            return [s.p]
        if s.trait and (s.fn.get("r") is None or str(s.fn.get("r")).startswith("dyn:")):
            return [m for m in self.G.implby.get(s.fn["p"], ()) if m in self.F.bodies]
        return []

    def closures(self, s):
        out = []
        for i, o in enumerate(s.t[2]):
            t = s.argty(i).peel()
            if t.k == "closure" and t.d in self.F.bodies:
                out.append((i, self.F.bodies[t.d]))
        return out

    def call(self, s):
        body, how = s.body, (s.body.p, s.span)
        d, dt = self.node(body, s.t[3]) if s.t[3] else (None, None)
        tg = self.targets(s)
        args = [self.opnode(body, o) for o in s.t[2]]
        clos = self.closures(s)
        for p in tg:
            b = self.F.bodies[p]
            for i, (n, t) in enumerate(args):
                if n is None or i >= b.argc:
                    continue
                l = ("L", p, i + 1)
                self.flow(n, l, how, t, t)
                if t.k == "refmut" or t.k == "ref" and any(x in t.s for x in INNER):
                    self.flow(l, n, how, t, t)
            if d:
                self.flow(("L", p, 0), d, how, None, dt)
            for i, c in clos:
                # whatever the callee hands to its closure argument
                for u in self.bysite.get(p, ()) or [x for x in self.G.sites if x.body.p == p]:
                    if u.q in CALLS:
                        for o in u.t[2][1:]:
                            n, t = self.opnode(b, o)
                            if n:
                                for j in range(2, c.argc + 1):
                                    self.flow(n, ("L", c.p, j), how, None, c.lty(j))
                        if u.t[3]:
                            n, t = self.node(b, u.t[3])
                            self.flow(("L", c.p, 0), n, how, None, t)
        if tg:
            return
        p = s.p
        plain = [(n, t) for n, t in args if n is not None]
        # channels
        a0 = s.argty(0) if s.t[2] else None
        if a0 is not None and a0.peel().k == "adt" and (a0.peel().d or "").startswith(("std::sync::mpsc::", "crossbeam_channel::")) and a0.peel().args:
            key = ("C", a0.peel().args[0].s)
            if ends(p, CHAN_OUT):
                for n, t in args[1:]:
                    if n and self.can(t):
                        self.edge(("T",) + n, ("T",) + key, how)
            elif d and self.can(dt):
                self.edge(("T",) + key, ("T",) + d, how)
            return
        if p in ("std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new") and d and args and args[0][0]:
            self.flow(args[0][0], d, how, args[0][1], dt)
            return
        for n, t in plain:
            if d and ends(p, LENS):
                self.edge(("V",) + n, ("T",) + d, how)
            elif d and self.can(dt):
                self.edge(("T",) + n, ("T",) + d, how)
                w = dt.peel()
                if w.d not in WRAP:
                    self.edge(("V",) + n, ("V",) + d, how)
                    if not ends(p, KEEP) and texty(t):
                        self.edge(("T",) + n, ("V",) + d, how)
                if w.d in WRAP:
                    if ends(p, ADAPT):
                        self.edge(("V",) + n, ("V",) + d, how)
                    elif not ends(p, STEADY):
                        self.edge(("T",) + n, ("V",) + d, how)
                        self.edge(("V",) + n, ("V",) + d, how)
                if ends(p, TESTS):
                    self.edge(("V",) + n, ("T",) + d, how)
                if dt.s.startswith("&mut") or "&mut" in dt.s or any(x in dt.s for x in GUARDS):
                    self.edge(("T",) + d, ("T",) + n, how)
        # what is put into what
        if len(args) > 1 and args[0][0]:
            n0, t0 = args[0]
            if p.startswith(IO):
                pass
            elif t0.k == "refmut" or ends(p, ("::set", "::store", "::replace", "::swap")):
                for n, t in args[1:]:
                    if n:
                        self.edge(("T",) + n, ("T",) + n0, how)
                        if ends(p, ("::insert", "::remove")) and any(x in t0.s for x in KEYED):
                            self.edge(("T",) + n, ("V",) + n0, how)
                        if ends(p, GROW):
                            self.edge(("V",) + n, ("V",) + n0, how)
                            if texty(t):
                                self.edge(("T",) + n, ("V",) + n0, how)
        for i, (n, t) in enumerate(args):
            # out-parameters
            if n and t.k == "refmut" and i > 0:
                for m, u in plain:
                    if m != n:
                        self.edge(("T",) + m, ("T",) + n, how)
        for i, c in clos:
            for n, t in plain:
                for j in range(2, c.argc + 1):
                    if self.can(c.lty(j)):
                        self.edge(("T",) + n, ("T", "L", c.p, j), how)
                        self.edge(("V",) + n, ("V", "L", c.p, j), how)
            if d and self.can(dt):
                self.edge(("T", "L", c.p, 0), ("T",) + d, how)
                if not ends(p, ("::map", "::map_err", "::with_context")):
                    self.edge(("V", "L", c.p, 0), ("V",) + d, how)
                    self.edge(("T", "L", c.p, 0), ("V",) + d, how)

    # ------------------------------------------------------------ control dependence
    def cd(self, body):
        """block -> the switch blocks it directly depends on"""
        if body.p in self.cds:
            return self.cds[body.p]
        from .facts import term_succs
        n = len(body.blocks)
        succ = [[x for x in term_succs(b["t"]) if not body.blocks[x].get("cl")] for b in body.blocks]
        EX = n
        for i in range(n):
            if not succ[i]:
                succ[i] = [EX]
        succ.append([])
        preds = [[] for _ in range(n + 1)]
        for i, ss in enumerate(succ):
            for x in ss:
                preds[x].append(i)
        # nodes in reverse post-order of the reversed graph
        order, seen, stack = [], {EX}, [(EX, iter(preds[EX]))]
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(preds[w])))
                    break
            else:
                order.append(v)
                stack.pop()
        order.reverse()
        num = {v: i for i, v in enumerate(order)}
        idom = {EX: EX}
        ch = True
        while ch:
            ch = False
            for v in order[1:]:
                new = None
                for w in succ[v]:
                    if w in idom:
                        if new is None:
                            new = w
                        else:
                            a, b = new, w
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(v) != new:
                    idom[v] = new
                    ch = True
        out = {}
        for i in range(n):
            if len(set(succ[i])) < 2 or i not in idom:
                continue
            for w in succ[i]:
                x = w
                while x in idom and x != idom[i] and x != EX:
                    out.setdefault(x, set()).add(i)
                    if x == idom[x]:
                        break
                    x = idom[x]
        self.cds[body.p] = out
        return out

    def switchnode(self, body, i):
        t = body.blocks[i]["t"]
        if t[0] != "switch":
            return None
        n, ty = self.opnode(body, t[1])
        return n

    def implicit(self):
        """results that say which way a branch on request values went"""
        for p in self.scope:
            b = self.F.bodies[p]
            todo = []
            for i, bb in enumerate(b.blocks):
                if bb.get("cl"):
                    continue
                for st in bb["s"]:
                    if st[1] is None or len(st[1]) != 1:
                        continue
                    t = b.lty(st[1][0])
                    rv = st[2]
                    if t.d in WRAP and rv[0] in ("agg", "use") or t.k == "bool" and rv[0] == "use" and "k" in rv[1]:
                        todo.append((i, st[1][0], t, st[0]))
            if not todo:
                continue
            cd = self.cd(b)
            for i, l, t, sp in todo:
                for sw in cd.get(i, ()):
                    n = self.switchnode(b, sw)
                    if n:
                        self.edge(("T",) + n, (("V" if t.d in WRAP else "T"), "L", p, l), (p, sp))

    def run(self, sources):
        self.implicit()
        work = []
        for s in sources:
            for k in "TV":
                x = (k,) + s
                if x not in self.tainted:
                    self.tainted[x] = None
                    work.append(x)
        while work:
            x = work.pop()
            for y, how in self.edges.get(x, ()):
                if y not in self.tainted and not (y[0] == "V" and self.fixed(y[1:])):
                    self.tainted[y] = (x, how)
                    work.append(y)

    def is_t(self, n):
        return n is not None and ("T",) + n in self.tainted

    def is_v(self, n):
        return n is not None and ("V",) + n in self.tainted

    def trace(self, key):
        out = []
        while key is not None:
            par = self.tainted.get(key)
            f = self.F.bodies.get(par[1][0]) if par else None
            out.append("%s %s%s" % (key[1], " ".join(str(x) for x in key[2:]), "  [%s:%s]" % (f.file, par[1][1][0] if isinstance(par[1][1], (list, tuple)) else par[1][1]) if f else ""))
            key = par[0] if par else None
        out.reverse()
        return out
