"""C35: listing never waits and reports what the table holds."""
from .part import *
from .c16 import wire_fns
from .c18 import PARTIAL
from .c20 import component

EXPLAIN = ("The handler of the list request is explored with every session's attach lock free and taken. Each entry built carries the key it is stored under and the status that the attempt to take that lock found, "
           "every entry of the table leads to exactly one entry of the reply (nothing that leaves out, repeats, reorders away or removes entries lies between), and nothing in the handler's call graph waits for a session's attach lock, a channel or a thread.")
ASSUME = ["the table's lock is held for a bounded time (C07, C08)"]

SES = "shpool_protocol::Session"
DROPPERS = PARTIAL | {"dedup", "dedup_by_key", "pop", "swap_remove", "remove", "split_off", "next_back", "peekable", "intersection"}


class List(Part):
    name = "list"
    K = 8
    exact_tags = frozenset(["key"])

    def __init__(self, ctx, roots, enc, follow):
        Part.__init__(self, ctx, roots)
        self.enc, self.follow = enc, follow
        vs = [v["n"] for v in ctx.F.adts["shpool_protocol::SessionStatus"]["v"]]
        self.att, self.dis = vs.index("Attached"), vs.index("Disconnected")

    def opaque(self, body):
        return body.kind != "closure" and body.p not in self.follow

    def on_call(self, S, ev):
        E = self.E
        l, n = last(ev), len(ev.ops)
        if l in ("try_lock", "try_lock_arc", "is_locked") and n and ev.argty(0).mentions(INNER) and not ev.argty(0).mentions("std::collections::HashMap"):
            self.ok("attach locks tried", ev)
            st = S.st - {"free", "taken"}
            if l == "is_locked":
                return Act(forks=[(st | {"taken"}, B(1)), (st | {"free"}, B(0))])
            return Act(forks=[(st | {"free"}, agg(OPT, 1, (E.fresh(S, "guard"),))), (st | {"taken"}, agg(OPT, 0, ()))])
        if n and (ev.trait == "std::iter::Iterator" or "Iterator" in ev.q):
            tags = E.deep_tags(S.env, ev.args[0])
            if l == "next" and n == 1 and "table" in tags:
                self.turn(S, ev)
                st = S.st - {"free", "taken", "built", "pushed"}
                return Act(forks=[(st - {"item"}, agg(OPT, 0, ())), (st | {"item"}, agg(OPT, 1, (E.fresh(S, "item", ["entry"]),)))])
            if l in DROPPERS and tags & {"table", "entries"}:
                self.rep(S, "left-out", ev, "%s may leave sessions out of the list" % l)
        if n and is_table(ev.argty(0).peel()) and l in ("iter", "into_iter", "keys", "values", "iter_mut", "clone"):
            if l in ("keys", "values"):
                return Act(ret=E.fresh(S, l, ["table", "only-" + l]))
            self.ok("tables gone through", ev)
            return Act(ret=E.fresh(S, "table", ["table"]))
        if n and "std::vec::Vec" in ev.p and SES in ev.argty(0).peel().args[0].s if n and ev.argty(0).peel().d == "std::vec::Vec" and ev.argty(0).peel().args else False:
            if l in ("push", "insert"):
                if "item" in S.st and "pushed" in S.st:
                    self.rep(S, "twice", ev, "a session may be listed twice")
                self.add(S, "pushed")
            elif l in DROPPERS | {"truncate", "retain", "drain", "clear", "dedup_by"}:
                self.rep(S, "left-out", ev, "%s may leave sessions out of the list" % l)
        if l in ("to_string", "clone", "to_owned", "into", "from", "format", "as_str", "deref", "as_ref", "borrow") and n == 1:
            v = E.load(S.env, ev.args[0])
            t = set()
            x = v
            while isinstance(x, V) and x.k != "S":
                x = x.a[0] if x.k in ("fld", "vf", "dc", "drf", "idx") else None
            if x is not None and x.k == "S":
                if "key" in x.a[1]:
                    t.add("key")
                elif x.a[1] & {"entry", "table"} and component(v) == 0:
                    t.add("key")
                if t and "String" in str(ev.argty(0).s) + "str":
                    return Act(ret=E.fresh(S, "name", ["key"]))
        if ev.p in self.enc and any("ListReply" in t.s for t in ev.ta):
            self.ok("replies", ev)
            return Act(ret=self.result(S, "replied"))
        return None

    def turn(self, S, ev):
        if "item" in S.st and "pushed" not in S.st and "built" not in S.st:
            self.rep(S, "left-out", ev, "a session in the table is not listed")

    def on_store(self, S, root, path, v, body, span):
        if v.k == "agg" and v.a[0] == SES:
            self.entry(S, type("e", (), {"body": body}), v)

    local_stores = True

    def entry(self, S, ev, v):
        E, F = self.E, self.E.F
        fs = [f[0] for f in F.adts[SES]["v"][0]["f"]]
        name, status = v.a[2][fs.index("name")], v.a[2][fs.index("status")]
        name = E.load(S.env, name)
        if "key" not in origin(name) and not (component(name) == 0):
            self.rep(S, "name", ev, "a session is listed under another name than it is stored under")
        else:
            self.ok("names", ev)
        k = status.a[1] if status.k == "agg" else E.known(S.env, mk("discr", status))
        want = self.att if "taken" in S.st else self.dis if "free" in S.st else None
        if want is None or k != want:
            self.rep(S, "status", ev, "the status listed is not what trying the session's attach lock just found")
        else:
            self.ok("status " + ("attached" if want == self.att else "disconnected"), ev)
        S.st = S.st | {"built"}


def run(ctx):
    ctx.rule("list = { (key, locked? Attached : Disconnected) | entry of the table }, without waiting")
    F, G = ctx.F, ctx.G
    enc, dec = wire_fns(F, G)
    roots = {G.owner(s.body.p) for s in G.sites if s.p in enc and any("ListReply" in t.s for t in s.ta)}
    makers = made_in(F, G, {SES}) & {p for p in F.bodies if p.startswith("libshpool::") and "_::<impl" not in p}
    tops = {r for r in roots if any(m in G.reach({r}) for m in makers)} or {u for r in roots for u in [G.owner(s.body.p) for s in G.sites if s.p == r] if any(m in G.reach({u}) for m in makers)}
    ctx.floor("handlers of the list request", len(tops), 1)
    follow = {b for b in G.reach(tops) if b.startswith("libshpool::") and not b.startswith("libshpool::protocol")} | tops
    p = List(ctx, tops, enc, follow)
    run_parts(ctx, [p])
    floors(ctx, [p], "tables gone through", "attach locks tried", "names", "status attached", "status disconnected", "replies")
    # nothing waits
    n = 0
    reach = {b for b in G.reach(tops) if b in F.bodies}
    for s in G.sites:
        if s.body.p not in reach:
            continue
        n += 1
        if s.t[2] and "ock" in s.p and last(s) in ("lock", "lock_arc", "write", "read", "try_lock_for", "try_lock_until", "try_lock_arc_for", "try_lock_arc_until") and s.argty(0).mentions(INNER) and not s.argty(0).mentions("std::collections::HashMap"):
            ctx.bad("waits", G.owner(s.body.p), "listing waits for a session's attach lock", s.where())
        elif ("crossbeam_channel" in s.p and last(s) in ("recv", "recv_timeout", "send_timeout", "recv_deadline", "send_deadline")) or last(s) in ("join", "sleep", "wait", "wait_timeout", "wait_while", "wait_for") and s.p.startswith(("std::thread", "std::sync", "parking_lot", "std::process")):
            ctx.bad("waits", G.owner(s.body.p), "listing waits (%s)" % s.p, s.where())
    ctx.ok("calls looked at: %d" % n, "list")
