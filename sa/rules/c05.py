"""C05: every change of the session table is announced under the table lock, in order."""
from .common import *

EXPLAIN = ("Path-sensitive typestate analysis from libshpool::run through all thread roots: each insert/remove on the session "
           "table opens a debt (removed/created) that exactly one EventBus publish of the matching event must pay before the table "
           "guard is released; publishes without a debt, publishes outside the guard and unknown mutations of the table are violations. "
           "SessionAttached must be published exactly once on every path that answers an attach with Attached or Created.")
ASSUME = ["unwinding paths are not followed", "HashMap::insert/remove return Some exactly when an entry was replaced/removed"]
HDR = "shpool_protocol::AttachReplyHeader"
ATTACH = "shpool_protocol::AttachStatus"


class R(SliceRule):
    name = "table-events"

    # state: (debts tuple, attached published count)
    def start(self, root):
        return ((), 0)

    def on_spawn(self, S, ev, clo):
        return ((), 0)

    def relevant(self, s):
        return table_site(s) or publish_site(s) or self.is_reply(s, True)

    def is_reply(self, s, site=False):
        n = len(s.t[2]) if site else len(s.ops)
        return bool(s.p.startswith("libshpool::protocol::encode_to") and n and (site or s.argty(0).peel().d == HDR))

    def on_result(self, S, ev, ret):
        op = table_op(ev)
        if op in ("insert", "remove", "remove_entry") and "Entry" not in (ev.argty(0).peel().d or ""):
            was = None
            if ret.k == "agg":
                was = ret.a[1] == 1
            else:
                k = self.E.known(S.env, mk("discr", ret))
                was = None if k is None else k == 1
            d, a = S.st
            if was is None:
                self.E.report(S, "table-mutation", "%s:%s" % (op, G(ev)), "cannot tell whether this %s replaced or removed an entry" % op)
            add = ("Created",) if op == "insert" else ()
            if was:
                add += ("Removed",)
            S.st = (tuple(sorted(d + add)), a)

    def on_call(self, S, ev):
        E, ctx = self.E, self.ctx
        op = table_op(ev)
        if op is not None:
            where = ev.body.p
            if op in ("insert", "remove", "remove_entry", "insert_entry"):
                self.seen.add((op, where))
                t = ev.argty(0).peel().d or ""
                if "Occupied" in t:
                    d, a = S.st
                    S.st = (tuple(sorted(d + (("Removed", "Created") if op == "insert" else ("Removed",)))), a)
                    return None
                if "Vacant" in t:
                    d, a = S.st
                    S.st = (tuple(sorted(d + ("Created",))), a)
                    return None
                if not holds_table(S):
                    E.report(S, "table-lock", "%s:%s" % (op, G(ev)), "session table %s without the table lock held" % op)
                return None
            if op in READERS or op in ("entry", "or_insert", "key", "or_insert_with", "into_key"):
                if op.startswith("or_insert"):
                    E.report(S, "table-mutation", "%s:%s" % (op, G(ev)), "the session table is changed by %s, which does not tell whether an entry was created" % op)
                return None
            E.report(S, "table-mutation", "%s:%s" % (op, G(ev)), "the session table is changed by HashMap::%s, whose effect is not announced entry by entry" % op)
            return None
        if is_publish(ev):
            v = event_variant(E, ev)
            self.pubs.add((v, ev.body.p))
            d, a = S.st
            if not holds_table(S):
                E.report(S, "publish-under-lock", "%s:%s" % (v, G(ev)), "event %s is published without the session table lock held" % v)
            want = {"SessionRemoved": "Removed", "SessionCreated": "Created"}.get(v)
            if want:
                if want not in d:
                    E.report(S, "spurious-event", "%s:%s" % (v, G(ev)), "event %s is published although the table did not change that way on this path" % v)
                else:
                    if want == "Created" and "Removed" in d:
                        E.report(S, "event-order", "%s:%s" % (v, G(ev)), "SessionCreated is published before the SessionRemoved of the entry it replaced")
                    d = list(d)
                    d.remove(want)
                    S.st = (tuple(d), a)
            elif v == "SessionAttached":
                if "Created" in d:
                    E.report(S, "event-order", "%s:%s" % (v, G(ev)), "SessionAttached is published before SessionCreated")
                if a >= 1:
                    E.report(S, "attached-once", G(ev), "SessionAttached is published twice for one attach")
                S.st = (d, min(a + 1, 2))
            elif v is None:
                E.report(S, "unknown-event", G(ev), "an event whose kind cannot be determined is published")
            # publishing itself is decided by C09
            return Act(ret=UNIT)
        if self.is_reply(ev):
            h = ev.load(0)
            st = E.load(S.env, E.get(h, ("f", 0, "status")))
            names = [x["n"] for x in E.F.adts[ATTACH]["v"]]
            if st.k == "agg":
                n = names[st.a[1]]
            else:
                k = E.known(S.env, mk("discr", st))
                n = names[k] if k is not None else None
            self.replies.add((n, ev.body.p))
            d, a = S.st
            good = n in ("Attached", "Created")
            if n is None or (good and a != 1):
                if not (n is None and a == 1):
                    E.report(S, "attach-announced", "%s" % n, "an attach is answered %s but SessionAttached was published %d times on this path" % (n or "with an undetermined status", a))
            if n is not None and not good and a:
                E.report(S, "attach-announced", "%s" % n, "an attach is answered %s although SessionAttached was published" % n)
            return Act(ret=None, opaque=True)
        return None

    def on_release(self, S, g):
        if table_guard(g):
            d, a = S.st
            if d:
                self.E.report(S, "unannounced", "%s:%s" % ("+".join(d), self.ctx.G.owner(S.frame.body.p)),
                              "the session table lock is released while a change (%s) was not announced" % ", ".join(d))
                S.st = ((), a)

    def on_end(self, S, v):
        if S.st[0]:
            self.E.report(S, "unannounced", "end:" + S.root, "a thread ends with an unannounced table change")

    def on_store(self, S, root, path, v, body, span):
        if path and path[-1] == ("$data",):
            for g in S.env.held:
                if table_guard(g) and g.a[3] == root and path[:-1] == g.a[4]:
                    self.E.report(S, "table-mutation", "replace:" + body.p, "the whole session table is overwritten")


def G(ev):
    return re.sub(r"(::\{closure#\d+\})+$", "", ev.body.p)


def run(ctx):
    r = R(ctx)
    r.seen, r.pubs, r.replies = set(), set(), set()
    ctx.rule("debt automaton over HashMap<String,Box<Session>> insert/remove and EventBus::publish, per table-lock critical section")
    ctx.engine(r)
    for x in sorted(r.seen):
        ctx.ok("table-change-announced", "%s in %s" % x)
    for x in sorted(r.pubs, key=str):
        ctx.ok("publish-matches-change", "%s in %s" % x)
    for x in sorted(r.replies, key=str):
        ctx.ok("attach-reply-vs-event", "%s in %s" % x)
    ctx.floor("table insertions", len([x for x in r.seen if x[0] == "insert"]), 1)
    ctx.floor("table removals", len([x for x in r.seen if x[0] == "remove"]), 1)
    for v in ("SessionRemoved", "SessionCreated", "SessionAttached", "SessionDetached"):
        ctx.floor("publish " + v, len([x for x in r.pubs if x[0] == v]), 1)
    ctx.floor("attach replies", len(r.replies), 1)
