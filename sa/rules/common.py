"""Anchors shared by the session-table rules."""
from ..lib import *
from ..values import *

EVENT = "libshpool::daemon::events::Event"
BUS = "libshpool::daemon::events::EventBus"
LCSTATE = "libshpool::daemon::shell::SessionLifecycleState"
READERS = {"get", "get_mut", "contains_key", "iter", "iter_mut", "keys", "values", "values_mut", "len", "is_empty",
           "get_key_value", "index", "into_iter", "deref", "deref_mut", "capacity", "fmt", "reserve", "get_many_mut", "borrow"}


def table_guard(g):
    return "HashMap" in g.a[0] and "shell::Session" in g.a[0]


def holds_table(S):
    return any(table_guard(g) for g in S.env.held)


def is_publish(ev):
    """EventBus method that takes an Event: the publishing entry point"""
    return ev.p.startswith(BUS + "::") and any(ev.argty(i).peel().d == EVENT for i in range(len(ev.ops)))


def publish_site(s):
    return s.p.startswith(BUS + "::") and any(s.argty(i).peel().d == EVENT for i in range(len(s.t[2])))


def event_variant(E, ev):
    for i in range(len(ev.ops)):
        if ev.argty(i).peel().d == EVENT:
            v = ev.load(i)
            if v.k == "agg":
                return E.F.adts[EVENT]["v"][v.a[1] or 0]["n"]
            return None
    return None


def table_op(ev_or_site, site=False):
    """(operation, entry form) when the call works on the session table"""
    s = ev_or_site
    n = len(s.t[2]) if site else len(s.ops)
    if n == 0:
        return None
    last = s.p.rsplit("::", 1)[-1]
    q = s.p
    if "HashMap" in q or "hash_map" in q or "hash::map" in q or "collections::hash" in q:
        t = s.argty(0).peel()
        if t.mentions(SESSION) and ((t.d or "").endswith("::HashMap") or (t.d or "").endswith("Entry")):
            return last
    return None


def table_site(s):
    return table_op(s, True) is not None


def makers(F):
    """functions that make a message of the protocol"""
    return {b.p for b in F.bodies.values() if b.kind != "closure" and b.p.startswith("libshpool::") and "<" not in b.p and not b.p.startswith("libshpool::daemon") and not b.p.startswith("libshpool::protocol::") and any((t.d or "").startswith("shpool_protocol::") for t in [b.lty(0)] + (list(b.lty(0).args[:1]) if b.lty(0).d == RES else []))}


def readers(F):
    """functions of clients that are given an answer of the daemon"""
    return {b.p for b in F.bodies.values() if b.kind != "closure" and b.p.startswith("libshpool::") and "<" not in b.p and not b.p.startswith(("libshpool::daemon", "libshpool::protocol::"))
            and any((b.lty(i).peel().d or "").startswith("shpool_protocol::") and (b.lty(i).peel().d or "").endswith(("Reply", "ReplyHeader", "AttachStatus")) for i in range(1, b.argc + 1))}
