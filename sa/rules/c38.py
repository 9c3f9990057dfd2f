"""C38: test hooks are inert in release builds."""
from .part import *

EXPLAIN = ("The program is compiled without the testing feature. Every function, destructor and static of the test hook module that code outside of it refers to is found, with everything reachable from it: none of that may touch a static of the module, call anything but pure functions of the core library, or loop. "
           "The scan for references covers every function, closure and constant of both crates, generated code included.")
ASSUME = ["a release build is one with the crates' default features"]
TECH = "call-graph reachability and effect analysis over MIR"

MOD = "libshpool::test_hooks"
PURE = ("core::str::", "core::slice::", "std::option::Option", "std::result::Result", "std::cmp::", "core::cmp::", "std::mem::drop", "std::mem::forget", "std::clone::", "core::clone::", "std::convert::", "std::ops::", "core::num::", "std::string::String", "std::hint::black_box",
        "<std::option::Option", "<std::result::Result", "<std::string::String", "<str as", "std::string::ToString", "<T as std::string::ToString", "<&T", "<T as std::convert", "core::char::", "std::any::", "std::marker::")


def inmod(p):
    return p is not None and "test_hooks::" in p


def statics(x):
    """paths of the statics operands refer to"""
    if isinstance(x, dict):
        for k in ("st", "pr"):
            if isinstance(x.get(k), str):
                yield x[k]
        for y in x.values():
            yield from statics(y)
    elif isinstance(x, list):
        for y in x:
            yield from statics(y)


def calls(body):
    for i, bb in enumerate(body.blocks):
        if not bb.get("cl"):
            t = bb["t"]
            if t[0] == "call":
                f = (t[1].get("k") or {}).get("fn") or {}
                yield i, f.get("r") or f.get("p"), f, body.line_of(i) if hasattr(body, "line_of") else body.line


def cyclic(body):
    state = {}

    def succ(t):
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "switch":
            return [x[1] for x in t[3]] + [t[4]]
        if t[0] == "drop":
            return [t[3]]
        if t[0] == "call":
            return [t[4]] if t[4] is not None else []
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1:] if t[0] == "assert" else []
    todo = [(0, iter(succ(body.blocks[0]["t"])))]
    state[0] = 1
    while todo:
        b, it = todo[-1]
        for n in it:
            if state.get(n) == 1:
                return True
            if n not in state:
                state[n] = 1
                todo.append((n, iter(succ(body.blocks[n]["t"]))))
                break
        else:
            state[b] = 2
            todo.pop()
    return False


def run(ctx):
    ctx.rule("no code outside the test hook module reaches, through it, a static, an effect or a loop")
    F, G = ctx.F, ctx.G
    entries, n = {}, 0
    for p, b in F.bodies.items():
        if inmod(p) or inmod(G.owner(p)):
            continue
        n += 1
        for s in G.succ.get(p, ()):
            if inmod(s):
                entries.setdefault(s, set()).add(p)
        for bb in b.blocks:
            if bb.get("cl"):
                continue
            for x in set(statics([bb["s"], bb["t"]])):
                if inmod(x) and not x.endswith("]"):
                    ctx.bad("static", G.owner(p) + " " + x, "%s is used outside the test hook module" % x, b.where() if hasattr(b, "where") else "%s:%s" % (b.file, b.line))
        for i in range(len(b.locals)):
            t = b.lty(i)
            if t.k == "adt" and t.d and inmod(t.d):
                # a value of the module's: its destructor runs
                d = (F.adts.get(t.d) or {}).get("dtor")
                if d:
                    entries.setdefault(d, set()).add(p)
    ctx.floor("functions searched", n, 20)
    ctx.floor("hook functions called by the program", len(entries), 1)
    todo, seen = list(entries), set()
    while todo:
        p = todo.pop()
        if p in seen or p not in F.bodies:
            continue
        seen.add(p)
        b = F.bodies[p]
        where = "%s:%s" % (b.file, b.line)
        bad = []
        for x in set(statics([[bb["s"], bb["t"]] for bb in b.blocks if not bb.get("cl")])):
            if inmod(x) and not x.endswith("]"):
                bad.append("uses %s" % x)
        for i, q, f, line in calls(b):
            if q in F.bodies:
                todo.append(q)
            elif q is None or not any(q.startswith(y) or y in q and y.startswith("<") for y in PURE):
                bad.append("calls %s" % q)
        for q in G.succ.get(p, ()):
            todo.append(q)
        if cyclic(b):
            bad.append("loops")
        ctx.check(not bad, "effect", p, "a test hook the release build calls %s" % "; ".join(sorted(bad)[:4]), where)
