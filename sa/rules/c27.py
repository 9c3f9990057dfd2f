"""C27: old and new peers understand each other's messages."""
from .part import *
from .c16 import wire_fns

EXPLAIN = ("The decoders generated for the protocol's types are inspected in compiled form: for each struct (and each enum variant with named fields) every field that is not sent is given a default instead of an error, an unknown field is skipped "
           "instead of refused, the names decoded are the fields' own names and are the names encoded. Every place that serializes a message uses a serializer whose type says that structs are written as maps of named fields.")
ASSUME = ["rmp_serde and serde's derived code do what their types and names say", "unknown variants of an enum are not covered by the statement"]

DES = "Deserialize<'de> for "


def subject(p):
    """the type a generated body belongs to"""
    return p.split(DES, 1)[1].split(">::deserialize", 1)[0].split("<")[0] if DES in p else None


def consts(F, p):
    out = []
    for q in [x for x in F.bodies if x == p or x.startswith(p + "::promoted")]:
        for bb in F.bodies[q].blocks:
            for st in bb["s"]:
                if st[1] is not None and st[2][0] in ("agg", "use"):
                    for o in (st[2][2] if st[2][0] == "agg" else [st[2][1]]):
                        k = o.get("k", {}).get("v") if isinstance(o, dict) else None
                        if isinstance(k, dict) and "str" in k:
                            out.append(k["str"])
    return out


def run(ctx):
    ctx.rule("absent field => default; unknown field => skipped; names decoded = names encoded = the fields' names; structs are encoded as maps")
    F, G = ctx.F, ctx.G
    P = "shpool_protocol::"
    sites = {}
    for s in G.sites:
        sites.setdefault(s.body.p, []).append(s)
    maps = [b for p, b in F.bodies.items() if p.startswith(P) and "visit_map" in p and DES in p and b.kind != "promoted" and "::promoted" not in p]
    n = 0
    for b in maps:
        t = subject(b.p)
        if t is None:
            continue
        ss = sites.get(b.p, ())
        n += 1
        for s in ss:
            if last(s) == "missing_field":
                o = s.t[2][0].get("k", {}).get("v") if s.t[2] else None
                f = o.get("str") if isinstance(o, dict) else "?"
                optional = "serde" in s.p and "private" in s.p and s.ta and s.ta[0].d == OPT
                ctx.check(optional, "required", "%s.%s" % (t, f), "a message whose field %s of %s was not sent is refused instead of taking the default" % (f, t), s.where())
        has_fields = any(last(s) == "next_value" for s in ss)
        ignored = any(last(s) in ("next_value", "next_entry") and any("IgnoredAny" in x.s for x in s.ta) for s in ss)
        ctx.check(ignored, "unknown", t, "unknown fields of %s are not skipped" % t, b.p)
    ctx.floor("decoders of named fields", n, 1)
    for p in F.bodies:
        if p.startswith(P) and DES in p:
            for s in sites.get(p, ()):
                if last(s) == "unknown_field":
                    ctx.bad("unknown", subject(p), "unknown fields of %s are refused" % subject(p), s.where())
    # names
    structs = {a: x for a, x in F.adts.items() if a.startswith(P) and "::_" not in a}
    m = 0
    for a, x in sorted(structs.items()):
        t = a[len(P):]
        mine = [b for b in maps if subject(b.p) == t]
        if not mine:
            continue
        single = len(x["v"]) == 1 and x["v"][0]["n"] == t
        if not single:
            continue
        own = [f[0] for f in x["v"][0]["f"]]
        dec = consts(F, P + "_::<impl serde::Deserialize<'de> for %s>::deserialize::FIELDS" % t)
        enc = []
        for s in sites.get(P + "_::<impl serde::Serialize for %s>::serialize" % t, ()):
            if last(s) == "serialize_field":
                for o in s.t[2]:
                    k = o.get("k", {}).get("v") if isinstance(o, dict) else None
                    if isinstance(k, dict) and "str" in k:
                        enc.append(k["str"])
        m += 1
        ctx.check(sorted(dec) == sorted(own), "names", "decoded " + t, "%s is decoded from the fields %s, its fields are %s" % (t, sorted(dec), sorted(own)), a)
        ctx.check(sorted(enc) == sorted(own), "names", "encoded " + t, "%s is encoded with the fields %s, its fields are %s" % (t, sorted(enc), sorted(own)), a)
    ctx.floor("structs of the protocol", m, 1)
    # every message type on the wire is one of those
    enc, dec = wire_fns(F, G)
    k = 0
    for s in G.sites:
        if s.p in dec and not any(t.k == "param" for t in s.ta):
            for t in s.ta:
                d = t.peel().d
                if d and d.startswith(P):
                    k += 1
                    u = d[len(P):]
                    ctx.check(any(subject(p) == u for p in F.bodies if DES in p), "derived", u, "%s is decoded by something that is not looked at" % u, s.where())
    ctx.floor("messages decoded", k, 1)
    # encoding
    j = 0
    for s in G.sites:
        if not s.body.p.startswith("libshpool::"):
            continue
        ser = last(s) == "serialize" and ("Serialize" in s.q or s.trait == "serde::Serialize")
        if ser and any("rmp_serde" in t.s for t in s.ta) or ser and len(s.t[2]) > 1 and "rmp_serde" in s.argty(1).s:
            j += 1
            ts = [t.s for t in s.ta] + [s.argty(1).s]
            ctx.check(any("StructMapConfig" in t for t in ts), "positional", G.owner(s.body.p), "a message is written without its field names", s.where())
        elif s.p.startswith("rmp_serde::") and last(s) in ("to_vec", "write", "to_vec_named", "write_named"):
            j += 1
            ctx.check(last(s).endswith("_named"), "positional", G.owner(s.body.p), "a message is written without its field names", s.where())
        elif s.p.startswith("rmp_serde::") and last(s) in ("with_struct_tuple",):
            ctx.bad("positional", G.owner(s.body.p), "messages are written without their field names", s.where())
    ctx.floor("places that encode", j, 1)
