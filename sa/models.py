"""Models of std / external functions used by the engine."""
import re
from .values import *

PL_MUTEX = re.compile(r"^(parking_lot::)?(lock_api::)?(parking_lot::lock_api::)?Mutex::<")
LOCKS = {
    # callee -> (index of T in generic args, kind, form)
    "parking_lot::lock_api::Mutex::<R, T>::lock": (1, "m", "plain"),
    "parking_lot::lock_api::Mutex::<R, T>::lock_arc": (1, "m", "plain"),
    "parking_lot::lock_api::Mutex::<R, T>::try_lock": (1, "m", "option"),
    "parking_lot::lock_api::Mutex::<R, T>::try_lock_arc": (1, "m", "option"),
    "parking_lot::lock_api::Mutex::<R, T>::try_lock_for": (1, "mt", "option"),
    "parking_lot::lock_api::Mutex::<R, T>::try_lock_until": (1, "mt", "option"),
    "parking_lot::lock_api::Mutex::<R, T>::try_lock_arc_for": (1, "mt", "option"),
    "parking_lot::lock_api::Mutex::<R, T>::try_lock_arc_until": (1, "mt", "option"),
    "parking_lot::lock_api::RwLock::<R, T>::read": (1, "r", "plain"),
    "parking_lot::lock_api::RwLock::<R, T>::write": (1, "w", "plain"),
    "parking_lot::lock_api::RwLock::<R, T>::try_read": (1, "r", "option"),
    "parking_lot::lock_api::RwLock::<R, T>::try_write": (1, "w", "option"),
    "std::sync::Mutex::<T>::lock": (0, "m", "result"),
    "std::sync::Mutex::<T>::try_lock": (0, "m", "tryresult"),
    "std::sync::RwLock::<T>::read": (0, "r", "result"),
    "std::sync::RwLock::<T>::write": (0, "w", "result"),
    "std::sync::RwLock::<T>::try_read": (0, "r", "tryresult"),
    "std::sync::RwLock::<T>::try_write": (0, "w", "tryresult"),
}
TRYING = ("option", "tryresult")

# functions whose result is the (loaded) value of their first argument
COPY = set("""
std::string::ToString::to_string
<T as std::string::ToString>::to_string
<str as std::string::ToString>::to_string
<T as std::borrow::ToOwned>::to_owned
std::borrow::ToOwned::to_owned
std::clone::Clone::clone
std::str::<impl str>::to_string
std::str::<impl std::borrow::ToOwned for str>::to_owned
<std::path::Path as std::borrow::ToOwned>::to_owned
std::slice::<impl [T]>::to_vec
std::slice::<impl [T]>::into_vec
std::path::Path::to_path_buf
std::path::PathBuf::into_os_string
std::ffi::OsString::into_string
std::option::Option::<&T>::copied
std::option::Option::<&T>::cloned
std::option::Option::<&mut T>::cloned
std::option::Option::<&mut T>::copied
std::borrow::Cow::<'_, B>::into_owned
std::path::Path::display
std::path::Path::to_string_lossy
std::ffi::OsStr::to_string_lossy
std::ffi::OsStr::to_os_string
std::string::String::into_boxed_str
std::string::String::into_bytes
std::mem::ManuallyDrop::<T>::new
std::hint::must_use
anyhow::__private::must_use
anyhow::__private::format_err
std::convert::identity
std::hint::black_box
std::boxed::box_assume_init_into_vec_unsafe
std::time::Duration::from_secs_identity
""".split("\n")) - {""}
# functions returning their first argument unchanged (reference stays a reference)
IDENT = set("""
std::string::String::as_str
std::string::String::as_bytes
std::string::String::as_mut_str
core::str::<impl str>::as_bytes
std::vec::Vec::<T, A>::as_slice
std::vec::Vec::<T, A>::as_mut_slice
std::path::PathBuf::as_path
std::path::Path::as_os_str
std::ffi::OsString::as_os_str
std::path::Path::new
std::ffi::OsStr::new
std::array::<impl [T; N]>::as_slice
core::array::<impl [T; N]>::as_slice
<I as std::iter::IntoIterator>::into_iter
std::iter::Iterator::by_ref
std::pin::Pin::<Ptr>::new
std::io::Read::by_ref
std::io::Write::by_ref
std::iter::Iterator::cloned
std::iter::Iterator::copied
std::borrow::Borrow::borrow
std::borrow::BorrowMut::borrow_mut
std::fmt::Arguments::<'a>::from_str
""".split("\n")) - {""}
IDENT_RE = re.compile(r" as std::(convert::AsRef<|convert::AsMut<|borrow::Borrow<|borrow::BorrowMut<)")
IDENT_DEREF = re.compile(r"^<(std::string::String|std::vec::Vec<|std::path::PathBuf|std::ffi::OsString|std::borrow::Cow<)")
ITER_IDENT = re.compile(r"(^<.* as std::iter::IntoIterator>::into_iter$)|(^core::slice::<impl \[T\]>::iter(_mut)?$)|(^std::slice::<impl \[T\]>::iter(_mut)?$)|::HashMap::<.*>::(iter|iter_mut)$")
HANDLE_CLONE = re.compile(r"^<(std::sync::Arc<|std::rc::Rc<|crossbeam_channel::(Sender|Receiver)<|std::sync::mpsc::(Sync)?Sender<|std::sync::Weak<)")


def split_name(p):
    """'<A as T>::m' or 'a::B::<T>::m' -> last segment"""
    return p.rsplit("::", 1)[-1]


def length(E, env, v):
    x = E.load(env, v)
    if x.k == "agg" and x.a[0] == "[]":
        return I(len(x.a[2]))
    if x.k == "s":
        return I(len(x.a[0].encode()))
    if x.k == "b":
        return I(len(x.a[0]))
    return mk("len", x)


def ctor(E, name, args):
    """tuple struct / variant constructors used as functions"""
    if name in ("std::option::Option::Some", "std::prelude::v1::Some"):
        return some(args[0])
    if name == "std::result::Result::Ok":
        return ok(args[0])
    if name == "std::result::Result::Err":
        return err(args[0])
    if "::" in name:
        en, vn = name.rsplit("::", 1)
        ad = E.F.adts.get(en)
        if ad and ad["k"] == "enum":
            for i, v in enumerate(ad["v"]):
                if v["n"] == vn:
                    return agg(en, i, args)
        ad = E.F.adts.get(name)
        if ad and ad["k"] == "struct":
            return agg(name, None, args)
    return None


def pure(E, S, name, args):
    """value-level models also usable in constants; returns V or None"""
    env = S.env
    if name in COPY:
        return E.load(env, args[0])
    if name in IDENT or IDENT_RE.search(name):
        return args[0]
    last = split_name(name)
    if last in ("clone", "to_owned", "to_string", "clone_from_ref") and (" as std::clone::Clone>" in name or "ToOwned" in name or "ToString" in name or "std::clone::impls" in name):
        x = args[0]
        x = E.read(env, *E.deref(x)) if x.k != "ref" else E.read(env, x.a[0], x.a[1])
        return x
    if last == "default" and " as std::default::Default>" in name:
        if name.startswith("<std::option::Option<"):
            return NONE
        if name.startswith("<bool"):
            return FALSE
        if re.match(r"^<[iu](8|16|32|64|size) as", name):
            return I(0)
        if name.startswith("<() "):
            return UNIT
        return None
    if last == "from" and (" as std::convert::From<" in name or "impl std::convert::From<" in name):
        if name.startswith("anyhow::") or "Error" in name.split(" as ")[0]:
            return None
        return E.load(env, args[0])
    if name in ("<T as std::convert::Into<U>>::into", "<T as std::convert::From<T>>::from"):
        return E.load(env, args[0]) if args[0].k != "ref" else E.load(env, args[0])
    if last in ("eq", "ne") and len(args) == 2:
        if "PartialEq" in name:
            a, b = E.load(env, args[0], 4), E.load(env, args[1], 4)
            r = eqv(E, env, a, b)
            return r if last == "eq" else neg(r)
    if last in ("lt", "le", "gt", "ge") and len(args) == 2 and ("PartialOrd" in name):
        a, b = E.load(env, args[0], 4), E.load(env, args[1], 4)
        return E.binop(S, last.capitalize(), a, b)
    if name in ("std::cmp::Ord::min", "std::cmp::min") or name.endswith(" as std::cmp::Ord>::min"):
        a, b = args
        if a.k == "i" and b.k == "i":
            return I(min(a.a[0], b.a[0]))
        return mk("op", "Min", a, b)
    if name in ("std::cmp::Ord::max", "std::cmp::max") or name.endswith(" as std::cmp::Ord>::max"):
        a, b = args
        if a.k == "i" and b.k == "i":
            return I(max(a.a[0], b.a[0]))
        return mk("op", "Max", a, b)
    if name in ("std::sync::Arc::<T>::ptr_eq", "std::sync::Arc::<T, A>::ptr_eq", "std::rc::Rc::<T, A>::ptr_eq", "std::ptr::eq", "std::ptr::addr_eq"):
        a, b = E.load(env, args[0]), E.load(env, args[1])
        if name.startswith("std::ptr"):
            a, b = args
        r = E.binop(S, "Eq", a, b) if a.k == "i" else (TRUE if a is b else mk("op", "ptr_eq", a, b))
        if isinstance(env.facts.get(r), int):
            return I(env.facts[r])
        return r
    if last in ("len",) and (name.startswith("core::slice") or name.startswith("std::vec::Vec") or name.startswith("std::string::String") or name.startswith("core::str")):
        return length(E, env, args[0])
    if last == "is_empty" and (name.startswith("core::slice") or name.startswith("std::vec::Vec") or name.startswith("std::string::String") or name.startswith("core::str")):
        n = length(E, env, args[0])
        return E.binop(S, "Eq", n, I(0))
    # saturating / checked / wrapping arithmetic
    m = re.match(r"^core::num::<impl ([iu]\w+)>::(saturating|wrapping|checked)_(add|sub|mul)$", name)
    if m and len(args) == 2:
        v = mk("op", m.group(2) + "_" + m.group(3), *args)
        if m.group(2) == "checked":
            return None
        if args[0].k == "i" and args[1].k == "i":
            o = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}[m.group(3)](args[0].a[0], args[1].a[0])
            if m.group(1)[0] == "u" and o < 0 and m.group(2) == "saturating":
                o = 0
            return I(o)
        return v
    if name in ("std::time::Duration::from_secs", "std::time::Duration::from_millis"):
        if args[0].k == "i":
            n = args[0].a[0]
            s, ns = (n, 0) if name.endswith("secs") else (n // 1000, (n % 1000) * 1000000)
            return agg("std::time::Duration", None, (I(s), agg("std::time::Nanoseconds", None, (I(ns),))))
        return mk("op", "Duration::" + last, args[0])
    m = re.search(r"::_::<impl std::ops::(BitOr|BitAnd|Not|Sub|BitXor) for ", name)
    if m:
        return mk("op", m.group(1), *[E.load(env, a) for a in args])
    c = ctor(E, name, args)
    return c


def neg(r):
    if r.k == "i":
        return I(1 - r.a[0])
    if r.k == "un" and r.a[0] == "Not":
        return r.a[1]
    return mk("un", "Not", r)


CONSTK = ("i", "s", "b")


def eqv(E, env, a, b):
    if a is b:
        return TRUE
    if a.k in CONSTK and b.k in CONSTK and a.k == b.k:
        return B(a.a[0] == b.a[0])
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[2]) == len(b.a[2]):
            rs = [eqv(E, env, x, y) for x, y in zip(a.a[2], b.a[2])]
            if all(r is TRUE for r in rs):
                return TRUE
            if any(r is FALSE for r in rs):
                return FALSE
    # fieldless enum against symbol: compare discriminants
    for x, y in ((a, b), (b, a)):
        if x.k == "agg" and x.a[1] is not None and not x.a[2] and y.k not in CONSTK:
            ad = E.F.adts.get(x.a[0])
            d = int(ad["v"][x.a[1]]["d"]) if ad else x.a[1]
            r = mk("op", "Eq", mk("discr", y), I(d))
            k = E.known(env, r)
            return r if k is None else I(k)
    if b.k in CONSTK and a.k not in CONSTK:
        r = mk("op", "Eq", a, b)
    elif a.k in CONSTK and b.k not in CONSTK:
        r = mk("op", "Eq", b, a)
    else:
        r = mk("op", "Eq", a, b)
    k = E.known(env, r)
    return r if k is None else I(k)


def tracing(E, S, ev):
    """logging and spans have no effect any property talks about"""
    if ev.target is None:
        return []
    p = ev.p
    if "PartialOrd" in p or p.endswith("::le"):
        return E.deliver(S, ev.dest, ev.target, FALSE)
    if p.endswith("Span::in_scope"):
        r = E.invoke(S, ev.args[1], [], ev.dest, ev.target, ("raw",), "in_scope")
        if r is not None:
            return r
    return E.deliver(S, ev.dest, ev.target, mk("u", "tracing", None))


def save(E, S, tag, v):
    """keep a value alive across an inlined closure call"""
    S.env.mem[("T", S.frame.fid, S.bb, tag)] = v
    return tag


def deliver_all(E, pairs, ev):
    out = []
    for s, v in pairs:
        E.rule.on_result(s, ev, v)
        out += E.deliver(s, ev.dest, ev.target, v)
    return out


def call_clo(E, S, ev, clov, args, cont, extra):
    """call closure, or fall back to an unknown result run through the continuation"""
    r = E.invoke(S, clov, args, ev.dest, ev.target, cont, extra)
    if r is None:
        tags = E.deep_tags(S.env, clov)
        for a in args:
            tags |= E.deep_tags(S.env, a)

        class FR:
            pass
        fr = FR()
        fr.cont, fr.dest, fr.target, fr.callbb, fr.parent, fr.body = cont, ev.dest, ev.target, S.bb, S.frame, None
        return E.apply_cont(S, fr, E.fresh(S, ("clo", str(extra)), tags))
    return r


OR = re.compile(r"^std::(option::Option|result::Result)::<.*>::(\w+)$")
ANY_CTX = re.compile(r"^anyhow::context::<impl anyhow::Context<.*> for std::(option::Option|result::Result)<.*>>::(context|with_context)$")


def model(E, S, ev):
    p = ev.p
    env = S.env
    args = ev.args
    if ev.target is None:
        return None
    done = lambda v: deliver_all(E, [(S, v)], ev)
    # ---- locks
    L = LOCKS.get(p)
    if L is not None:
        return lock(E, S, ev, L)
    m = OR.match(p)
    if m:
        r = option_result(E, S, ev, m.group(1) == "option::Option", m.group(2))
        if r is not None:
            return r
    m = ANY_CTX.match(p)
    if m:
        isopt = m.group(1) == "option::Option"
        out = []
        for (s, var, pay) in E.cases(S, args[0]):
            good = (var == 1) if isopt else (var == 0)
            if good:
                out += deliver_all(E, [(s, ok(pay))], ev)
            else:
                e = E.fresh(s, "ctx", pay.tags if not isopt else EMPTY, ("err", ev.where()))
                out += deliver_all(E, [(s, err(e))], ev)
        return out
    if p.startswith("std::cmp::Ordering::is_") and len(args) == 1:
        last = p.rsplit("::", 1)[-1]
        x = E.load(env, args[0])
        op = {"is_eq": "Eq", "is_ne": "Ne", "is_lt": "Lt", "is_le": "Le", "is_gt": "Gt", "is_ge": "Ge"}.get(last)
        if op:
            if x.k == "agg" and x.a[1] is not None:
                n = x.a[1] - 1
                return done(B({"Eq": n == 0, "Ne": n != 0, "Lt": n < 0, "Le": n <= 0, "Gt": n > 0, "Ge": n >= 0}[op]))
            return done(E.binop(S, op, mk("discr", x), I(0)))
    if p.endswith("std::ops::Try>::branch") or p == "std::ops::Try::branch":
        out = []
        x = args[0]
        isopt = p.startswith("<std::option::Option")
        name = OPT if isopt else RES
        for (s, var, pay) in E.cases(S, x):
            if (var == 1) if isopt else (var == 0):
                v = agg(CF, 0, (pay,))
            else:
                v = agg(CF, 1, (NONE if isopt else err(pay),))
            out += deliver_all(E, [(s, v)], ev)
        return out
    if "std::ops::FromResidual<" in p and p.endswith("::from_residual"):
        x = args[0]
        if "option::Option" in p.split(" as ")[0]:
            return done(NONE)
        out = []
        for (s, var, pay) in E.cases(S, x):
            if var == 1:
                out += deliver_all(E, [(s, err(pay))], ev)
        return out
    if p.endswith("std::ops::Try>::from_output"):
        return done(some(args[0]) if p.startswith("<std::option::Option") else ok(args[0]))
    # ---- closures
    if ev.q in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") or p.endswith("::call_once") or p.endswith("::call_mut"):
        if len(args) == 2:
            tp = E.load(env, args[1])
            a = list(tp.a[2]) if tp.k == "agg" and tp.a[0] == "()" else [tp]
            r = E.invoke(S, args[0], a, ev.dest, ev.target, ("raw",), "call")
            if r is not None:
                return r
            return None
    # ---- ownership
    if p in ("std::mem::drop", "core::mem::drop"):
        v = args[0]
        ty = ev.ta[0] if ev.ta else None
        if ty is not None and ty.k == "param":
            ty = None
        root = ("T", S.frame.fid, S.bb, "drop")
        env.mem[root] = v
        E.rule.on_drop(S, v, ty, root, ())
        todo = E.drop_list(S, root, (), ty, v)
        if v.own:
            E.release(S, v)
        if todo:
            return E.run_drops(S, tuple(todo), ev.target)
        S.env.mem.pop(root, None)
        return done(UNIT)
    if p in ("std::mem::forget",):
        return done(UNIT)
    if p == "std::mem::replace":
        r, q = E.deref(args[0])
        old = E.read(env, r, q)
        E.write(env, r, q, args[1])
        E.rule.on_store(S, r, q, args[1], ev.body, ev.span)
        return done(old)
    if p == "std::mem::take":
        r, q = E.deref(args[0])
        old = E.read(env, r, q)
        nv = NONE if ev.ta and ev.ta[0].d == OPT else E.fresh(S, "default")
        E.write(env, r, q, nv)
        E.rule.on_store(S, r, q, nv, ev.body, ev.span)
        return done(old)
    if p == "std::mem::swap":
        r1, q1 = E.deref(args[0])
        r2, q2 = E.deref(args[1])
        a, b = E.read(env, r1, q1), E.read(env, r2, q2)
        E.write(env, r1, q1, b)
        E.write(env, r2, q2, a)
        E.rule.on_store(S, r1, q1, b, ev.body, ev.span)
        E.rule.on_store(S, r2, q2, a, ev.body, ev.span)
        return done(UNIT)
    if p in ("std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new", "std::boxed::Box::<T>::pin"):
        n = E.fresh(S, "alloc")
        root = ("B", n.a[0])
        env.mem[root] = args[0]
        return done(mk("ref", root, (), 1 if "Box" in p else 0))
    if p == "std::boxed::Box::<T>::new_uninit":
        n = E.fresh(S, "alloc")
        root = ("B", n.a[0])
        env.mem[root] = mk("u", "uninit", None)
        return done(mk("ref", root, (), 1))
    if p == "std::boxed::box_assume_init_into_vec_unsafe":
        v = E.load(env, args[0])
        while v.k == "ov":
            v = v.a[1][0][1]
        return done(v)
    if p in ("parking_lot::lock_api::Mutex::<R, T>::new", "std::sync::Mutex::<T>::new", "std::sync::RwLock::<T>::new", "parking_lot::lock_api::RwLock::<R, T>::new"):
        return done(agg("$mutex", None, (args[0],)))
    last = split_name(p)
    if last in ("deref", "deref_mut") and ("std::ops::Deref" in p):
        a = args[0]
        if IDENT_DEREF.match(p):
            return done(a)
        x = E.read(env, *E.deref(a))
        # references to guards: && etc.
        while x.k == "ref" and x.a[0][0] not in ("B",) and E.read(env, x.a[0], x.a[1]).k == "guard":
            x = E.read(env, x.a[0], x.a[1])
        if x.k == "guard":
            mut = 1 if (last == "deref_mut") else 0
            return done(mk("ref", x.a[3], x.a[4] + (("$data",),), mut))
        if x.k == "ref":
            return done(mk("ref", x.a[0], x.a[1], 1 if last == "deref_mut" else 0))
        if x.k in ("s", "b"):
            return done(x)
        return done(mk("ref", ("D", x), (), 1 if last == "deref_mut" else 0))
    if last in ("index", "index_mut") and "std::ops::Index" in p and len(args) == 2:
        a = args[0]
        i = args[1]
        r, q = E.deref(a)
        x = E.read(env, r, q)
        while x.k == "ref":
            r, q = x.a[0], x.a[1]
            x = E.read(env, r, q)
        if i.k == "i" and x.k == "agg" and x.a[0] == "[]":
            return done(mk("ref", r, q + (("ix", i.a[0]),), 1 if last == "index_mut" else 0))
        if "HashMap" in p:
            return None
        if ev.ta and len(ev.ta) > 1 and "Range" in ev.ta[-1].s or "Range" in (ev.argty(1).s if ev.ops else ""):
            # a sub-slice: a view of the same object
            if i.k == "agg" and i.a[0].endswith("RangeFull"):
                return done(a)
            return done(mk("ref", r, q + (("ix", i),), 1 if last == "index_mut" else 0))
        return done(mk("ref", r, q + (("ix", i) if i.k != "i" else ("ix", i.a[0]),), 1 if last == "index_mut" else 0))
    if last in ("split_at", "split_at_mut") and "slice" in p and len(args) == 2:
        r, q = E.deref(args[0])
        x = E.read(env, r, q)
        while x.k == "ref":
            r, q = x.a[0], x.a[1]
            x = E.read(env, r, q)
        mut = 1 if last == "split_at_mut" else 0
        return done(agg("()", None, (mk("ref", r, q + (("ix", agg("std::ops::RangeTo", None, (args[1],))),), mut), mk("ref", r, q + (("ix", agg("std::ops::RangeFrom", None, (args[1],))),), mut))))
    if last in ("into_iter", "iter", "iter_mut") and ITER_IDENT.match(p):
        x = E.load(env, args[0])
        if x.k == "agg" and x.a[0] == "[]" and len(x.a[2]) <= 24:
            isref = args[0].k == "ref" or last != "into_iter"
            return done(agg("$iter", None, (x, mk("u", 0, "pos"), B(isref))))
        if x.k == "agg" and x.a[0] == OPT:
            return done(agg("$iter", None, (agg("[]", None, x.a[2]), mk("u", 0, "pos"), FALSE)))
        return done(args[0] if x.k == "agg" and x.a[0] == "$iter" else mk("op", "iter", x))
    if last == "next" and ev.trait == "std::iter::Iterator" and args:
        r, q = E.deref(args[0])
        it = E.read(env, r, q)
        if it.k == "agg" and it.a[0] == "$iter":
            arr, pos, isref = it.a[2]
            if pos.k != "u" or arr.k != "agg":
                return None
            n = pos.a[0]
            if n < len(arr.a[2]):
                E.write(env, r, q, agg("$iter", None, (arr, mk("u", n + 1, "pos"), isref)))
                x = arr.a[2][n]
                return done(some(mk("ref", ("K", x), (), 0) if isref is TRUE else x))
            return done(NONE)
        return None
    if p in ("std::thread::spawn", "std::thread::Builder::spawn", "std::thread::scoped::<impl std::thread::Builder>::spawn_scoped", "std::thread::Scope::<'scope, 'env>::spawn", "std::thread::Builder::spawn_scoped"):
        for a in args:
            c = E.closure_of(S, a)
            if c is not None and c.k == "clo":
                E.spawn(S, ev, c)
        ret = E.ext_result(S, ev)
        return done(ret)
    if p == "std::thread::scope":
        c = args[0]
        r = E.invoke(S, c, [E.fresh(S, "scope")], ev.dest, ev.target, ("raw",), "scope")
        return r
    if MAPRE.match(p):
        r = mapmodel(E, S, ev, last)
        if r is not None:
            return r
    # ---- plain values
    v = pure(E, S, p, args)
    if v is not None:
        if v.k == "ref" and v.a[0][0] in ("L", "B") and p in COPY:
            pass
        return done(v)
    if ev.trait == "std::clone::Clone" and ev.q == "std::clone::Clone::clone":
        return done(E.read(env, *E.deref(args[0])))
    if ev.trait in ("std::cmp::PartialEq",) and last in ("eq", "ne") and len(args) == 2:
        a, b = E.load(env, args[0], 4), E.load(env, args[1], 4)
        r = eqv(E, env, a, b)
        return done(r if last == "eq" else neg(r))
    if ev.trait in ("std::convert::Into",) and last == "into":
        return done(E.load(env, args[0]))
    return None


MAPRE = re.compile(r"^std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)::<")


def map_place(E, S, a):
    r, q = E.deref(a)
    x = E.read(S.env, r, q)
    n = 0
    while x.k == "ref" and n < 4:
        r, q = x.a[0], x.a[1]
        x = E.read(S.env, r, q)
        n += 1
    return r, q, x


def mapmodel(E, S, ev, last):
    """lookups of one key in one version of a map agree with each other"""
    if last not in ("get", "get_mut", "contains_key", "contains", "remove", "insert") or len(ev.args) < 2:
        return None
    r, q, m = map_place(E, S, ev.args[0])
    key = E.load(S.env, ev.args[1])
    look = mk("op", "mapget", m, key)
    if look.depth > 12:
        return None
    d = mk("discr", look)
    E.discr_n.setdefault(d, (OPT, (0, 1)))
    if last in ("get", "get_mut"):
        return deliver_all(E, [(S, look)], ev)
    if last in ("contains_key", "contains"):
        v = E.binop(S, "Eq", d, I(1))
        k = E.known(S.env, v)
        return deliver_all(E, [(S, v if k is None else I(k))], ev)
    if "Set" in p_of(ev):
        return None
    known = E.known(S.env, d)
    E.consume(S, ev)
    tags = E.arg_tags(S, ev) | m.tags
    E.write(S.env, r, q, E.fresh(S, "map", frozenset(t for t in tags if not (isinstance(t, tuple) and t[0] == "own")), ("map", last)))
    old = E.fresh(S, "old", frozenset(t for t in tags if not (isinstance(t, tuple) and t[0] == "own")), ("old", last, ev.where()))
    outs = []
    if known in (None, 0):
        s0 = S.fork() if known is None else S
        outs.append((s0, NONE))
    if known in (None, 1):
        outs.append((S, some(old)))
    return deliver_all(E, outs, ev)


def p_of(ev):
    return ev.p


def lock(E, S, ev, L):
    ti, kind, form = L
    cls = ev.ta[ti].s if ti < len(ev.ta) else "?"
    a = ev.args[0]
    root, path = E.deref(a)
    # lock_arc takes &Arc<Mutex>
    if ev.p.endswith("_arc") or "_arc_" in ev.p:
        x = E.read(S.env, root, path)
        root, path = E.deref(x)
    n = E.symid((S.frame.key, S.bb, "lock"))
    g = mk("guard", cls, kind, n, root, path)
    # a guard from a previous round of the same loop
    out = []
    if form == "plain":
        E.acquire(S, g, ev)
        return deliver_all(E, [(S, g)], ev)
    if form == "result":
        E.acquire(S, g, ev)
        return deliver_all(E, [(S, ok(g))], ev)
    s2 = S.fork()
    E.acquire(s2, g, ev, True)
    good, bad = (some(g), NONE) if form == "option" else (ok(g), err(E.fresh(S, "wouldblock")))
    f = getattr(E.rule, "on_trylock", None)
    if f:
        f(S, g, ev, False)
        f(s2, g, ev, True)
    return deliver_all(E, [(S, bad), (s2, good)], ev)


def deref_payload(E, S, v):
    return v


def option_result(E, S, ev, isopt, name):
    """case-split models of the Option / Result combinators"""
    args = ev.args
    env = S.env
    GOOD = 1 if isopt else 0
    cons = some if isopt else ok

    def bad(pay):
        return NONE if isopt else err(pay)
    byref = name in ("is_some", "is_none", "is_ok", "is_err", "as_ref", "as_mut", "as_deref", "as_deref_mut", "take", "replace", "insert", "get_or_insert_with", "get_or_insert", "iter", "is_none_or_ref", "as_slice")
    out = []
    if byref:
        r, q = E.deref(args[0])
        x = E.read(env, r, q)
        while x.k == "ref":
            r, q = x.a[0], x.a[1]
            x = E.read(env, r, q)
        if name in ("is_some", "is_none", "is_ok", "is_err"):
            want = GOOD if name in ("is_some", "is_ok") else 1 - GOOD
            if x.k == "agg" and x.a[1] is not None:
                return deliver_all(E, [(S, B(x.a[1] == want))], ev)
            d = mk("discr", x)
            E.discr_n.setdefault(d, (OPT if isopt else RES, (0, 1)))
            v = E.binop(S, "Eq", d, I(want))
            k = E.known(env, v)
            return deliver_all(E, [(S, v if k is None else I(k))], ev)
        if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "as_slice"):
            mut = 1 if "mut" in name else 0
            for (s, var, pay) in E.cases(S, x):
                if var == GOOD:
                    if name.startswith("as_deref") and pay.k == "ref":
                        v = cons(pay)
                    elif pay.k in ("s", "b"):
                        v = cons(pay)
                    else:
                        v = cons(mk("ref", r, q + (("v", var), ("f", 0, "0")), mut))
                else:
                    v = NONE if isopt else err(mk("ref", r, q + (("v", var), ("f", 0, "0")), mut))
                out += deliver_all(E, [(s, v)], ev)
            return out
        if name == "take":
            E.write(env, r, q, NONE)
            E.rule.on_store(S, r, q, NONE, ev.body, ev.span)
            return deliver_all(E, [(S, x)], ev)
        if name == "replace":
            E.write(env, r, q, some(args[1]))
            E.rule.on_store(S, r, q, some(args[1]), ev.body, ev.span)
            return deliver_all(E, [(S, x)], ev)
        if name == "insert":
            if x.own:
                E.release(S, x)
            E.write(env, r, q, some(args[1]))
            E.rule.on_store(S, r, q, some(args[1]), ev.body, ev.span)
            return deliver_all(E, [(S, mk("ref", r, q + (("v", 1), ("f", 0, "0")), 1))], ev)
        return None
    x = args[0]
    if x.k == "ref" and name in ("cloned", "copied"):
        x = E.load(env, x)
    two = {"map", "map_err", "and_then", "or_else", "unwrap_or_else", "ok_or_else", "is_some_and", "is_ok_and", "is_err_and", "is_none_or", "filter", "inspect", "inspect_err", "map_or", "map_or_else", "unwrap_or", "unwrap_or_default", "ok_or", "or", "and", "xor", "ok", "err", "unwrap", "expect", "unwrap_err", "expect_err", "cloned", "copied", "flatten", "zip", "transpose", "unwrap_unchecked"}
    if name not in two:
        return None
    if name in ("or", "unwrap_or") and not (x.k == "agg" and x.a[1] is not None) and E.known(env, mk("discr", x)) is None and not x.own and not args[1].own:
        return deliver_all(E, [(S, mk("op", name, x, args[1]))], ev)
    if name == "unwrap_or_default" and not (x.k == "agg" and x.a[1] is not None) and E.known(env, mk("discr", x)) is None and not x.own:
        return deliver_all(E, [(S, mk("op", name, x))], ev)
    if name == "transpose":
        # Option<Result<T>> <-> Result<Option<T>>
        for (s, var, pay) in E.cases(S, x):
            if "option" in ev.p.split("<")[0]:
                if var == 0:
                    out += deliver_all(E, [(s, ok(NONE))], ev)
                else:
                    for (s2, v2, p2) in E.cases(s, pay):
                        out += deliver_all(E, [(s2, ok(some(p2)) if v2 == 0 else err(p2))], ev)
            else:
                if var == 1:
                    out += deliver_all(E, [(s, some(err(pay)))], ev)
                else:
                    for (s2, v2, p2) in E.cases(s, pay):
                        out += deliver_all(E, [(s2, some(ok(p2)) if v2 == 1 else NONE)], ev)
        return out
    for (s, var, pay) in E.cases(S, x):
        good = var == GOOD
        D = lambda v: deliver_all(E, [(s, v)], ev)
        saved = lambda v: ("saved", save(E, s, "sv", v))
        if name == "map":
            out += call_clo(E, s, ev, args[1], [pay], ("wrap", OPT if isopt else RES, GOOD), "map") if good else D(bad(pay))
        elif name == "map_err":
            out += D(x if x.k == "agg" else cons(pay)) if good else call_clo(E, s, ev, args[1], [pay], ("wrap", RES, 1), "map_err")
        elif name == "and_then":
            out += call_clo(E, s, ev, args[1], [pay], ("raw",), "and_then") if good else D(bad(pay))
        elif name == "or_else":
            out += D(cons(pay)) if good else call_clo(E, s, ev, args[1], [] if isopt else [pay], ("raw",), "or_else")
        elif name == "unwrap_or_else":
            out += D(pay) if good else call_clo(E, s, ev, args[1], [] if isopt else [pay], ("raw",), "uoe")
        elif name == "ok_or_else":
            out += D(ok(pay)) if good else call_clo(E, s, ev, args[1], [], ("wrap", RES, 1), "ooe")
        elif name in ("is_some_and", "is_ok_and"):
            out += call_clo(E, s, ev, args[1], [pay], ("raw",), "isa") if good else D(FALSE)
        elif name == "is_none_or":
            out += call_clo(E, s, ev, args[1], [pay], ("raw",), "ino") if good else D(TRUE)
        elif name == "is_err_and":
            out += D(FALSE) if good else call_clo(E, s, ev, args[1], [pay], ("raw",), "isa")
        elif name == "filter":
            if not good:
                out += D(NONE)
            else:
                tag = save(E, s, "fl", some(pay))
                save(E, s, "flp", pay)
                a = mk("ref", ("T", s.frame.fid, s.bb, "flp"), (), 0)
                out += call_clo(E, s, ev, args[1], [a], ("boolsel", tag), "filter")
        elif name in ("inspect", "inspect_err"):
            if good == (name == "inspect"):
                tag = save(E, s, "in", cons(pay) if good else bad(pay))
                save(E, s, "inp", pay)
                a = mk("ref", ("T", s.frame.fid, s.bb, "inp"), (), 0)
                out += call_clo(E, s, ev, args[1], [a], ("saved", tag), "inspect")
            else:
                out += D(cons(pay) if good else bad(pay))
        elif name == "map_or":
            out += call_clo(E, s, ev, args[2], [pay], ("raw",), "mo") if good else D(args[1])
        elif name == "map_or_else":
            out += call_clo(E, s, ev, args[2], [pay], ("raw",), "mo") if good else call_clo(E, s, ev, args[1], [] if isopt else [pay], ("raw",), "moe")
        elif name == "unwrap_or":
            out += D(pay if good else args[1])
        elif name == "unwrap_or_default":
            if good:
                out += D(pay)
            else:
                ty = ev.ta[0] if ev.ta else None
                v = None
                if ty is not None:
                    if ty.k in ("bool",):
                        v = FALSE
                    elif ty.k in ("int", "uint"):
                        v = I(0)
                    elif ty.d == OPT:
                        v = NONE
                    elif ty.d == "std::string::String":
                        v = mk("s", "")
                out += D(v if v is not None else mk("u", "default", ty.s if ty is not None else None))
        elif name == "ok_or":
            out += D(ok(pay) if good else err(args[1]))
        elif name == "or":
            out += D(cons(pay) if good else args[1])
        elif name == "and":
            out += D(args[1] if good else bad(pay))
        elif name == "ok":
            out += D(some(pay) if good else NONE)
        elif name == "err":
            out += D(NONE if good else some(pay))
        elif name in ("unwrap", "expect", "unwrap_unchecked"):
            if good:
                out += D(pay)
            else:
                f = getattr(E.rule, "on_unwrap_fail", None)
                if f:
                    f(s, ev, pay)
        elif name in ("unwrap_err", "expect_err"):
            if not good:
                out += D(pay)
        elif name in ("cloned", "copied"):
            out += D(cons(E.load(s.env, pay, 1)) if good else bad(pay))
        elif name == "flatten":
            out += D(pay if good else NONE)
        else:
            return None
    return out


# ---- externals taking closures: each closure is called any number of times (0, 1, 2 explored)
def ext_closures(E, S, ev, clos):
    """fork: closure called / not called; afterwards an unknown result"""
    key = ("extev", ev.p)
    tags = E.arg_tags(S, ev)
    out = []
    s0 = S.fork()
    # zero calls
    E.havoc_mut(s0, ev)
    ret = E.ext_result(s0, ev)
    E.rule.on_result(s0, ev, ret)
    out += E.deliver(s0, ev.dest, ev.target, ret)
    for ci in clos:
        s = S.fork()
        c = E.closure_of(s, ev.args[ci])
        b = E.F.bodies.get(c.a[0])
        if b is None:
            continue
        save(E, s, ("ext", ci), ev.args[ci])
        plain = frozenset(t for t in tags if not (isinstance(t, tuple) and t[0] == "own"))
        save(E, s, ("extt", ci), E.fresh(s, ("ext", ci, "t"), plain))
        a = [E.fresh(s, ("exa", ci, i), plain) for i in range(max(0, b.argc - 1))]
        r = E.invoke(s, ev.args[ci], a, ev.dest, ev.target, ("ext", ci, 0, _evkey(ev)), ("ext", ci, 0))
        if r is not None:
            out += r
    return out


EVS = {}


def _evkey(ev):
    k = (ev.p, ev.body.p, ev.bb)
    EVS[k] = (ev.p, ev.span, ev.body)
    return k


def ext_continue(E, S, fr, v, c):
    _, ci, n, evk = c
    tag = ("T", S.frame.fid, fr.callbb, ("ext", ci))
    clov = S.env.mem.get(tag)
    given = S.env.mem.get(("T", S.frame.fid, fr.callbb, ("extt", ci)))
    given = given.tags if given is not None else EMPTY
    out = []
    if n == 0 and clov is not None:
        s = S.fork()
        x = E.closure_of(s, clov)
        b = E.F.bodies.get(x.a[0]) if x is not None and x.k == "clo" else None
        if b is not None:
            a = [E.fresh(s, ("exb", ci, i), x.tags | given) for i in range(max(0, b.argc - 1))]
            r = E.invoke(s, clov, a, fr.dest, fr.target, ("ext", ci, 1, evk), ("ext", ci, 1))
            if r is not None:
                out += r
    S.env.mem.pop(tag, None)
    S.env.mem.pop(("T", S.frame.fid, fr.callbb, ("extt", ci)), None)
    tags = v.tags | (given - (getattr(E.rule, "exact_tags", None) or EMPTY))
    ret = E.fresh(S, ("extret", ci), tags, ("call", evk[0], "%s bb%s" % (evk[1], evk[2])))
    p, span, body = EVS[evk]
    if fr.dest is not None and len(fr.dest) == 1:
        ty = S.frame.body.lty(fr.dest[0])
        if ty.k == "tuple" and not ty.args:
            ret = UNIT
    out += E.deliver(S, fr.dest, fr.target, ret)
    return out
