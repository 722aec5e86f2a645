"""Semantics of the standard-library and runtime functions the analysed code relies on.

Each model maps a call event to its possible (result, state) outcomes; None means "treat as opaque".
Smart pointers (Arc, Box through Deref, guards) are transparent, conversions that keep the value are identities.
"""
from .terms import *

TABLE = {}
PREFIX = []


def model(*paths):
    def deco(fn):
        for p in paths:
            TABLE[p] = fn
        return fn

    return deco


def one(v, c):
    return [(v, c.st)]


def pure(path, *args):
    return T("pure", path, args)


# ---------------------------------------------------------------- identities
def ident(eng, c):
    return [(c.args[0], c.st)]


def ident_value(eng, c):
    """Takes a reference, returns an equal owned value."""
    return [(eng.strip_ptr(c.st, c.args[0]), c.st)]


def deref1(eng, c):
    """&T -> T clone"""
    a = c.args[0]
    v = eng.deref(c.st, a)
    return [(v, c.st)]


for p in (
    "core::pin::Pin::new",
    "core::pin::Pin::new_unchecked",
    "core::pin::Pin::as_mut",
    "core::pin::Pin::into_inner",
    "core::future::into_future::IntoFuture::into_future",
    "<param:F as core::future::into_future::IntoFuture>::into_future",
    "core::hint::must_use",
    "alloc::rcs::arc::Arc::new",
    "alloc::sync::Arc::new",
    "alloc::rc::Rc::new",
    "core::convert::identity",
    "core::hint::black_box",
    "core::convert::From::from",
    "core::convert::Into::into",
    "<param:T as core::convert::From<param:T>>::from",
    "<param:T as core::convert::Into<param:U>>::into",
    "<alloc::rcs::arc::Arc as core::ops::deref::Deref>::deref",
    "<alloc::rcs::arc::Arc<param:T, param:A> as core::convert::AsRef<param:T>>::as_ref",
    "<alloc::rcs::arc::Arc<param:T, alloc::alloc::Global> as core::convert::From<param:T>>::from",
    "<alloc::string::String as core::ops::deref::Deref>::deref",
    "<alloc::vec::Vec as core::ops::deref::Deref>::deref",
    "<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut",
    "<core::pin::Pin as core::ops::deref::DerefMut>::deref_mut",
    "<core::pin::Pin as core::ops::deref::Deref>::deref",
    "<rkyv::util::aligned_vec::AlignedVec as core::ops::deref::Deref>::deref",
    "<std::path::PathBuf as core::ops::deref::Deref>::deref",
    "alloc::string::String::as_str",
    "alloc::vec::Vec::as_slice",
    "alloc::vec::Vec::as_mut_slice",
    "alloc::string::String::as_bytes",
    "alloc::string::String::into_bytes",
    "str::as_bytes",
    "core::convert::AsRef::as_ref",
    "core::borrow::Borrow::borrow",
    "alloc::vec::Vec::into_boxed_slice",
):
    TABLE[p] = ident

for p in (
    "[param:T]::to_vec",
    "[T]::to_vec",
    "alloc::slice::to_vec",
    "<param:T as alloc::borrow::ToOwned>::to_owned",
    "<str as alloc::borrow::ToOwned>::to_owned",
    "alloc::borrow::ToOwned::to_owned",
    "core::option::Option::copied",
):
    TABLE[p] = ident_value
TABLE.pop("core::option::Option::copied")


@model("<str as alloc::string::ToString>::to_string")
def _str_to_string(eng, c):
    return ident_value(eng, c)


@model("<param:T as alloc::string::ToString>::to_string", "alloc::string::ToString::to_string")
def _to_string(eng, c):
    ty = c.fn.get("self", "") or (c.argtys[0] if c.argtys else "")
    v = eng.strip_ptr(c.st, c.args[0])
    while ty.startswith("&"):
        ty = ty[1:].lstrip()
    if ty in ("str", "alloc::string::String") or v.op == "str":
        return [(v, c.st)]
    return [(T("disp", v), c.st)]


def _clone(eng, c):
    a = c.args[0]
    if a.op == "ref" or a.op == "addr":
        v = eng.deref(c.st, a)
    else:
        v = eng.deref(c.st, a)
    # cloning a pointer-like value (Arc) may go through several levels; the value itself is kept
    return [(v, c.st)]


@model("core::clone::Clone::clone")
def _clone_generic(eng, c):
    if c.path in eng.prog.bodies and c.path != c.decl:
        b = eng.prog.bodies[c.path]
        # a derived Clone is an identity; a hand-written one is analysed
        if not b.raw.get("derived") and not _is_derived(eng, b):
            return None
    return _clone(eng, c)


def _is_derived(eng, b):
    sp = b.span
    return len(sp) > 2 and any("Clone" in x or "derive" in x for x in sp[2])


def _clone_any(eng, c):
    return _clone(eng, c)


@model("<core::option::Option as core::clone::Clone>::clone_from", "<std::collections::hash::set::HashSet as core::clone::Clone>::clone_from", "core::clone::Clone::clone_from")
def _clone_from(eng, c):
    v = eng.deref(c.st, c.args[1])
    eng.write_ptr(c.st, c.args[0], v, c.frame, c.block)
    return one(UNIT, c)


# ---------------------------------------------------------------- boxes
@model("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def _box_new(eng, c):
    return one(T("agg", "alloc::boxed::Box", "Box", 0, (c.args[0],)), c)


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec")
def _box_vec(eng, c):
    v = c.args[0]
    if v.op == "agg" and v.args[0].endswith("::Box"):
        v = v.args[3][0]
    if v.op == "mod":
        v = v.args[2]
    return one(v, c)


@model("alloc::boxed::Box::new_uninit")
def _box_uninit(eng, c):
    return one(T("agg", "alloc::boxed::Box", "Box", 0, (T("uninit"),)), c)


@model("core::future::get_context")
def _get_context(eng, c):
    return one(T("cst", "cx", "", ""), c)


# ---------------------------------------------------------------- locks and guards
LOCKS = (
    "lock_api::rwlock::RwLock::read",
    "lock_api::rwlock::RwLock::write",
    "lock_api::rwlock::RwLock::upgradable_read",
    "lock_api::mutex::Mutex::lock",
    "tokio::sync::rwlock::RwLock::read",
    "tokio::sync::rwlock::RwLock::write",
    "tokio::sync::mutex::Mutex::lock",
    "std::sync::poison::rwlock::RwLock::read",
    "std::sync::poison::rwlock::RwLock::write",
    "std::sync::poison::mutex::Mutex::lock",
    "std::sync::rwlock::RwLock::read",
    "std::sync::rwlock::RwLock::write",
    "std::sync::mutex::Mutex::lock",
    "tokio::sync::rwlock::RwLock::try_read",
    "tokio::sync::rwlock::RwLock::try_write",
    "lock_api::rwlock::RwLock::try_read",
    "lock_api::rwlock::RwLock::try_write",
)


def lock_place(eng, st, a):
    """The place of the lock an acquisition refers to."""
    n = 6
    while n and a.op == "ref":
        v = eng.load(st, a.args[0], a.args[1])
        if v.op in ("ref", "addr"):
            a = v
            n -= 1
            continue
        if v.op in ("agg", "top", "moved", "upd", "mod"):
            return T("place", T("ref", a.args[0], a.args[1]))
        return v
    if a.op == "addr":
        return a.args[0]
    return T("deref", a)


def guard_of(t):
    """The lock acquisition a guard value stems from."""
    n = 6
    while n and t.op in ("fld", "as", "deref", "addr"):
        if t.op == "deref":
            break
        t = t.args[0]
        n -= 1
    if t.op == "guard":
        return t
    return None


def _lock(eng, c):
    pl = lock_place(eng, c.st, c.args[0])
    inner = T("locked", pl)
    st = c.st
    for k in [k for k in st.heap if any(x is inner for x in walk(k))]:
        del st.heap[k]
    g = eng.fresh(st, c.path, (pl,), c.frame, c.block, "guard")
    if "::try_" in c.path:
        s2 = st.copy()
        eng.ck.on_lock(eng, st, g, inner, c.frame, c.block)
        return [(ok(g), st), (err(T("cst", "TryLockError", "", "")), s2)]
    if not c.path.startswith("tokio::") or "::blocking_" in c.path:
        eng.ck.on_lock(eng, st, g, inner, c.frame, c.block)
    if c.path.startswith("std::"):
        return one(ok(g), c)
    return one(g, c)


for p in LOCKS:
    TABLE[p] = _lock


def _guard_deref(eng, c):
    a = c.args[0]
    v = eng.strip_ptr(c.st, a)
    g = guard_of(v)
    if g is not None:
        return one(T("addr", T("locked", g.args[1][0])), c)
    return one(T("addr", T("deref", v)), c)


for n in ("lock_api::mutex::MutexGuard", "lock_api::rwlock::RwLockReadGuard", "lock_api::rwlock::RwLockWriteGuard",
          "tokio::sync::rwlock::read_guard::RwLockReadGuard", "tokio::sync::rwlock::write_guard::RwLockWriteGuard",
          "tokio::sync::mutex::MutexGuard"):
    TABLE[f"<{n} as core::ops::deref::Deref>::deref"] = _guard_deref
    TABLE[f"<{n} as core::ops::deref::DerefMut>::deref_mut"] = _guard_deref


def _deref_generic(eng, c):
    """Deref of an unknown smart pointer: transparent."""
    return [(c.args[0], c.st)]


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _deref(eng, c):
    if c.path in eng.prog.bodies:
        if "LazyStatic" in c.path or "__Deref" in c.path or "lazy_static" in c.path:
            return None
        return None
    return _deref_generic(eng, c)


# ---------------------------------------------------------------- Try / Option / Result
@model("core::ops::try_trait::Try::branch", "<core::result::Result as core::ops::try_trait::Try>::branch", "<core::option::Option as core::ops::try_trait::Try>::branch")
def _branch(eng, c):
    v = c.args[0]
    ty = c.argtys[0] if c.argtys else ""
    adt = OPTION if ty.startswith(OPTION) or (v.op == "agg" and v.args[0] == OPTION) else RESULT
    out = []
    for n, s in eng.fork_variant(c.st, v, adt, c.frame, c.block):
        if n == "Ok" or n == "Some":
            out.append((agg(CF, "Continue", 0, eng.payload(s, v, n)), s))
        elif n == "Err":
            out.append((agg(CF, "Break", 1, err(eng.payload(s, v, n))), s))
        else:
            out.append((agg(CF, "Break", 1, NONE), s))
    return out


@model(
    "core::ops::try_trait::FromResidual::from_residual",
    "<core::result::Result<param:T, param:F> as core::ops::try_trait::FromResidual<core::result::Result<!, param:E>>>::from_residual",
    "<core::option::Option<param:T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual",
)
def _from_residual(eng, c):
    return one(c.args[0], c)


def _opt(eng, c, i=0):
    """The variants of an Option passed by value."""
    return eng.fork_variant(c.st, c.args[i], OPTION, c.frame, c.block)


def _res(eng, c, i=0):
    return eng.fork_variant(c.st, c.args[i], RESULT, c.frame, c.block)


def cv(eng, c, f, args, s, tag):
    return eng.call_value(f, args, s, c.frame, (c.block, tag), c.span)


@model("core::result::Result::map_err")
def _map_err(eng, c):
    out = []
    for n, s in _res(eng, c):
        x = eng.payload(s, c.args[0], n)
        if n == "Ok":
            out.append((c.args[0] if c.args[0].op != "agg" and False else ok(x), s))
        else:
            out += [(err(r), s2) for r, s2 in cv(eng, c, c.args[1], [x], s, "me")]
    return out


@model("core::result::Result::map")
def _rmap(eng, c):
    out = []
    for n, s in _res(eng, c):
        x = eng.payload(s, c.args[0], n)
        if n == "Ok":
            out += [(ok(r), s2) for r, s2 in cv(eng, c, c.args[1], [x], s, "m")]
        else:
            out.append((err(x), s))
    return out


@model("core::result::Result::and_then")
def _rand(eng, c):
    out = []
    for n, s in _res(eng, c):
        x = eng.payload(s, c.args[0], n)
        if n == "Ok":
            out += cv(eng, c, c.args[1], [x], s, "at")
        else:
            out.append((err(x), s))
    return out


@model("core::result::Result::or_else")
def _ror(eng, c):
    out = []
    for n, s in _res(eng, c):
        x = eng.payload(s, c.args[0], n)
        if n == "Err":
            out += cv(eng, c, c.args[1], [x], s, "oe")
        else:
            out.append((ok(x), s))
    return out


@model("core::result::Result::unwrap_or_else", "core::option::Option::unwrap_or_else")
def _uoe(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        if n in ("Ok", "Some"):
            out.append((eng.payload(s, c.args[0], n), s))
        else:
            a = [eng.payload(s, c.args[0], n)] if n == "Err" else []
            out += cv(eng, c, c.args[1], a, s, "uoe")
    return out


@model("core::result::Result::unwrap_or", "core::option::Option::unwrap_or")
def _uo(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        out.append((eng.payload(s, c.args[0], n) if n in ("Ok", "Some") else c.args[1], s))
    return out


@model("core::result::Result::unwrap_or_default", "core::option::Option::unwrap_or_default")
def _uod(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        out.append((eng.payload(s, c.args[0], n) if n in ("Ok", "Some") else default_of(c.destty), s))
    return out


@model("core::result::Result::unwrap", "core::result::Result::expect", "core::option::Option::unwrap", "core::option::Option::expect")
def _unwrap(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        if n in ("Ok", "Some"):
            out.append((eng.payload(s, c.args[0], n), s))
        else:
            eng.ck.on_panic(eng, s, "unwrap", c)
    return out


@model("core::result::Result::unwrap_err", "core::result::Result::expect_err")
def _unwrap_err(eng, c):
    out = []
    for n, s in _res(eng, c):
        if n == "Err":
            out.append((eng.payload(s, c.args[0], n), s))
        else:
            eng.ck.on_panic(eng, s, "unwrap_err", c)
    return out


@model("core::result::Result::ok")
def _rok(eng, c):
    return [(some(eng.payload(s, c.args[0], n)) if n == "Ok" else NONE, s) for n, s in _res(eng, c)]


@model("core::result::Result::err")
def _rerr(eng, c):
    return [(some(eng.payload(s, c.args[0], n)) if n == "Err" else NONE, s) for n, s in _res(eng, c)]


def _isvar(variant, adt):
    def f(eng, c):
        v = eng.strip_ptr(c.st, c.args[0])
        if v.op == "agg":
            return one(mkbool(v.args[1] == variant), c)
        return one(T("isvar", v, variant, adt), c)

    return f


TABLE["core::option::Option::is_some"] = _isvar("Some", OPTION)
TABLE["core::option::Option::is_none"] = _isvar("None", OPTION)
TABLE["core::result::Result::is_ok"] = _isvar("Ok", RESULT)
TABLE["core::result::Result::is_err"] = _isvar("Err", RESULT)


@model("core::option::Option::is_some_and", "core::option::Option::is_none_or", "core::result::Result::is_ok_and", "core::result::Result::is_err_and")
def _is_and(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    want = {"is_some_and": "Some", "is_none_or": "Some", "is_ok_and": "Ok", "is_err_and": "Err"}[c.path.rsplit("::", 1)[1]]
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        if n == want:
            out += cv(eng, c, c.args[1], [eng.payload(s, c.args[0], n)], s, "isa")
        else:
            out.append((mkbool(c.path.endswith("is_none_or")), s))
    return out


@model("core::option::Option::map")
def _omap(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "Some":
            out += [(some(r), s2) for r, s2 in cv(eng, c, c.args[1], [eng.payload(s, c.args[0], n)], s, "m")]
        else:
            out.append((NONE, s))
    return out


@model("core::option::Option::inspect", "core::result::Result::inspect", "core::result::Result::inspect_err")
def _inspect(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    want = "Err" if c.path.endswith("inspect_err") else ("Ok" if adt == RESULT else "Some")
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        if n == want:
            for r, s2 in cv(eng, c, c.args[1], [T("addr", eng.payload(s, c.args[0], n))], s, "insp"):
                out.append((c.args[0], s2))
        else:
            out.append((c.args[0], s))
    return out


@model("core::option::Option::and_then")
def _oand(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "Some":
            out += cv(eng, c, c.args[1], [eng.payload(s, c.args[0], n)], s, "at")
        else:
            out.append((NONE, s))
    return out


@model("core::option::Option::or_else")
def _oor(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "None":
            out += cv(eng, c, c.args[1], [], s, "oe")
        else:
            out.append((some(eng.payload(s, c.args[0], n)), s))
    return out


@model("core::option::Option::or")
def _oor2(eng, c):
    return [(c.args[1] if n == "None" else some(eng.payload(s, c.args[0], n)), s) for n, s in _opt(eng, c)]


@model("core::option::Option::and")
def _oand2(eng, c):
    return [(NONE if n == "None" else c.args[1], s) for n, s in _opt(eng, c)]


@model("core::option::Option::filter")
def _ofilter(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "None":
            out.append((NONE, s))
            continue
        x = eng.payload(s, c.args[0], n)
        for r, s2 in cv(eng, c, c.args[1], [T("addr", x)], s, "f"):
            for b, s3 in eng.fork_bool(s2, r, c.frame, c.block):
                out.append((some(x) if b else NONE, s3))
    return out


@model("core::bool::then_some", "core::bool::then", "bool::then_some", "bool::then")
def _then(eng, c):
    out = []
    for b, s in eng.fork_bool(c.st, c.args[0], c.frame, c.block):
        if not b:
            out.append((NONE, s))
        elif c.path.endswith("then_some"):
            out.append((some(c.args[1]), s))
        else:
            out += [(some(r), s2) for r, s2 in cv(eng, c, c.args[1], [], s, "then")]
    return out


@model("core::option::Option::zip")
def _ozip(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "None":
            out.append((NONE, s))
            continue
        for n2, s2 in eng.fork_variant(s, c.args[1], OPTION, c.frame, c.block):
            out.append((NONE if n2 == "None" else some(T("tup", (eng.payload(s2, c.args[0], n), eng.payload(s2, c.args[1], n2)))), s2))
    return out


@model("core::option::Option::xor")
def _oxor(eng, c):
    out = []
    for n, s in _opt(eng, c):
        for n2, s2 in eng.fork_variant(s, c.args[1], OPTION, c.frame, c.block):
            out.append((NONE if n == n2 else c.args[0] if n == "Some" else c.args[1], s2))
    return out


@model("core::result::Result::or", "core::result::Result::and")
def _ror(eng, c):
    keep = "Ok" if c.path.endswith("::or") else "Err"
    return [(c.args[0] if n == keep else c.args[1], s) for n, s in eng.fork_variant(c.st, c.args[0], RESULT, c.frame, c.block)]


@model("core::option::Option::ok_or")
def _ook(eng, c):
    return [(ok(eng.payload(s, c.args[0], n)) if n == "Some" else err(c.args[1]), s) for n, s in _opt(eng, c)]


@model("core::option::Option::ok_or_else")
def _ooke(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "Some":
            out.append((ok(eng.payload(s, c.args[0], n)), s))
        else:
            out += [(err(r), s2) for r, s2 in cv(eng, c, c.args[1], [], s, "ooe")]
    return out


@model("core::option::Option::map_or", "core::result::Result::map_or")
def _omo(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        if n in ("Some", "Ok"):
            out += cv(eng, c, c.args[2], [eng.payload(s, c.args[0], n)], s, "mo")
        else:
            out.append((c.args[1], s))
    return out


@model("core::option::Option::map_or_else", "core::result::Result::map_or_else")
def _omoe(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], adt, c.frame, c.block):
        if n in ("Some", "Ok"):
            out += cv(eng, c, c.args[2], [eng.payload(s, c.args[0], n)], s, "mo")
        else:
            out += cv(eng, c, c.args[1], [eng.payload(s, c.args[0], n)] if n == "Err" else [], s, "mo2")
    return out


def _place_payload(eng, s, ptr, variant):
    """A pointer to the payload behind a pointer to an enum."""
    p = eng.ptr_field(s, ptr, ("v", 0, variant)) if ptr.op == "ref" else ptr
    if ptr.op == "ref":
        return T("ref", ptr.args[0], ptr.args[1] + (("v", 0, variant), ("f", 0, "0", "")))
    v = eng.deref(s, ptr)
    if v.op == "agg":
        return T("addr", v.args[3][0])
    return T("addr", eng.place1(s, eng.proj1(s, v, ("v", 0, variant)), ("f", 0, "0", "")))


@model("core::option::Option::as_ref", "core::option::Option::as_mut", "core::result::Result::as_ref", "core::result::Result::as_mut",
       "core::option::Option::as_deref", "core::option::Option::as_deref_mut")
def _as_ref(eng, c):
    adt = RESULT if "Result" in c.path else OPTION
    p = _last_ptr(eng, c.st, c.args[0])
    v = eng.deref(c.st, p)
    out = []
    for n, s in eng.fork_variant(c.st, v, adt, c.frame, c.block):
        if n == "None":
            out.append((NONE, s))
        else:
            x = _place_payload(eng, s, p, n)
            out.append((some(x) if n == "Some" else ok(x) if n == "Ok" else err(x), s))
    return out


def _last_ptr(eng, st, p):
    """Skips pointers to pointers."""
    n = 6
    while n:
        v = eng.deref(st, p)
        if v.op in ("ref", "addr"):
            p = v
            n -= 1
        else:
            return p
    return p


@model("core::option::Option::cloned", "core::option::Option::copied")
def _ocloned(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "None":
            out.append((NONE, s))
        else:
            x = eng.payload(s, c.args[0], n)
            out.append((some(eng.deref(s, x)), s))
    return out


@model("core::option::Option::take")
def _otake(eng, c):
    v = eng.deref(c.st, c.args[0])
    eng.write_ptr(c.st, c.args[0], NONE, c.frame, c.block)
    return one(v, c)


@model("core::option::Option::replace")
def _oreplace(eng, c):
    v = eng.deref(c.st, c.args[0])
    eng.write_ptr(c.st, c.args[0], some(c.args[1]), c.frame, c.block)
    return one(v, c)


@model("core::option::Option::insert")
def _oinsert(eng, c):
    eng.write_ptr(c.st, c.args[0], some(c.args[1]), c.frame, c.block)
    return one(_place_payload(eng, c.st, c.args[0], "Some"), c)


@model("core::option::Option::flatten")
def _oflat(eng, c):
    return [(NONE if n == "None" else eng.payload(s, c.args[0], n), s) for n, s in _opt(eng, c)]


@model("core::option::Option::transpose")
def _otrans(eng, c):
    out = []
    for n, s in _opt(eng, c):
        if n == "None":
            out.append((ok(NONE), s))
        else:
            x = eng.payload(s, c.args[0], n)
            for n2, s2 in eng.fork_variant(s, x, RESULT, c.frame, c.block):
                y = eng.payload(s2, x, n2)
                out.append((ok(some(y)) if n2 == "Ok" else err(y), s2))
    return out


@model("core::result::Result::transpose")
def _rtrans(eng, c):
    out = []
    for n, s in _res(eng, c):
        x = eng.payload(s, c.args[0], n)
        if n == "Err":
            out.append((some(err(x)), s))
        else:
            for n2, s2 in eng.fork_variant(s, x, OPTION, c.frame, c.block):
                out.append((some(ok(eng.payload(s2, x, n2))) if n2 == "Some" else NONE, s2))
    return out


# ---------------------------------------------------------------- comparison
def _cmp_args(eng, c):
    return eng.strip_ptr(c.st, c.args[0]), eng.strip_ptr(c.st, c.args[1])


def _cmpop(op):
    def f(eng, c):
        # hand-written comparison of workspace types: analysed
        if c.path in eng.prog.bodies:
            b = eng.prog.bodies[c.path]
            if not _derived_cmp(b):
                return None
        if c.in_macro("tracing::") or any("tracing" in x or x.startswith(("error", "warn", "info", "debug", "trace", "event")) for x in (c.span[2] if len(c.span) > 2 else [])):
            return one(FALSE, c)
        a, b = _cmp_args(eng, c)
        ty = c.argtys[0].lstrip("&").strip() if c.argtys else ""
        a, b = eng.cmpval(c.st, a), eng.cmpval(c.st, b)
        if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
            yes = {"Eq": "=", "Ne": "<>", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": "=>"}[op]
            return [(mkbool(r in yes), s) for r, s in lexcmp(eng, c, c.st, a, b)]
        return one(eng.compare(c.st, op, a, b, ty), c)

    return f


def lexcmp(eng, c, st, a, b):
    """[(<, = or >, state)]: three-way comparison; tuples by their elements."""
    a, b = eng.cmpval(st, a), eng.cmpval(st, b)
    x, y = a, b
    if x.op == "tup" and y.op == "tup" and len(x.args[0]) == len(y.args[0]):
        res, todo = [], [st]
        for p, q in zip(x.args[0], y.args[0]):
            nxt = []
            for s in todo:
                for r, s2 in lexcmp(eng, c, s, p, q):
                    if r == "=":
                        nxt.append(s2)
                    else:
                        res.append((r, s2))
            todo = nxt
        return res + [("=", s) for s in todo]
    if x.op == "agg" and y.op == "agg" and x.args[0] == y.args[0]:
        if x.args[2] != y.args[2]:
            return [("<" if x.args[2] < y.args[2] else ">", st)]
        if len(x.args[3]) == len(y.args[3]) == 1:
            return lexcmp(eng, c, st, x.args[3][0], y.args[3][0])
        if not x.args[3] and not y.args[3]:
            return [("=", st)]
    if x.op == "int" and y.op == "int":
        return [("<" if x.args[0] < y.args[0] else ">" if x.args[0] > y.args[0] else "=", st)]
    if a is b:
        return [("=", st)]
    out = []
    for rel in "<=>":
        s = st.copy()
        if eng.setrel(s, a, b, rel):
            t = T("cmp", "Eq", *sorted((a, b), key=id), "") if rel == "=" else T("cmp", "Lt", *((a, b) if rel == "<" else (b, a)), "")
            eng.ck.on_assume(eng, s, t, True, c.frame, c.block)
            out.append((rel, s))
    return out


def ordering(rel):
    return agg(ORDERING, *{"<": ("Less", 0), "=": ("Equal", 1), ">": ("Greater", 2)}[rel])


def _derived_cmp(b):
    sp = b.span
    return len(sp) > 2 and any("PartialEq" in x or "PartialOrd" in x or "Ord" in x for x in sp[2])


for nm, op in (("eq", "Eq"), ("ne", "Ne")):
    TABLE["core::cmp::PartialEq::" + nm] = _cmpop(op)
for nm, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    TABLE["core::cmp::PartialOrd::" + nm] = _cmpop(op)


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def _cmp3(eng, c):
    if c.path in eng.prog.bodies and not _derived_cmp(eng.prog.bodies[c.path]):
        return None
    a, b = _cmp_args(eng, c)
    return [(some(ordering(r)) if c.decl.endswith("partial_cmp") else ordering(r), s) for r, s in lexcmp(eng, c, c.st, a, b)]


@model("core::cmp::Ordering::then", "core::cmp::Ordering::then_with")
def _ordthen(eng, c):
    out = []
    for n, s in eng.fork_variant(c.st, c.args[0], ORDERING, c.frame, c.block):
        if n != "Equal":
            out.append((ordering({"Less": "<", "Greater": ">"}[n]), s))
        elif c.path.endswith("_with"):
            out.extend(cv(eng, c, c.args[1], [], s, "then"))
        else:
            out.append((c.args[1], s))
    return out


@model("core::cmp::Ordering::reverse")
def _ordrev(eng, c):
    return [(ordering({"Less": ">", "Greater": "<", "Equal": "="}[n]), s) for n, s in eng.fork_variant(c.st, c.args[0], ORDERING, c.frame, c.block)]


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def _maxmin(eng, c):
    a, b = c.args[0], c.args[1]
    mx = c.path.endswith("max")
    out = []
    for r, s in eng.fork_bool(c.st, eng.compare(c.st, "Lt", a, b, c.argtys[0] if c.argtys else ""), c.frame, c.block):
        out.append(((b if r else a) if mx else (a if r else b), s))
    return out


@model("core::cmp::Ordering::is_lt", "core::cmp::Ordering::is_gt", "core::cmp::Ordering::is_eq", "core::cmp::Ordering::is_le", "core::cmp::Ordering::is_ge", "core::cmp::Ordering::is_ne")
def _ordis(eng, c):
    k = c.path.rsplit("_", 1)[1]
    ok_ = {"lt": ["Less"], "gt": ["Greater"], "eq": ["Equal"], "le": ["Less", "Equal"], "ge": ["Greater", "Equal"], "ne": ["Less", "Greater"]}[k]
    return [(mkbool(n in ok_), s) for n, s in eng.fork_variant(c.st, c.args[0], ORDERING, c.frame, c.block)]


# ---------------------------------------------------------------- memory
@model("core::mem::drop")
def _drop(eng, c):
    eng.drop_value(c.st, c.argtys[0] if c.argtys else "", c.args[0], c.frame, c.block)
    return one(UNIT, c)


@model("core::mem::forget")
def _forget(eng, c):
    return one(UNIT, c)


def default_of(ty):
    if ty.startswith(OPTION):
        return NONE
    if ty.startswith(("alloc::vec::Vec", "std::collections", "alloc::collections")):
        return lcoll(ty)
    return T("cst", "default", ty, "")


@model("core::mem::take")
def _take(eng, c):
    v = eng.deref(c.st, c.args[0])
    ty = c.destty
    n = empty_coll(eng, ty) if eng.ck.tabs and is_table(ty) else default_of(ty)
    eng.write_ptr(c.st, c.args[0], n, c.frame, c.block)
    return one(v, c)


@model("core::mem::replace")
def _replace(eng, c):
    v = eng.deref(c.st, c.args[0])
    eng.write_ptr(c.st, c.args[0], c.args[1], c.frame, c.block)
    return one(v, c)


@model("core::mem::swap")
def _swap(eng, c):
    a, b = eng.deref(c.st, c.args[0]), eng.deref(c.st, c.args[1])
    eng.write_ptr(c.st, c.args[0], b, c.frame, c.block)
    eng.write_ptr(c.st, c.args[1], a, c.frame, c.block)
    return one(UNIT, c)


# ---------------------------------------------------------------- time
UNITS = {"from_secs": 1000, "from_millis": 1, "from_micros": 0.001, "from_mins": 60000, "from_hours": 3600000}


def _dur(eng, c):
    k = c.path.rsplit("::", 1)[1]
    a = c.args[0]
    if a.op == "int" and k in UNITS:
        return one(T("dur", int(a.args[0] * UNITS[k])), c)
    return one(pure(c.path, a), c)


for k in UNITS:
    TABLE["core::time::Duration::" + k] = _dur
TABLE["core::time::Duration::from_secs_f64"] = _dur


@model("core::time::Duration::new")
def _dur_new(eng, c):
    a, b = c.args[:2]
    if a.op == "int" and b.op == "int" and b.args[0] % 1000000 == 0:
        return one(T("dur", a.args[0] * 1000 + b.args[0] // 1000000), c)
    return one(pure(c.path, a, b), c)


@model("tokio::time::interval::interval", "tokio::time::interval::interval_at")
def _interval(eng, c):
    return one(pure("tokio::time::interval::interval", c.args[-1]), c)


@model("tokio::time::interval::Interval::set_missed_tick_behavior", "tokio::time::interval::Interval::reset")
def _interval_set(eng, c):
    return one(UNIT, c)


@model("tokio::time::interval::Interval::tick")
def _tick(eng, c):
    # a wait for at most the period
    i = eng.strip_ptr(c.st, c.args[0])
    d = i.args[1][0] if i.op == "pure" and i.args[0] == "tokio::time::interval::interval" else i
    return one(eng.fresh(c.st, c.path, (d,), c.frame, c.block), c)


PURE = (
    "core::time::Duration::as_secs",
    "core::time::Duration::as_millis",
    "core::time::Duration::as_secs_f64",
    "core::time::Duration::as_nanos",
    "u64::to_le_bytes",
    "usize::to_le_bytes",
    "u64::abs_diff",
    "u64::saturating_sub",
    "u64::saturating_add",
    "u64::wrapping_sub",
    "u64::wrapping_add",
    "u64::checked_sub",
    "u64::checked_add",
    "i64::abs",
    "i128::abs",
    "u32::saturating_sub",
    "usize::saturating_sub",
    "u64::is_power_of_two",
    "core::time::Duration::saturating_sub",
    "core::time::Duration::checked_sub",
    "core::time::Duration::abs_diff",
)


def _pure(eng, c):
    args = [eng.strip_ptr(c.st, a) for a in c.args]
    if c.path == "core::time::Duration::as_secs" and args[0].op == "dur":
        return one(mkint(args[0].args[0] // 1000), c)
    if c.path == "core::time::Duration::as_millis" and args[0].op == "dur":
        return one(mkint(args[0].args[0]), c)
    if c.path.endswith("::abs_diff"):
        args = sorted(args, key=id)
    if all(a.op == "int" for a in args) and len(args) == 2:
        x, y = args[0].args[0], args[1].args[0]
        if "saturating_sub" in c.path:
            return one(mkint(max(0, x - y)), c)
    if c.path.endswith("::checked_sub") and c.path.startswith("u"):
        # None exactly when a < b
        out = []
        for r, s in eng.fork_bool(c.st, eng.compare(c.st, "Lt", args[0], args[1], "u"), c.frame, c.block):
            out.append((NONE if r else some(T("bin", "Sub", args[0], args[1])), s))
        return out
    return one(T("pure", c.path, tuple(args)), c)


for p in PURE:
    TABLE[p] = _pure


# ---------------------------------------------------------------- numeric conversions
def _int_from(eng, c):
    if c.argtys and c.argtys[0] == "bool":
        return [(mkint(1 if r else 0), s) for r, s in eng.fork_bool(c.st, c.args[0], c.frame, c.block)]
    return one(c.args[0], c)


for a in ("u16", "u32", "u64", "u128", "usize", "i64", "i128", "i32"):
    for b in ("u8", "u16", "u32", "u64", "bool", "char", "i32", "i64"):
        TABLE[f"<{a} as core::convert::From<{b}>>::from"] = _int_from

INTMAX = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": (1 << 64) - 1, "usize": (1 << 64) - 1, "i32": (1 << 31) - 1, "i64": (1 << 63) - 1, "u128": (1 << 128) - 1, "i128": (1 << 127) - 1}


def _int_try(dst, src):
    def f(eng, c):
        x = c.args[0]
        if INTMAX[dst] >= INTMAX.get(src, 1 << 200) and (src[0] == "u"):
            return one(ok(x), c)
        if src[0] == "u":
            out = []
            for r, s in eng.fork_bool(c.st, eng.compare(c.st, "Lt", mkint(INTMAX[dst]), x, "u"), c.frame, c.block):
                out.append((err(T("unfit", x, mkint(INTMAX[dst]))) if r else ok(x), s))
            return out
        s2 = c.st.copy()
        return [(ok(x), c.st), (err(T("unfit", x, mkint(INTMAX[dst]))), s2)]

    return f


for a in INTMAX:
    for b in INTMAX:
        TABLE[f"<{a} as core::convert::TryFrom<{b}>>::try_from"] = _int_try(a, b)


@model("<param:T as core::convert::TryInto<param:U>>::try_into", "core::convert::TryInto::try_into")
def _try_into(eng, c):
    """Resolved to the TryFrom implementation."""
    dst = targs(c.destty)[0] if c.destty.startswith(RESULT) else ""
    src = c.argtys[0] if c.argtys else ""
    if dst in INTMAX and src in INTMAX:
        return _int_try(dst, src)(eng, c)
    for h, p in eng.prog.impl_methods.get("core::convert::TryFrom::try_from", ()):
        if h == dst.split("<")[0]:
            b = eng.prog.bodies.get(p)
            if b is not None and len(b.locals) > 1 and b.locals[1][0] == src:
                return eng.inline(b, c.args, c.st, c.frame, c.block)
    return None


INTS = {x + str(n) for x in "iu" for n in (8, 16, 32, 64, 128, "size")}


def _user_from(eng, c):
    """From/Into with a workspace implementation is analysed; otherwise the value is kept."""
    if c.path in eng.prog.bodies:
        return None
    if c.decl.endswith("Into::into"):
        dst = c.destty.split("<")[0]
        src = c.argtys[0] if c.argtys else ""
        for h, p in eng.prog.impl_methods.get("core::convert::From::from", ()):
            b = eng.prog.bodies.get(p)
            if h == dst and b is not None and b.locals[1][0] == src:
                return eng.inline(b, c.args, c.st, c.frame, c.block)
    if c.argtys and c.argtys[0] == "bool" and c.destty in INTS:
        return [(mkint(1 if r else 0), s) for r, s in eng.fork_bool(c.st, c.args[0], c.frame, c.block)]
    return one(c.args[0], c)


TABLE["core::convert::From::from"] = _user_from
TABLE["core::convert::Into::into"] = _user_from
TABLE["<param:T as core::convert::Into<param:U>>::into"] = _user_from


# ---------------------------------------------------------------- collections
def lcoll(ty=""):
    return T("lcoll", head(ty), frozenset())


def tab(ty, key=None, content=None, rest=False):
    """A map or set of which one key is followed: its entry, and whether there are others."""
    return T("tab", ty, key, content, rest)


def is_map(ty):
    return "Map" in head(ty)


def is_table(ty):
    return head(ty) in SETLIKE


def empty_coll(eng, ty):
    return tab(ty) if eng.ck.tabs and is_table(ty) else lcoll(ty)


def _new_coll(eng, c):
    return one(empty_coll(eng, c.destty), c)


for p in (
    "alloc::vec::Vec::new",
    "alloc::vec::Vec::with_capacity",
    "std::collections::hash::map::HashMap::new",
    "std::collections::hash::map::HashMap::with_capacity",
    "std::collections::hash::set::HashSet::new",
    "std::collections::hash::set::HashSet::with_capacity",
    "<std::collections::hash::set::HashSet as core::default::Default>::default",
    "<std::collections::hash::map::HashMap as core::default::Default>::default",
    "<alloc::vec::Vec as core::default::Default>::default",
    "alloc::collections::btree::set::BTreeSet::new",
    "alloc::collections::btree::map::BTreeMap::new",
    "alloc::collections::vec_deque::VecDeque::new",
):
    TABLE[p] = _new_coll


def as_lcoll(v):
    if v.op == "tab":
        return None
    if v.op == "lcoll":
        return v
    if v.op == "arr":
        return T("lcoll", "alloc::vec::Vec", frozenset(v.args[0]))
    return None


def kill_facts(st, t):
    for k in [k for k in st.facts if k is not t and any(x is t for x in walk(k))]:
        del st.facts[k]
    for k in [k for k in st.rel if any(x is t for x in walk(k[0])) or any(x is t for x in walk(k[1]))]:
        del st.rel[k]


def _add_elem(item_of):
    def f(eng, c):
        p = _last_ptr(eng, c.st, c.args[0])
        v = eng.deref(c.st, p)
        lc = as_lcoll(v)
        ret = opaque_pure_ret(eng, c)
        if lc is None:
            return eng.opaque(c)
        x = item_of(c)
        if eng.ck.witness:
            if c.destty == "bool" and carries(x):
                b = has_wit(eng, c.st, lc)
                if b is not None:
                    ret = mkbool(not b)
            add_to(eng, c.st, lc.args[0], lc.args[1], x)
            x = plain(eng, x)
        new = T("lcoll", lc.args[0], lc.args[1] | {x})
        eng.write_ptr(c.st, p, new, c.frame, c.block)
        kill_facts(c.st, new)
        return [(ret, c.st)]

    return f


def opaque_pure_ret(eng, c):
    if c.destty == "()":
        return UNIT
    return eng.fresh(c.st, c.path, [c.args[0] if c.args[0].op != "ref" else T("cst", "coll", "", "")] + c.args[1:], c.frame, c.block)


for p in ("alloc::vec::Vec::push", "std::collections::hash::set::HashSet::insert", "alloc::collections::btree::set::BTreeSet::insert",
          "alloc::collections::vec_deque::VecDeque::push_back"):
    TABLE[p] = _add_elem(lambda c: c.args[1])
for p in ("std::collections::hash::map::HashMap::insert", "alloc::collections::btree::map::BTreeMap::insert"):
    TABLE[p] = _add_elem(lambda c: tup(c.args[1], c.args[2]))


@model("core::iter::traits::collect::Extend::extend", "<std::collections::hash::set::HashSet<param:T, param:S, param:A> as core::iter::traits::collect::Extend<param:T>>::extend",
       "<alloc::vec::Vec<param:T, param:A> as core::iter::traits::collect::Extend<param:T>>::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append")
def _extend(eng, c):
    p = _last_ptr(eng, c.st, c.args[0])
    v = eng.deref(c.st, p)
    lc = as_lcoll(v)
    src = c.args[1]
    if c.path.endswith(("extend_from_slice", "append")):
        src = T("iter", eng.strip_ptr(c.st, src), ())
    it = to_iter(eng, c.st, src)
    if v.op == "tab":
        return table_extend(eng, c, p, it)
    if lc is None:
        return eng.opaque(c)
    out = []
    if eng.ck.witness:
        if not it.args[1] and not eng.ck.tabs:
            x = T("spread", it.args[0])
            if has_wit(eng, c.st, it.args[0]) and has_wit(eng, c.st, lc) and not is_set(lc):
                eng.ck.mark(c.st, "dup")
            if it.args[0].op == "lcoll" and (is_set(lc) or not is_set(it.args[0])):
                elems = it.args[0].args[1]
            else:
                elems = {x}
            eng.write_ptr(c.st, p, T("lcoll", lc.args[0], lc.args[1] | elems), c.frame, c.block)
            return one(UNIT, c)
        for s, acc in drive(eng, c, it, c.st, lambda r, s, acc: [(s, add_to(eng, s, lc.args[0], lc.args[1] | acc, r) - lc.args[1] | (acc & lc.args[1]))], "ext"):
            new = T("lcoll", lc.args[0], lc.args[1] | acc)
            eng.write_ptr(s, p, new, c.frame, c.block)
            out.append((UNIT, s))
        return out
    # zero elements
    s0 = c.st.copy()
    out.append((UNIT, s0))
    # some element, with the facts its filters established
    for r, s in next_item(eng, c, it, c.st.copy(), "ext"):
        if r is None:
            continue
        new = T("lcoll", lc.args[0], lc.args[1] | {r})
        eng.write_ptr(s, p, new, c.frame, c.block)
        kill_facts(s, new)
        out.append((UNIT, s))
    return out


@model("alloc::vec::Vec::len", "[param:T]::len", "std::collections::hash::map::HashMap::len", "std::collections::hash::set::HashSet::len", "alloc::string::String::len", "str::len", "core::slice::len",
       "[T]::len")
def _len(eng, c):
    v = eng.strip_ptr(c.st, c.args[0])
    if v.op == "lcoll" and not v.args[1]:
        return one(mkint(0), c)
    if v.op == "tab":
        if v.args[1] is None and not v.args[3]:
            return one(mkint(0), c)
        if not v.args[3]:
            return one(mkint(1), c)
        n = T("len", v)
        eng.set_idom(c.st, n, 2 if v.args[1] is not None else 1, (1 << 64) - 1, frozenset())
        return one(n, c)
    return one(eng.length(c.st, v), c)


@model("alloc::vec::Vec::is_empty", "[param:T]::is_empty", "std::collections::hash::map::HashMap::is_empty", "std::collections::hash::set::HashSet::is_empty", "alloc::string::String::is_empty", "str::is_empty", "[T]::is_empty")
def _is_empty(eng, c):
    v = eng.strip_ptr(c.st, c.args[0])
    if v.op == "lcoll" and not v.args[1]:
        return one(TRUE, c)
    if v.op == "tab":
        return one(mkbool(v.args[1] is None and not v.args[3]), c)
    if eng.ck.witness and has_wit(eng, c.st, v):
        return one(FALSE, c)
    n = eng.length(c.st, v)
    return one(eng.compare(c.st, "Eq", n, mkint(0), "usize"), c)


# iterators: T("iter", source value, adaptors, mode)   adaptors: tuple of (kind, closure-or-value)
def mkiter(src, mode=""):
    if src.op == "iter":
        return src
    return T("iter", src, (), mode)


def to_iter(eng, st, v, byref=False):
    if v.op == "iter":
        return v
    o = eng.strip_ptr(st, v)
    if o.op == "agg" and o.args[0] == OPTION:
        # at most one element
        if o.args[1] == "None":
            return mkiter(T("lcoll", "alloc::vec::Vec", frozenset()), "val")
        return mkiter(T("arr", (T("addr", o.args[3][0]) if v.op in ("ref", "addr") else o.args[3][0],)), "val")
    if v.op in ("ref", "addr"):
        w = eng.strip_ptr(st, v)
        if w.op == "iter":
            return w
        return mkiter(w, "ref")
    return mkiter(v, "val")


def _into_iter(eng, c):
    v = c.args[0]
    if c.path in eng.prog.bodies:
        return None
    if v.op == "agg" and "range::Range" in v.args[0]:
        return one(mkiter(v, "val"), c)
    if c.argtys and head(c.argtys[0].lstrip("&").removeprefix("mut ")) == OPTION:
        return opt_iter(eng, c, v)
    return one(to_iter(eng, c.st, v), c)


def opt_iter(eng, c, v):
    o = eng.strip_ptr(c.st, v)
    out = []
    for n, s in eng.fork_variant(c.st, o, OPTION, c.frame, c.block):
        if n == "Some":
            x = eng.payload(s, o, n)
            out.append((mkiter(T("arr", (T("addr", x) if v.op in ("ref", "addr") else x,)), "val"), s))
        else:
            out.append((mkiter(T("lcoll", "alloc::vec::Vec", frozenset()), "val"), s))
    return out


@model("core::option::Option::iter", "core::option::Option::iter_mut")
def _opt_iter(eng, c):
    return opt_iter(eng, c, c.args[0])


PREFIX.append(("core::iter::traits::collect::IntoIterator::into_iter", _into_iter))


def _iter(mode, kind=""):
    def f(eng, c):
        w = eng.strip_ptr(c.st, c.args[0])
        return one(T("iter", w, ((kind, None),) if kind else (), mode), c)

    return f


for p in ("[param:T]::iter", "[T]::iter", "[param:T]::iter_mut", "std::collections::hash::set::HashSet::iter", "std::collections::hash::map::HashMap::iter",
          "std::collections::hash::map::HashMap::iter_mut", "alloc::collections::btree::set::BTreeSet::iter"):
    TABLE[p] = _iter("ref")
for p in ("std::collections::hash::map::HashMap::keys", "alloc::collections::btree::map::BTreeMap::keys"):
    TABLE[p] = _iter("ref", "key")
for p in ("std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::values_mut"):
    TABLE[p] = _iter("ref", "val")
def _drain(eng, c):
    w = eng.strip_ptr(c.st, c.args[0])
    p = _last_ptr(eng, c.st, c.args[0])
    lc = as_lcoll(eng.deref(c.st, p))
    if len(c.args) > 1 and "RangeFull" not in c.argtys[1]:
        return one(T("iter", w, (("part", None),), "val"), c)
    if lc is not None:
        eng.write_ptr(c.st, p, T("lcoll", lc.args[0], frozenset()), c.frame, c.block)
    return one(T("iter", w, (), "val"), c)


TABLE["alloc::vec::Vec::drain"] = _drain
TABLE["std::collections::hash::map::HashMap::drain"] = _iter("val")
TABLE["std::collections::hash::map::HashMap::into_keys"] = _iter("val", "key")
TABLE["std::collections::hash::map::HashMap::into_values"] = _iter("val", "val")


@model("std::collections::hash::set::HashSet::difference", "std::collections::hash::set::HashSet::intersection")
def _difference(eng, c):
    a, b = eng.strip_ptr(c.st, c.args[0]), eng.strip_ptr(c.st, c.args[1])
    k = "notin" if c.path.endswith("difference") else "in"
    return one(T("iter", a, ((k, b),), "ref"), c)


@model("std::collections::hash::set::HashSet::symmetric_difference")
def _symmetric(eng, c):
    a, b = eng.strip_ptr(c.st, c.args[0]), eng.strip_ptr(c.st, c.args[1])
    return one(T("iter", T("lcoll", "set", frozenset([T("spreadit", T("iter", a, (("notin", b),), "val")), T("spreadit", T("iter", b, (("notin", a),), "val"))])), (), "ref"), c)


@model("std::collections::hash::set::HashSet::union")
def _union(eng, c):
    a, b = eng.strip_ptr(c.st, c.args[0]), eng.strip_ptr(c.st, c.args[1])
    return one(T("iter", T("lcoll", "set", frozenset([T("spread", a), T("spread", b)])), (), "ref"), c)


ADAPT = {"map": "map", "filter": "filter", "filter_map": "filter_map", "cloned": "cloned", "copied": "cloned", "enumerate": "enumerate", "inspect": "inspect",
         "take_while": "take_while", "map_while": "map_while", "skip_while": "part", "rev": "", "skip": "part", "take": "part", "peekable": "", "fuse": "", "by_ref": "", "chain": "chain", "zip": "zip", "flatten": "flatten",
         "flat_map": "flat_map", "step_by": "part"}


def _adapt(kind):
    def f(eng, c):
        if c.path in eng.prog.bodies:
            return None
        it = to_iter(eng, c.st, c.args[0])
        if not kind:
            return one(it, c)
        if kind == "chain":
            o = to_iter(eng, c.st, c.args[1])
            return one(T("iter", T("lcoll", "chain", frozenset([T("spreadit", it), T("spreadit", o)])), (), "val"), c)
        return one(T("iter", it.args[0], it.args[1] + ((kind, c.args[1] if len(c.args) > 1 else None),), it.args[2]), c)

    return f


for k, v in ADAPT.items():
    TABLE["core::iter::traits::iterator::Iterator::" + k] = _adapt(v)


def indexed(src):
    """The collection when the range is that of its indices."""
    if src.op == "agg" and src.args[0].endswith("::Range") and len(src.args[3]) == 2 and src.args[3][0].op == "int" and src.args[3][0].args[0] == 0 and src.args[3][1].op == "len":
        return src.args[3][1].args[0]
    return None


def _index(eng, c):
    if eng.ck.witness and len(c.args) > 1 and c.args[1].op == "pos":
        return one(T("addr", c.args[1].args[0]), c)
    return None


PREFIX.append(("core::ops::index::Index::index", _index))
PREFIX.append(("<alloc::vec::Vec<param:T, param:A> as core::ops::index::Index", _index))


def source_item(eng, c, src, mode, st, tag):
    """[(item value, state)] of some element of the source."""
    out = []
    wrap = (lambda x: T("addr", x)) if mode == "ref" else (lambda x: x)
    over = indexed(src) if eng.ck.witness else None
    if over is not None:
        # the positions of a collection: one for each element
        return [(T("pos", x) if x is not REJ else x, s) for x, s in source_item(eng, c, over, "val", st, (tag, "pos"))]
    if src.op == "agg" and "range::Range" in src.args[0]:
        i = eng.fresh(st, "item", (src,), c.frame, c.block, "item", (tag,))
        a = src.args[3]
        if len(a) == 2:
            eng.setrel(st, i, a[1], "<" if src.args[0].endswith("::Range") else "<=", "u")
            eng.setrel(st, i, a[0], ">=", "u")
        return [(i, st)]
    if src.op in ("tab", "tabref"):
        ptr = None
        if src.op == "tabref":
            ptr, src = src.args[0], eng.deref(st, src.args[0])
        ty, key, content, rest = src.args
        if rest:
            i = eng.fresh(st, "item", (src,), c.frame, c.block, "item", (tag,))
            out.append((wrap(i), st))
        if key is not None:
            x = wrap(key)
            if is_map(ty):
                cp = T("ref", ptr.args[0], ptr.args[1] + (("m",),)) if ptr is not None and ptr.op == "ref" else wrap(content)
                x = tup(wrap(key), cp)
            out.append((x, st.copy()))
        return out
    if src.op == "arr":
        return [(wrap(x), st.copy()) for x in dict.fromkeys(src.args[0])]
    if src.op == "repeat":
        return [(wrap(src.args[0]), st)]
    if src.op == "lcoll":
        for x in sorted(src.args[1], key=id):
            s = st.copy()
            if x.op == "spread":
                out += source_item(eng, c, x.args[0], mode, s, tag)
            elif x.op == "spreadit":
                out += [(r, s2) for r, s2 in (wit_next(eng, c, x.args[0], s, tag, True) if eng.ck.witness else next_item(eng, c, x.args[0], s, tag)) if r is not None]
            elif x.op == "tup" and mode == "ref" and "Map" in str(src.args[0]):
                out.append((tup(T("addr", x.args[0][0]), T("addr", x.args[0][1])), s))
            else:
                out.append((wrap(x), s))
        return out
    if src.op == "lazy":
        it = src.args[0]
        res = [(wrap(r) if r is not REJ else r, s) for r, s in (wit_next(eng, c, it, st, tag, True) if eng.ck.witness else next_item(eng, c, it, st, tag)) if r is not None]
        return res
    if eng.ck.witness and eng.ck.wit_in(eng, st, src) is not False:
        s2 = st.copy()
        i = eng.fresh(st, "item", (src,), c.frame, c.block, "item", (tag,))
        return [(wrap(i), st), (wrap(eng.ck.wit_of(eng, s2, src)), s2)]
    i = eng.fresh(st, "item", (src,), c.frame, c.block, "item", (tag,))
    if mode == "ref":
        return [(T("addr", i), st)]
    return [(i, st)]


def adapt1(eng, c, k, f, v, s1, t2, mode, tag):
    """One adaptor that neither drops nor adds elements."""
    if k == "map":
        return eng.call_value(f, [v], s1, c.frame, (c.block, t2), c.span)
    if k == "inspect":
        return [(v, s2) for _, s2 in eng.call_value(f, [T("addr", v)], s1, c.frame, (c.block, t2), c.span)]
    if k == "cloned":
        return [(eng.deref(s1, v), s1)]
    if k == "enumerate":
        return [(tup(T("sym", "index", (), (c.frame.id, c.block, tag)), v), s1)]
    if k == "key":
        w = eng.strip_ptr(s1, v)
        y = eng.strip_ptr(s1, w.args[0][0]) if w.op == "tup" else T("fld", w, "", 0, "key")
        return [(T("addr", y) if mode == "ref" else y, s1)]
    if k == "val":
        w = eng.strip_ptr(s1, v)
        if w.op == "tup":
            return [(w.args[0][1], s1)]
        y = T("fld", w, "", 1, "val")
        return [(T("addr", y) if mode == "ref" else y, s1)]
    if k == "zip":
        return [(tup(v, y), s2) for y, s2 in next_item(eng, c, to_iter(eng, s1, f), s1, (tag, "zip")) if y is not None]
    return [(v, s1)]


# Witness mode: a rule follows one arbitrary element through every collection, e.g. one interested user. A collection
# that holds it is not exhausted before it was taken, so "every element is dealt with" is decided for the witness alone.
REJ = T("rej")
OTHERS = T("others")  # elements that are not the witness


def plain(eng, x):
    """What is remembered about an element: those that are not the witness are all alike."""
    return OTHERS if eng.ck.anonymous and x.op not in ("spread", "spreadit") and not carries(x) else x


def carries(x):
    """Is the value the witness, or was it made from it?"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            if y.op == "wit":
                return True
            if y.op not in ("item", "locked"):
                stack.extend(y.args)
        elif isinstance(y, (tuple, frozenset)):
            stack.extend(y)
    return False


def has_wit(eng, st, coll):
    """Does the collection hold the witness? True, False or None (unknown)."""
    if coll.op == "iter":
        b = has_wit(eng, st, coll.args[0])
        if b is False:
            return False
        return b if all(k in ("cloned", "", "enumerate", "map", "inspect", "key", "val") for k, _ in coll.args[1]) else None
    if indexed(coll) is not None:
        return has_wit(eng, st, indexed(coll))
    if coll.op == "tab":
        return coll.args[1] is not None
    if coll.op == "tabref":
        return has_wit(eng, st, eng.deref(st, coll.args[0]))
    if coll.op in ("addr", "deref", "conv"):
        return has_wit(eng, st, coll.args[0])
    if coll.op in ("lcoll", "arr"):
        res = False
        for x in coll.args[1] if coll.op == "lcoll" else coll.args[0]:
            b = has_wit(eng, st, x.args[0]) if x.op in ("spread", "spreadit") else carries(x)
            if b:
                return True
            if b is None:
                res = None
        return res
    if coll.op == "lazy":
        return has_wit(eng, st, coll.args[0])
    return eng.ck.wit_in(eng, st, coll)


def is_set(coll):
    return coll.op == "lcoll" and (coll.args[0] in SETLIKE or coll.args[0] in ("set", "uniq"))


def wit_once(eng, st, coll):
    """Can the witness be taken from the collection only once?"""
    if indexed(coll) is not None:
        return wit_once(eng, st, indexed(coll))
    if coll.op in ("tab", "tabref"):
        return True
    if coll.op == "lcoll":
        if is_set(coll):
            return True
        if eng.ck.marked(st, "dup"):
            return False
        return all(wit_once(eng, st, x.args[0].args[0] if x.op == "spreadit" and x.args[0].op == "iter" else x.args[0]) is not False for x in coll.args[1] if x.op in ("spread", "spreadit"))
    return eng.ck.wit_single(eng, st, coll)


def wit_next(eng, c, it, st, tag, nested=False, skip=False):
    src, ads, mode = (it.args[0], it.args[1], it.args[2] if len(it.args) > 2 else "") if it.op == "iter" else (it, (), "val")
    single = src.op == "arr" and len(src.args[0]) == 1
    must = (single or has_wit(eng, st, src) is True) and not any(k == "part" for k, _ in ads)
    mark = ("took", Pin(src), (c.frame.id, c.block, tag))
    took = not nested and mark in (st.aut or ())
    out = []
    if took or not must:
        s = st.copy()
        if took:
            s.aut = tuple(m for m in s.aut if m != mark)
        out.append((None, s))
    once = single or wit_once(eng, st, src)
    for x, s in source_item(eng, c, src, mode, st.copy(), tag):
        w = single or carries(x) or x is REJ
        if w and (skip or (took and once)):
            continue
        if x is REJ:
            got, rej, stop = [], [s], []
        else:
            eng.ck.on_next(eng, s, it, x, c.frame, c.block)
            got, rej, stop = adapt_wit(eng, c, ads, x, s, tag, mode, w)
        out += [(None, s2) for s2 in stop]
        for v, s2, full in got:
            if w and full and not nested and mark not in (s2.aut or ()):
                s2.aut = (s2.aut or ()) + (mark,)
            out.append((v, s2))
        if w:
            for s2 in rej:
                if nested:
                    out.append((REJ, s2))
                    continue
                if mark not in (s2.aut or ()):
                    s2.aut = (s2.aut or ()) + (mark,)
                out += wit_next(eng, c, it, s2, tag, False, True)
    return out


def adapt_wit(eng, c, ads, x, s, tag, mode, w):
    cur = [(x, s, True)]
    rej, stop = [], []
    for ai, (k, f) in enumerate(ads):
        nxt = []
        for v, s1, full in cur:
            t2 = (tag, ai)
            if k in ("filter", "take_while"):
                for r, s2 in eng.call_value(f, [T("addr", v)], s1, c.frame, (c.block, t2), c.span):
                    for b, s3 in eng.fork_bool(s2, r, c.frame, c.block):
                        (nxt.append((v, s3, full)) if b else stop.append(s3) if k == "take_while" else rej.append(s3))
            elif k in ("filter_map", "map_while"):
                for r, s2 in eng.call_value(f, [v], s1, c.frame, (c.block, t2), c.span):
                    for n, s3 in eng.fork_variant(s2, r, OPTION, c.frame, c.block):
                        (nxt.append((eng.payload(s3, r, n), s3, full)) if n == "Some" else stop.append(s3) if k == "map_while" else rej.append(s3))
            elif k in ("flat_map", "flatten"):
                rs = eng.call_value(f, [v], s1, c.frame, (c.block, t2), c.span) if k == "flat_map" else [(v, s1)]
                for r, s2 in rs:
                    y = eng.strip_ptr(s2, r)
                    if y.op == "agg" and y.args[0] in (OPTION, RESULT):
                        if y.args[1] in ("Some", "Ok"):
                            nxt.append((y.args[3][0], s2, full))
                        else:
                            rej.append(s2)
                        continue
                    if y.op not in ("iter", "lcoll", "arr") and ("Option" in c.destty and False):
                        continue
                    inner = to_iter(eng, s2, r)
                    must = has_wit(eng, s2, inner) is True
                    for z, s3 in wit_next(eng, c, inner, s2, (t2, "f"), True):
                        if z is None or z is REJ:
                            rej.append(s3)
                        else:
                            nxt.append((z, s3, full and (carries(z) or not must)))
            elif k in ("notin", "in"):
                y = eng.strip_ptr(s1, v)
                known = has_wit(eng, s1, f) if carries(y) else None
                if known is not None:
                    if known == (k == "in"):
                        nxt.append((v, s1, full))
                    else:
                        rej.append(s1)
                    continue
                t = T("contains", f, y)
                s2 = s1.copy()
                if eng.assume(s1, t, k == "in", c.frame, c.block):
                    nxt.append((v, s1, full))
                if eng.assume(s2, t, k != "in", c.frame, c.block):
                    rej.append(s2)
            else:
                nxt += [(v2, s2, full) for v2, s2 in adapt1(eng, c, k, f, v, s1, t2, mode, tag)]
        cur = nxt
    return cur, rej, stop


def drive(eng, c, it, st, step, tag):
    """Every way to run step(item, state, acc) -> [(state, acc)] over the whole sequence: [(state, acc)]."""
    out, seen, work = {}, set(), [(st, frozenset())]
    n = 0
    while work:
        s, acc = work.pop()
        n += 1
        if n > 400:
            raise RuntimeError("sequence does not settle")
        for r, s2 in next_item(eng, c, it, s.copy(), tag):
            if r is None:
                out.setdefault((s2.key(), acc), (s2, acc))
                continue
            for s3, acc2 in step(r, s2, acc):
                k = (s3.key(), acc2)
                if k not in seen:
                    seen.add(k)
                    work.append((s3, acc2))
    return list(out.values())


def add_to(eng, st, ty, elems, x):
    """An element joins a collection that is followed."""
    if carries(x) and not (ty in SETLIKE or ty in ("set", "uniq")) and has_wit(eng, st, T("lcoll", ty, elems)):
        eng.ck.mark(st, "dup")
    return elems | {plain(eng, x)}


def next_item(eng, c, it, st, tag="n"):
    """[(item | None when exhausted, state)]; filters that reject an element move on to the next one."""
    if eng.ck.witness:
        return [(r, s) for r, s in wit_next(eng, c, it, st, tag) if r is not REJ]
    if it.op != "iter":
        i = eng.fresh(st, "item", (it,), c.frame, c.block, "item", (tag,))
        return [(i, st), (None, st.copy())]
    src, ads, mode = it.args[0], it.args[1], (it.args[2] if len(it.args) > 2 else "")
    out = [(None, st.copy())]
    eng.ck.on_next(eng, out[0][1], it, None, c.frame, c.block)
    for x, s in source_item(eng, c, src, mode, st.copy(), tag):
        eng.ck.on_next(eng, s, it, x, c.frame, c.block)
        cur = [(x, s)]
        for ai, (k, f) in enumerate(ads):
            nxt = []
            for v, s1 in cur:
                t2 = (tag, ai)
                if k in ("filter", "take_while"):
                    for r, s2 in eng.call_value(f, [T("addr", v)], s1, c.frame, (c.block, t2), c.span):
                        for b, s3 in eng.fork_bool(s2, r, c.frame, c.block):
                            if b:
                                nxt.append((v, s3))
                elif k in ("filter_map", "map_while"):
                    for r, s2 in eng.call_value(f, [v], s1, c.frame, (c.block, t2), c.span):
                        for n, s3 in eng.fork_variant(s2, r, OPTION, c.frame, c.block):
                            if n == "Some":
                                nxt.append((eng.payload(s3, r, n), s3))
                elif k in ("flat_map", "flatten"):
                    rs = eng.call_value(f, [v], s1, c.frame, (c.block, t2), c.span) if k == "flat_map" else [(v, s1)]
                    for r, s2 in rs:
                        w = eng.strip_ptr(s2, r)
                        if w.op == "agg" and w.args[0] in (OPTION, RESULT):
                            if w.args[1] in ("Some", "Ok"):
                                nxt.append((w.args[3][0], s2))
                            continue
                        nxt += [(y, s3) for y, s3 in next_item(eng, c, to_iter(eng, s2, r), s2, (t2, "f")) if y is not None]
                elif k in ("notin", "in"):
                    y = eng.strip_ptr(s1, v)
                    t = T("contains", f, y)
                    if eng.assume(s1, t, k == "in", c.frame, c.block):
                        nxt.append((v, s1))
                else:
                    nxt += adapt1(eng, c, k, f, v, s1, t2, mode, tag)
            cur = nxt
        out += cur
    return out


def _map_item(eng, c, r):
    return r


def _next(eng, c):
    if c.path in eng.prog.bodies:
        return None
    v = eng.strip_ptr(c.st, c.args[0])
    if v.op != "iter":
        if "Iterator" in c.decl:
            v = T("iter", v, (), "val")
    out = []
    ity = c.destty
    for r, s in next_item(eng, c, v, c.st):
        if r is None:
            out.append((NONE, s))
        else:
            if r.op == "addr" and ity.startswith(OPTION + "<("):
                # a map iterator yields a pair of references
                x = r.args[0]
                if x.op == "item":
                    r = tup(T("addr", T("fld", x, "", 0, "key")), T("addr", T("fld", x, "", 1, "val")))
            elif r.op == "item" and ity.startswith(OPTION + "<("):
                r = tup(T("fld", r, "", 0, "key"), T("fld", r, "", 1, "val"))
            out.append((some(r), s))
    return out


TABLE["core::iter::traits::iterator::Iterator::next"] = _next


@model("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_front", "alloc::collections::vec_deque::VecDeque::pop_back")
def _pop(eng, c):
    """In a loop: like going through the collection, which is empty afterwards."""
    b = c.block[0] if isinstance(c.block, tuple) else c.block
    heads = eng.liveness(c.frame.body)[3]
    p = _last_ptr(eng, c.st, c.args[0])
    v = eng.deref(c.st, p)
    lc = as_lcoll(v)
    if not any(b == h or b in loop for h, loop in heads.items()) or lc is None and not (eng.ck.witness and has_wit(eng, c.st, v) is not None):
        return None
    out = []
    for r, s in next_item(eng, c, T("iter", v, (), "val"), c.st):
        if r is None:
            eng.write_ptr(s, p, T("lcoll", lc.args[0] if lc is not None else "alloc::vec::Vec", frozenset()), c.frame, c.block)
            out.append((NONE, s))
        else:
            out.append((some(r), s))
    return out


@model("core::iter::traits::iterator::Iterator::collect")
def _collect(eng, c):
    if c.destty.startswith(RESULT):
        inner = targs(c.destty)[0]
        it = to_iter(eng, c.st, c.args[0])
        out = []
        for r, s in next_item(eng, c, it, c.st):
            if r is None:
                out.append((ok(T("lcoll", head(inner), frozenset())), s))
                continue
            for n, s2 in eng.fork_variant(s, r, RESULT, c.frame, c.block):
                x = eng.payload(s2, r, n)
                out.append((ok(T("lcoll", head(inner), frozenset([x]))) if n == "Ok" else err(x), s2))
        return out
    return _collect_into(eng, c, head(c.destty), c.args[0])


# collections without duplicates: what is copied from them elsewhere is remembered as a copy of the whole
SETLIKE = ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet", "std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")


def _collect_into(eng, c, ty, src):
    it = to_iter(eng, c.st, src)
    if eng.ck.tabs:
        res = drive(eng, c, it, c.st, lambda r, s, acc: [(s, add_to(eng, s, ty, acc, r))], "col")
        return [(table_of(ty, acc), s) for acc, s in ((a, s) for s, a in res)]
    if eng.ck.witness and any(k not in ("cloned", "") for k, _ in it.args[1]):
        return [(T("lcoll", ty, acc), s) for s, acc in drive(eng, c, it, c.st, lambda r, s, acc: [(s, add_to(eng, s, ty, acc, r))], "col")]
    if not it.args[1]:
        # a plain copy
        return one(T("lcoll", ty, frozenset([T("spread", it.args[0])])) if it.args[0].op != "lcoll" or (it.args[0].args[0] != ty and it.args[0].args[0] in SETLIKE) else T("lcoll", ty, it.args[0].args[1]), c)
    if all(k in ("cloned", "key", "val", "notin", "in") or (k == "map" and False) for k, _ in it.args[1]):
        return one(T("lcoll", ty, frozenset([T("spreadit", it)])), c)
    # run the closures once so that their effects are seen, keep the pipeline as the description of the elements
    out = []
    for r, s in next_item(eng, c, it, c.st.copy(), "col"):
        v = T("lcoll", ty, frozenset([T("spreadit", it)]))
        out.append((v, s))
    return out


@model("core::iter::traits::collect::FromIterator::from_iter")
def _from_iter(eng, c):
    return _collect_into(eng, c, head(c.destty), c.args[0])


@model("core::iter::traits::iterator::Iterator::for_each")
def _for_each(eng, c):
    it = to_iter(eng, c.st, c.args[0])
    if eng.ck.witness:
        return [(UNIT, s) for s, _ in drive(eng, c, it, c.st, lambda r, s, acc: [(s2, acc) for _, s2 in eng.call_value(c.args[1], [r], s, c.frame, (c.block, "fe"), c.span)], "fe")]
    done = {}
    work = [c.st.copy()]
    out = [(UNIT, c.st)]
    n = 0
    while work and n < 12:
        n += 1
        s = work.pop()
        for r, s2 in next_item(eng, c, it, s, "fe"):
            if r is None:
                continue
            for _, s3 in eng.call_value(c.args[1], [r], s2, c.frame, (c.block, "fe"), c.span):
                k = s3.key()
                if k not in done:
                    done[k] = 1
                    out.append((UNIT, s3.copy()))
                    work.append(s3)
    return out


@model("core::iter::traits::iterator::Iterator::find", "core::iter::traits::iterator::Iterator::position")
def _find(eng, c):
    it = to_iter(eng, c.st, eng.strip_ptr(c.st, c.args[0]) if eng.strip_ptr(c.st, c.args[0]).op == "iter" else c.args[0])
    out = []
    if eng.ck.witness:
        def step(r, s, acc):
            res = []
            for b, s2 in eng.call_value(c.args[1], [T("addr", r) if c.path.endswith("find") else r], s, c.frame, (c.block, "fd"), c.span):
                for bb, s3 in eng.fork_bool(s2, b, c.frame, c.block):
                    if bb:
                        out.append((some(r if c.path.endswith("find") else T("sym", "index", (), (c.frame.id, c.block))), s3))
                    else:
                        res.append((s3, acc))
            return res
        return [(NONE, s) for s, _ in drive(eng, c, it, c.st, step, "fd")] + out
    for r, s in next_item(eng, c, it, c.st, "fd"):
        if r is None:
            out.append((NONE, s))
            continue
        for b, s2 in eng.call_value(c.args[1], [T("addr", r) if c.path.endswith("find") else r], s, c.frame, (c.block, "fd"), c.span):
            for bb, s3 in eng.fork_bool(s2, b, c.frame, c.block):
                if bb:
                    out.append((some(r if c.path.endswith("find") else T("sym", "index", (), (c.frame.id, c.block))), s3))
    return out


@model("core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::all")
def _any(eng, c):
    v = eng.strip_ptr(c.st, c.args[0])
    it = to_iter(eng, c.st, v if v.op == "iter" else c.args[0])
    isany = c.path.endswith("any")
    out = []
    if eng.ck.witness:
        def step(r, s, acc):
            res = []
            for b, s2 in eng.call_value(c.args[1], [r], s, c.frame, (c.block, "an"), c.span):
                for bb, s3 in eng.fork_bool(s2, b, c.frame, c.block):
                    if bb == isany:
                        out.append((mkbool(isany), s3))
                    else:
                        res.append((s3, acc))
            return res
        return [(mkbool(not isany), s) for s, _ in drive(eng, c, it, c.st, step, "an")] + out
    for r, s in next_item(eng, c, it, c.st, "an"):
        if r is None:
            out.append((mkbool(not isany), s))
            continue
        for b, s2 in eng.call_value(c.args[1], [r], s, c.frame, (c.block, "an"), c.span):
            for bb, s3 in eng.fork_bool(s2, b, c.frame, c.block):
                if bb == isany:
                    out.append((mkbool(isany), s3))
    return out


# map/set membership as stable atoms
@model("std::collections::hash::set::HashSet::contains", "std::collections::hash::map::HashMap::contains_key", "[param:T]::contains", "[T]::contains", "alloc::collections::btree::set::BTreeSet::contains")
def _contains(eng, c):
    s, k = eng.strip_ptr(c.st, c.args[0]), eng.strip_ptr(c.st, c.args[1])
    if s.op == "lcoll" and not s.args[1]:
        return one(FALSE, c)
    if s.op == "tab":
        if carries(k):
            return one(mkbool(s.args[1] is not None), c)
        if not s.args[3]:
            return one(FALSE, c)
    if eng.ck.witness and carries(k):
        b = has_wit(eng, c.st, s)
        if b is not None:
            return one(mkbool(b), c)
    return one(T("contains", s, k), c)


# ---------------------------------------------------------------- tasks, timeouts
@model("tokio::task::spawn::spawn", "tokio::runtime::handle::Handle::spawn")
def _spawn(eng, c):
    f = c.args[-1]
    v = eng.strip_ptr(c.st, f)
    r = eng.ck.on_spawn(eng, c.st, v, c.frame, c.block)
    if v.op == "cor" and eng.ck.enter_spawned(v.args[0]):
        # what the task does, with what it was given; its end means nothing to the spawner
        tmo, can, eng.tmo, eng.cancel = eng.tmo, eng.cancel, [], []
        eng.tasks += 1
        try:
            for pv, s in eng.poll(v, c.st.copy(), c.frame, (c.block, "task")):
                eng.ck.on_task_end(eng, s, v, pv, c.frame, c.block)
        finally:
            eng.tmo, eng.cancel = tmo, can
            eng.tasks -= 1
    t = T("call", "tokio::spawn", (v,), (c.frame.id, c.block))
    eng.make_stale(c.st, t)
    return one(t, c)


@model("tokio::time::timeout::timeout")
def _timeout(eng, c):
    return one(T("timeout", c.args[0], c.args[1]), c)


@model("core::future::poll_fn::poll_fn", "core::future::poll_fn")
def _pollfn(eng, c):
    return one(T("pollfn", c.args[0]), c)


def _poll(eng, c):
    if c.path in eng.prog.bodies:
        return None
    return eng.poll(c.args[0], c.st, c.frame, c.block, c.destty)


TABLE["core::future::future::Future::poll"] = _poll


# ---------------------------------------------------------------- formatting
@model("core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::rt::Arguments::new")
def _args_new(eng, c):
    xs = []
    for a in c.args:
        v = eng.strip_ptr(c.st, a)
        if v.op == "arr":
            xs += [eng.strip_ptr(c.st, x) for x in v.args[0]]
        else:
            xs.append(v)
    return one(T("fmt", tuple(xs)), c)


@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex")
def _fmt_arg(eng, c):
    return one(eng.strip_ptr(c.st, c.args[0]), c)


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _format(eng, c):
    return one(c.args[0], c)


def _panic(eng, c):
    eng.ck.on_panic(eng, c.st, "panic", c)
    return []


PREFIX.append(("core::panicking::", _panic))
PREFIX.append(("std::panicking::", _panic))
PREFIX.append(("std::rt::panic", _panic))


@model("std::process::exit", "std::process::abort")
def _exit(eng, c):
    return []


# ---------------------------------------------------------------- Clone of std types
class _CloneTable:
    pass


def _is_std_clone(path):
    return path.endswith("as core::clone::Clone>::clone")


def lookup_extra(eng, c):
    """Pattern models for the resolved path."""
    p = c.path
    if p.endswith(" as core::clone::Clone>::clone"):
        if p in eng.prog.bodies and not _is_derived(eng, eng.prog.bodies[p]):
            return None
        return _clone
    if p.endswith(" as core::iter::traits::iterator::Iterator>::next") and p not in eng.prog.bodies:
        return _next
    if c.decl == "core::future::into_future::IntoFuture::into_future":
        return ident
    if c.decl == "core::future::future::Future::poll" and p not in eng.prog.bodies:
        return _poll
    return None


from .mir import targs, head  # noqa: E402


# ---------------------------------------------------------------- witness mode: reordering and thinning out
def _sort(eng, c):
    if not eng.ck.witness:
        return None
    eng.ck.mark(c.st, "sorted")
    return one(UNIT, c)


def _dedup(eng, c):
    if not eng.ck.witness:
        return None
    if eng.ck.marked(c.st, "sorted"):
        eng.ck.unmark(c.st, "dup")
        eng.ck.unmark(c.st, "sorted")
    return one(UNIT, c)


def _retain(eng, c):
    if not eng.ck.witness:
        return None
    p = _last_ptr(eng, c.st, c.args[0])
    lc = as_lcoll(eng.deref(c.st, p))
    if lc is None:
        return None
    out = []

    def step(r, s, acc):
        res = []
        for b, s2 in eng.call_value(c.args[1], [T("addr", r)], s, c.frame, (c.block, "rt"), c.span):
            for bb, s3 in eng.fork_bool(s2, b, c.frame, c.block):
                res.append((s3, acc | {plain(eng, r)} if bb else acc))
        return res

    for s, acc in drive(eng, c, T("iter", lc, (), "val"), c.st, step, "rt"):
        eng.write_ptr(s, p, T("lcoll", lc.args[0], acc), c.frame, c.block)
        out.append((UNIT, s))
    return out


def _prefixed(f, *names):
    for n in names:
        old = TABLE.get(n)
        TABLE[n] = (lambda eng, c, f=f, old=old: f(eng, c) or (old(eng, c) if old else eng.opaque(c)))


_prefixed(_sort, *[f"{p}::{n}" for p in ("[param:T]", "[T]", "core::slice") for n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key")])
_prefixed(_dedup, "alloc::vec::Vec::dedup")
_prefixed(_retain, "alloc::vec::Vec::retain", "std::collections::hash::set::HashSet::retain")


def _reorder(eng, c):
    if as_lcoll(eng.deref(c.st, _last_ptr(eng, c.st, c.args[0]))) is None:
        return None
    return one(UNIT, c)


_prefixed(_reorder, "rand::seq::SliceRandom::shuffle", "rand::seq::slice::SliceRandom::shuffle", *[f"{p}::{n}" for p in ("[param:T]", "[T]", "core::slice") for n in ("reverse", "swap", "rotate_left", "rotate_right")])


# ---------------------------------------------------------------- tables as values (rules with `tabs`)
ENTRY = "std::collections::hash::map::Entry"


def table_of(ty, elems):
    """A collected sequence."""
    if not is_table(ty):
        return T("lcoll", ty, elems)
    key = content = None
    rest = False
    for x in elems:
        if not carries(x):
            rest = True
        elif is_map(ty):
            key, content = x.args[0] if x.op == "tup" else (x, TOP)
        else:
            key, content = x, UNIT
    return tab(ty, key, content, rest)


def table_extend(eng, c, p, it):
    def step(r, s, acc):
        v = eng.deref(s, p)
        t = v.args
        if not carries(r):
            n = T("tab", t[0], t[1], t[2], True)
        elif is_map(t[0]):
            r = eng.strip_ptr(s, r)
            n = T("tab", t[0], eng.strip_ptr(s, r.args[0][0]), r.args[0][1], t[3]) if r.op == "tup" else v
        else:
            n = T("tab", t[0], eng.strip_ptr(s, r), UNIT, t[3])
        eng.write_ptr(s, p, n, c.frame, c.block)
        return [(s, acc)]

    return [(UNIT, s) for s, _ in drive(eng, c, it, c.st, step, "ext")]


def table_at(eng, st, a):
    """(pointer, table) an argument refers to."""
    p = _last_ptr(eng, st, a)
    v = eng.deref(st, p)
    return (p, v) if v.op == "tab" else (None, None)


def entry_ptr(eng, p, content):
    return T("ref", p.args[0], p.args[1] + (("m",),)) if p.op == "ref" else T("addr", content)


def table_put(eng, st, c, p, v, key=None, content=None, rest=False):
    eng.write_ptr(st, p, T("tab", v.args[0], key, content, rest), c.frame, c.block)


def table_remove(eng, c, p, v, k, out):
    """[(was it there, key, content, state)]"""
    ty, key, content, rest = v.args
    if carries(k):
        if key is not None:
            table_put(eng, c.st, c, p, v, None, None, rest)
        return [(key is not None, key, content, c.st)]
    if not rest:
        return [(False, None, None, c.st)]
    res = []
    i = eng.fresh(c.st, "item", (v,), c.frame, c.block, "item", ("rm",))
    res.append((False, None, None, c.st.copy()))
    for left in (True, False):
        s = c.st.copy()
        table_put(eng, s, c, p, v, key, content, left)
        res.append((True, k, i, s))
    return res


def table_call(eng, c):
    """Operations on tables that are followed as values; None for anything else."""
    if not c.args:
        return None
    name = c.path.rsplit("::", 1)[1]
    own = c.path.split("<")[0].rsplit("::", 1)[0] if not c.path.startswith("<") else ""
    st = c.st
    if own.endswith(("::OccupiedEntry", "::VacantEntry", "::Entry")):
        return entry_call(eng, c, own.rsplit("::", 1)[1], name)
    if not own.endswith(("::HashMap", "::HashSet", "::BTreeMap", "::BTreeSet")):
        return None
    p, v = table_at(eng, st, c.args[0])
    if v is None:
        return None
    ty, key, content, rest = v.args
    ismap = is_map(ty)
    k = eng.strip_ptr(st, c.args[1]) if len(c.args) > 1 else None
    if name in ("iter_mut", "values_mut"):
        it = T("iter", T("tabref", p), (("val", None),) if name == "values_mut" else (), "ref")
        return [(it, st)]
    if name == "drain":
        table_put(eng, st, c, p, v)
        return [(T("iter", v, (), "val"), st)]
    if name == "clear":
        table_put(eng, st, c, p, v)
        return [(UNIT, st)]
    if name in ("reserve", "shrink_to_fit", "shrink_to"):
        return [(UNIT, st)]
    if name in ("get", "get_mut", "get_key_value"):
        if carries(k):
            if key is None:
                return [(NONE, st)]
            x = entry_ptr(eng, p, content) if ismap else T("addr", key)
            return [(some(tup(T("addr", key), x) if name == "get_key_value" else x), st)]
        out = [(NONE, st.copy())]
        if rest:
            i = eng.fresh(st, "item", (v,), c.frame, c.block, "item", ("get",))
            out.append((some(tup(T("addr", k), T("addr", i)) if name == "get_key_value" else T("addr", i)), st))
        return out
    if name in ("insert", "replace"):
        if carries(k):
            table_put(eng, st, c, p, v, k, c.args[2] if ismap else UNIT, rest)
            return [((some(content if ismap else key) if key is not None else NONE) if ismap or name == "replace" else mkbool(key is None), st)]
        out = []
        i = eng.fresh(st, "item", (v,), c.frame, c.block, "item", ("in",))
        for old in (True, False) if rest else (False,):
            s = st.copy()
            table_put(eng, s, c, p, v, key, content, True)
            out.append((mkbool(not old) if not ismap else some(i) if old else NONE, s))
        return out
    if name in ("remove", "remove_entry", "take"):
        out = []
        for was, k2, old, s in table_remove(eng, c, p, v, k, None):
            if not ismap and name == "remove":
                out.append((mkbool(was), s))
            elif not was:
                out.append((NONE, s))
            else:
                out.append((some(tup(k2, old) if name == "remove_entry" else old if ismap else k2), s))
        return out
    if name == "retain":
        out = []
        sts = [(True, st)]
        if key is not None:
            sts = []
            args = [T("addr", key)] + ([entry_ptr(eng, p, content)] if ismap else [])
            for b, s in eng.call_value(c.args[1], args, st, c.frame, (c.block, "rt"), c.span):
                sts += eng.fork_bool(s, b, c.frame, c.block)
        for kept, s in sts:
            v2 = eng.deref(s, p)
            if not kept:
                table_put(eng, s, c, p, v2, None, None, rest)
            if not rest:
                out.append((UNIT, s))
                continue
            v2 = eng.deref(s, p)
            i = eng.fresh(s, "item", (v2,), c.frame, c.block, "item", ("rt",))
            args = [T("addr", T("fld", i, "", 0, "key")), T("addr", T("fld", i, "", 1, "val"))] if ismap else [T("addr", i)]
            for b, s2 in eng.call_value(c.args[1], args, s, c.frame, (c.block, "rto"), c.span):
                for bb, s3 in eng.fork_bool(s2, b, c.frame, c.block):
                    for left in (True,) if bb else (True, False):
                        s4 = s3.copy()
                        v3 = eng.deref(s4, p)
                        table_put(eng, s4, c, p, v3, v3.args[1], v3.args[2], left)
                        out.append((UNIT, s4))
        return out
    if name == "entry":
        k = c.args[1]
        e = lambda variant, i, t: (T("agg", ENTRY, variant, i, (t,)), st.copy())
        if carries(eng.strip_ptr(st, k)):
            return [e("Occupied", 0, T("occ", p, k))] if key is not None else [e("Vacant", 1, T("vac", p, k))]
        out = [e("Vacant", 1, T("vac", p, k))]
        if rest:
            out.append(e("Occupied", 0, T("occ", p, k)))
        return out
    return None


def unref(ty):
    while ty.startswith("&"):
        ty = ty.lstrip("&").strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1]
        ty = ty[4:] if ty.startswith("mut ") else ty
    return ty


def entry_call(eng, c, kind, name):
    st = c.st
    e = eng.strip_ptr(st, c.args[0])
    if kind == "Entry":
        if e.op != "agg" or e.args[0] != ENTRY:
            return None
        x = e.args[3][0]
        if x.op not in ("occ", "vac"):
            return None
        if name == "key":
            return [(T("addr", x.args[1]), st)]
        if name == "and_modify":
            if x.op == "vac":
                return [(e, st)]
            return [(e, s) for _, s in eng.call_value(c.args[1], [occ_ptr(eng, c, st, x)], st, c.frame, (c.block, "am"), c.span)]
        if not name.startswith("or_") and name != "insert_entry":
            return None
        if x.op == "occ" and name != "insert_entry":
            return [(occ_ptr(eng, c, st, x), st)]
        out = []
        if name in ("or_insert", "insert_entry"):
            vals = [(c.args[1], st)]
        elif name == "or_default":
            ty = unref(c.destty)
            vals = [(tab(ty) if is_table(ty) else default_of(ty), st)]
        else:
            args = [T("addr", x.args[1])] if name.endswith("_with_key") else []
            vals = eng.call_value(c.args[1], args, st, c.frame, (c.block, "ow"), c.span, unref(c.destty))
        for val, s in vals:
            ptr = vac_insert(eng, c, s, x, val)
            out.append((T("occ", *x.args) if name == "insert_entry" else ptr, s))
        return out
    if e.op not in ("occ", "vac"):
        return None
    if name == "key":
        return [(T("addr", e.args[1]), st)]
    if name == "into_key":
        return [(e.args[1], st)]
    if kind == "VacantEntry":
        if name in ("insert", "insert_entry"):
            ptr = vac_insert(eng, c, st, e, c.args[1])
            return [(T("occ", *e.args) if name == "insert_entry" else ptr, st)]
        return None
    ptr = occ_ptr(eng, c, st, e)
    if name in ("get", "get_mut", "into_mut"):
        return [(ptr, st)]
    if name == "insert":
        old = eng.deref(st, ptr)
        eng.write_ptr(st, ptr, c.args[1], c.frame, c.block)
        return [(old, st)]
    if name in ("remove", "remove_entry"):
        v = eng.deref(st, e.args[0])
        out = []
        for was, k, old, s in table_remove(eng, c, e.args[0], v, e.args[1], None):
            if was:
                out.append((tup(k, old) if name == "remove_entry" else old, s))
        return out
    return None


def occ_ptr(eng, c, st, x):
    p, k = x.args
    v = eng.deref(st, p)
    if carries(eng.strip_ptr(st, k)):
        return entry_ptr(eng, p, v.args[2])
    return T("addr", eng.fresh(st, "item", (v,), c.frame, c.block, "item", ("occ",)))


def vac_insert(eng, c, st, x, val):
    p, k = x.args
    v = eng.deref(st, p)
    k2 = eng.strip_ptr(st, k)
    if carries(k2):
        table_put(eng, st, c, p, v, k2, val, v.args[3])
        return entry_ptr(eng, p, val)
    table_put(eng, st, c, p, v, v.args[1], v.args[2], True)
    return T("addr", val if val.op not in ("tab",) else eng.fresh(st, "item", (v,), c.frame, c.block, "item", ("vac",)))


@model("core::slice::raw::from_ref", "core::slice::from_ref", "core::array::from_ref")
def _from_ref(eng, c):
    return one(T("addr", T("arr", (eng.strip_ptr(c.st, c.args[0]),))), c)
