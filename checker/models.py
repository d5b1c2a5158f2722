"""Models of the standard library functions the analysis does not follow into."""

import json
import os

from engine import (
    Outcome, Unmodelled, UNIT, TRUE, FALSE, INT, OPTION, ORDERING, RESULT, NONE, INF,
    some, ok, err, mk_int, eq_atom, not_, and_, or_, lt_atom, add, binop, proj_field,
    vec_items, chain_id, setp, is_plain, rev_chain,
    pos_term, pos_next, as_pos, rest, size_of,
)

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ret(st, v):
    return [Outcome("ret", v, st)]


def strip_ref(p, t):
    while t.get("k") == "ref" or (t.get("k") == "adt" and t.get("path") in (
            "std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::pin::Pin")):
        t = p.ty(t["args"][0])
    return t


def targ(e, info, i):
    ta = info.get("targs") or ()
    return e.p.ty(ta[i]) if i < len(ta) else {"s": "?", "k": "?"}


STRISH = ("str", "std::string::String")


def is_local_adt(e, t):
    t = strip_ref(e.p, t)
    a = e.p.adts.get(t.get("path"))
    return t.get("k") == "adt" and a is not None and a.get("local")


# -- transparent functions ---------------------------------------------------------

@model(
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec",
    "std::string::String::into_boxed_str", "std::vec::Vec::<T, A>::into_boxed_slice",
    "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
    "std::string::String::into_bytes", "std::vec::Vec::<T, A>::as_slice", "core::slice::<impl [T]>::as_ref",
    "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::hint::must_use",
    "std::ops::Deref::deref", "std::borrow::Borrow::borrow", "std::pin::Pin::<Ptr>::new_unchecked",
    "std::pin::Pin::<Ptr>::as_mut", "std::future::IntoFuture::into_future",
    "std::str::<impl str>::into_string",
    "std::borrow::Cow::<'_, B>::into_owned", "std::slice::<impl [T]>::into_vec",
    "std::boxed::Box::<T>::pin", "std::convert::identity", "core::array::<impl [T; N]>::as_slice",
    "std::vec::Vec::<T, A>::into_iter_", "std::str::<impl str>::to_owned",
)
def transparent(e, st, args, site, info, t):
    return ret(st, e.deref(st, args[0]) if info["path"] != "std::pin::Pin::<Ptr>::new_unchecked" else args[0])


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(e, st, args, site, info, t):
    # expansion of vec![…]: an array written into a MaybeUninit
    v = e.deref(st, args[0])
    while v[0] == "with" and len(v[2]) == 1:
        v = v[2][0][1]
    return ret(st, v)


@model("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut",
       "std::borrow::Cow::<'_, B>::to_mut", "std::vec::Vec::<T, A>::as_mut_slice")
def transparent_mut(e, st, args, site, info, t):
    return ret(st, args[0])


@model("std::convert::AsRef::as_ref")
def as_ref(e, st, args, site, info, t):
    if info.get("key"):
        return None
    if is_local_adt(e, targ(e, info, 0)) and not info.get("rpath", "").startswith("<std"):
        return None
    t0 = strip_ref(e.p, targ(e, info, 0))
    if targ(e, info, 1).get("s") == "[u8]" and (t0.get("k") == "param" or t0.get("s") in STRISH):
        return e.opaque_call(st, "as_bytes", args, site, None)
    if targ(e, info, 0).get("k") == "param":
        return None
    return ret(st, e.deref(st, args[0]))


@model("std::convert::From::from", "std::convert::Into::into")
def from_(e, st, args, site, info, t):
    if info.get("key"):
        return None
    if info.get("local"):
        return None
    x = e.deref(st, args[0])
    if targ(e, info, 0 if info["name"] == "into" else 1).get("k") == "char" and \
            targ(e, info, 1 if info["name"] == "into" else 0).get("s") in STRISH:
        x = ch(x)
    return ret(st, x)


@model("std::string::ToString::to_string")
def to_string(e, st, args, site, info, t):
    ty = strip_ref(e.p, targ(e, info, 0))
    x = e.deref(st, args[0])
    if ty.get("s") in STRISH or x[0] == "str":
        return ret(st, x)
    return ret(st, ("cat", (("disp", ty.get("s"), x),)))


@model("std::future::get_context")
def get_context(e, st, args, site, info, t):
    return ret(st, UNIT)


@model("std::future::Future::poll")
def poll(e, st, args, site, info, t):
    v = e.deref(st, args[0])
    ready = lambda x: ("adt", "std::task::Poll", "Ready", (x,))
    if v[0] == "cor":
        outs = e.run_coroutine(v, st, site + ("co",))
        for o in outs:
            if o.kind == "ret":
                o.value = ready(o.value)
        return outs
    if v[0] == "call" and v[1].startswith("tokio::time::timeout") and len(v[2]) == 2:
        # the inner future is abandoned, or it completes in time
        out = []
        c = ("expired", v[2][0], v[2][1])
        s = st.fork()
        if e.assume(s, c, True):
            s.event("expired", v[2][0])
            out.append(Outcome("ret", ready(err(("adt", "tokio::time::error::Elapsed", "Elapsed", (UNIT,)))), s))
        s = st.fork()
        if e.assume(s, c, False):
            s.event("timed", v[2][0])
            for o in poll(e, s, [v[2][1]], site + ("in",), info, t):
                if o.kind == "ret":
                    o.value = ready(ok(o.value[3][0]))
                out.append(o)
        return out
    st.event("await", v)
    return ret(st, ready(("await", v)))


@model("std::boxed::Box::<T>::new_uninit", "std::boxed::Box::<T>::new_uninit_slice")
def new_uninit(e, st, args, site, info, t):
    c = ("heap", site)
    st.cells[c] = ("undef",)
    return ret(st, ("mref", c, ()))


# -- equality and ordering ------------------------------------------------------------

@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def partial_eq(e, st, args, site, info, t):
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    ta, tb = strip_ref(e.p, targ(e, info, 0)), strip_ref(e.p, targ(e, info, 1))
    if is_local_adt(e, ta) or is_local_adt(e, tb):
        if ta.get("s") != tb.get("s"):
            if info.get("key"):
                return None
            return [
                Outcome(o.kind, not_(o.value) if o.kind == "ret" and info["name"] == "ne" else o.value, o.state)
                for o in e.opaque_call(st, info["path"].replace("::ne", "::eq"), args, site, info)
            ]
    elif ta.get("k") == "param":
        return None
    c = eq_atom(e.resolve_refs(st, a), e.resolve_refs(st, b))
    return ret(st, not_(c) if info["name"] == "ne" else c)


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def partial_ord(e, st, args, site, info, t):
    ta = targ(e, info, 0)
    if "tracing" in ta.get("s", ""):
        return ret(st, FALSE)      # diagnostics are off
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    n = info["name"]
    c = {"lt": lambda: lt_atom(a, b), "ge": lambda: not_(lt_atom(a, b)),
         "gt": lambda: lt_atom(b, a), "le": lambda: not_(lt_atom(b, a))}[n]()
    return ret(st, c)


@model("std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
def max_min(e, st, args, site, info, t):
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    n = info["name"]
    if a[0] == INT and b[0] == INT:
        return ret(st, (INT, max(a[1], b[1]) if n == "max" else min(a[1], b[1])))
    out = []
    for s, less in e.split(st, lt_atom(a, b)):
        out.append(Outcome("ret", (b if less else a) if n == "max" else (a if less else b), s))
    return out


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def discriminant_value(e, st, args, site, info, t):
    ty = strip_ref(e.p, targ(e, info, 0))
    v = e.deref(st, args[0])
    return ret(st, ("discr", v, ty.get("path", ty.get("s"))))


# -- numbers ------------------------------------------------------------------------

def _num(name):
    def f(e, st, args, site, info, t):
        a = e.deref(st, args[0])
        b = e.deref(st, args[1]) if len(args) > 1 else None
        if name == "saturating_add":
            if b == (INT, 0):
                return ret(st, a)
            if a[0] == INT and b[0] == INT and a[1] + b[1] < (1 << 63):
                return ret(st, (INT, a[1] + b[1]))
            return ret(st, ("sat_add", a, b))
        if name == "saturating_sub":
            if b == (INT, 0):
                return ret(st, a)
            if a[0] == INT and b[0] == INT:
                return ret(st, (INT, max(0, a[1] - b[1])))
            return ret(st, ("sat_sub", a, b))
        if name == "abs_diff":
            return ret(st, ("abs_diff", a, b))
        if name in ("checked_add", "checked_sub", "checked_mul"):
            return ret(st, (name, a, b))
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
            return ret(st, (name, a, b))
        return None
    return f


for _t in ("u64", "usize"):         # of other widths: see stdlib.number
    for _n in ("saturating_add", "saturating_sub", "checked_add", "checked_sub", "checked_mul", "wrapping_add",
               "wrapping_sub", "wrapping_mul", "abs_diff"):
        MODELS["core::num::<impl %s>::%s" % (_t, _n)] = _num(_n)


# -- character classes -----------------------------------------------------------------

def R(*rs):
    return tuple(sorted((ord(a) if isinstance(a, str) else a, ord(b) if isinstance(b, str) else b) for a, b in rs))


CLASSES = {
    "is_ascii": R((0, 127)),
    "is_ascii_digit": R(("0", "9")),
    "is_ascii_hexdigit": R(("0", "9"), ("A", "F"), ("a", "f")),
    "is_ascii_alphabetic": R(("A", "Z"), ("a", "z")),
    "is_ascii_alphanumeric": R(("0", "9"), ("A", "Z"), ("a", "z")),
    "is_ascii_uppercase": R(("A", "Z")),
    "is_ascii_lowercase": R(("a", "z")),
    "is_ascii_graphic": R((33, 126)),
    "is_ascii_punctuation": R((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_whitespace": R((9, 10), (12, 13), (32, 32)),
    "is_ascii_control": R((0, 31), (127, 127)),
    "is_control": R((0, 31), (127, 159)),
    "is_whitespace": R((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
                       (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)),
}


CLASSES.update((n, tuple(map(tuple, rs))) for n, rs in json.load(open(os.path.join(os.path.dirname(__file__), "chars.json"))).items())


def _cls(name):
    def f(e, st, args, site, info, t):
        x = e.deref(st, args[0])
        if x[0] == INT:
            return ret(st, ("b", any(lo <= x[1] <= hi for lo, hi in CLASSES[name])))
        return ret(st, ("inset", x, CLASSES[name]))
    return f


for _n in CLASSES:
    MODELS["std::char::methods::<impl char>::" + _n] = _cls(_n)
    if "ascii" in _n:
        MODELS["core::num::<impl u8>::" + _n] = _cls(_n)


@model("std::char::convert::<impl std::convert::TryFrom<char> for u8>::try_from")
def u8_try_from_char(e, st, args, site, info, t):
    x = e.deref(st, args[0])
    return [
        Outcome("ret", ok(x) if v else err(UNIT), s)
        for s, v in e.split(st, ("inset", x, ((0, 255),)))
    ]


# -- strings ------------------------------------------------------------------------

@model("std::string::String::new", "core::str::<impl std::default::Default for &str>::default")
def string_new(e, st, args, site, info, t):
    return ret(st, ("str", ""))


@model("std::string::String::with_capacity")
def string_cap(e, st, args, site, info, t):
    return ret(st, ("str", ""))


def cat(a, b):
    pa = a[1] if a[0] == "cat" else (() if a == ("str", "") else (a,))
    pb = b[1] if b[0] == "cat" else (() if b == ("str", "") else (b,))
    pa, pb = list(pa), list(pb)
    while pa and pb and pa[-1][0] == "str" and pb[0][0] == "str":
        pa[-1] = ("str", pa[-1][1] + pb.pop(0)[1])
    ps = tuple(pa + pb)
    if not ps:
        return ("str", "")
    if len(ps) == 1 and ps[0][0] == "str":
        return ps[0]
    return ("cat", ps)


def append(e, st, target, x):
    """Appends to the string behind a mutable reference."""
    if target[0] != "mref":
        st.event("append", target, x)
        return
    loc = (target[1], target[2])
    v = e.read(st, loc)
    while v[0] == "mref":
        loc = (v[1], v[2])
        v = e.read(st, loc)
    e.write(st, loc, cat(v, x))
    st.event("append", loc, x)


def ch(x):
    return ("str", chr(x[1])) if x[0] == INT else ("ch", x)


@model("std::string::String::push", "std::fmt::Write::write_char", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def push_char(e, st, args, site, info, t):
    append(e, st, args[0], ch(e.deref(st, args[1])))
    return ret(st, ok(UNIT) if info["name"] == "write_char" else UNIT)


@model("<std::string::String as std::ops::AddAssign<&str>>::add_assign", "std::string::String::push_str", "std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str")
def push_str(e, st, args, site, info, t):
    append(e, st, args[0], e.deref(st, args[1]))
    return ret(st, UNIT if info["name"] in ("push_str", "add_assign") else ok(UNIT))


@model("<std::string::String as std::ops::Add<&str>>::add")
def str_add(e, st, args, site, info, t):
    return ret(st, cat(e.deref(st, args[0]), e.deref(st, args[1])))


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def write_fmt(e, st, args, site, info, t):
    append(e, st, args[0], e.deref(st, args[1]))
    return ret(st, ok(UNIT))


@model("std::fmt::Arguments::<'a>::from_str")
def args_from_str(e, st, args, site, info, t):
    return ret(st, e.deref(st, args[0]))


def _arg(kind):
    def f(e, st, args, site, info, t):
        ty = strip_ref(e.p, targ(e, info, 0))
        x = e.resolve_refs(st, e.deref(st, args[0]))
        s = ty.get("s")
        if kind == "disp" and (s in STRISH or x[0] in ("str", "cat")):
            return ret(st, x)
        if kind == "disp" and s == "char":
            return ret(st, ch(x))
        if kind == "disp" and x[0] == INT:
            return ret(st, ("numstr", str(x[1])))
        return ret(st, (kind, s, x))
    return f


MODELS["core::fmt::rt::Argument::<'_>::new_display"] = _arg("disp")
MODELS["core::fmt::rt::Argument::<'_>::new_debug"] = _arg("debug")
MODELS["core::fmt::rt::Argument::<'_>::new_lower_hex"] = _arg("lhex")
MODELS["core::fmt::rt::Argument::<'_>::new_upper_hex"] = _arg("uhex")


@model("core::fmt::rt::Argument::<'_>::from_usize")
def arg_usize(e, st, args, site, info, t):
    return ret(st, ("asnum", e.deref(st, args[0])))


@model("std::fmt::Display::fmt")
def display_fmt(e, st, args, site, info, t):
    if info.get("local"):
        return None
    ty = strip_ref(e.p, targ(e, info, 0))
    x = e.resolve_refs(st, e.deref(st, args[0]))
    if ty.get("path") in e.p.adts:
        key = e.p.impl(ty["path"], "std::fmt::Display", "fmt")
        return e.run_fn(key, args, st, site) if key else None
    s = ty.get("s")
    append(e, st, args[1], x if s in STRISH or x[0] in ("str", "cat") else ch(x) if s == "char" else ("disp", s, x))
    return ret(st, ok(UNIT))


@model("alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all", "std::io::Write::write_all", "std::io::Write::write_fmt")
def write_all(e, st, args, site, info, t):
    if info.get("local") or strip_ref(e.p, targ(e, info, 0)).get("s") not in ("std::vec::Vec<u8>", "std::alloc::Global", "u8"):
        return None
    if args[0][0] != "mref":
        return None
    loc, v0 = deep_loc(e, st, args[0])
    e.write(st, loc, ("extend", v0, e.resolve_refs(st, e.deref(st, args[1]))))
    return ret(st, ok(UNIT))


@model("std::fmt::Arguments::<'a>::new")
def args_new(e, st, args, site, info, t):
    tpl, a = e.deref(st, args[0]), e.deref(st, args[1])
    items = vec_items(a)
    if tpl[0] == "arr":
        tpl = ("bytes", tuple(x[1] for x in tpl[1]))
    if tpl[0] != "bytes" or items is None:
        return ret(st, ("fmt", tpl, a))
    b, i, n, out = tpl[1], 0, 0, ("str", "")
    while i < len(b) and b[i] != 0:
        c = b[i]
        if c < 0x80:
            out = cat(out, ("str", bytes(b[i + 1:i + 1 + c]).decode()))
            i += 1 + c
        elif c == 0x80:
            l = b[i + 1] + 256 * b[i + 2]
            out = cat(out, ("str", bytes(b[i + 3:i + 3 + l]).decode()))
            i += 3 + l
        else:
            i += 1
            opts = []
            if c & 1:
                opts.append(("flags",) + tuple(b[i:i + 4]))
                i += 4
            if c & 2:
                opts.append(("width", b[i] + 256 * b[i + 1]))
                i += 2
            if c & 4:
                opts.append(("prec", b[i] + 256 * b[i + 1]))
                i += 2
            k = n
            if c & 8:
                k = b[i] + 256 * b[i + 1]
                i += 2
            for bit, o in ((16, "width"), (32, "prec")):
                if c & bit:     # given by an argument
                    opts = [(o, items[x[1]][1]) if x[0] == o and x[1] < len(items) and items[x[1]][0] == "asnum" else x for x in opts]
                    if not any(x[0] == o and isinstance(x[1], tuple) for x in opts):
                        return ret(st, ("fmt", tpl, a))
            n = k + 1
            x = items[k] if k < len(items) else ("?",)
            if not opts and x[0] == "numstr":
                x = ("str", x[1])
            out = cat(out, ("opt", tuple(opts), x) if opts else x)
    return ret(st, out)


@model("std::fmt::format")
def fmt_format(e, st, args, site, info, t):
    return ret(st, e.deref(st, args[0]))


def is_empty_of(e, st, x):
    n = e.length(st, x)
    return eq_atom(n, (INT, 0))


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty", "std::vec::Vec::<T, A>::is_empty",
       "core::slice::<impl [T]>::is_empty", "std::collections::HashMap::<K, V, S, A>::is_empty",
       "std::collections::HashSet::<T, S, A>::is_empty", "std::collections::BTreeMap::<K, V, A>::is_empty",
       "std::collections::BTreeSet::<T, A>::is_empty", "std::collections::VecDeque::<T, A>::is_empty")
def is_empty(e, st, args, site, info, t):
    return ret(st, is_empty_of(e, st, args[0]))


@model("core::str::<impl str>::len", "std::string::String::len", "std::vec::Vec::<T, A>::len",
       "core::slice::<impl [T]>::len", "std::collections::HashMap::<K, V, S, A>::len",
       "std::collections::HashSet::<T, S, A>::len", "std::collections::BTreeMap::<K, V, A>::len",
       "std::collections::BTreeSet::<T, A>::len", "std::collections::VecDeque::<T, A>::len")
def length(e, st, args, site, info, t):
    return ret(st, e.length(st, args[0]))


@model("core::str::<impl str>::eq_ignore_ascii_case", "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case")
def eqi(e, st, args, site, info, t):
    a, b = e.deref(st, args[0]), e.deref(st, args[1])
    if a == b:
        return ret(st, TRUE)
    if a[0] == "str" and b[0] == "str":
        return ret(st, ("b", a[1].lower() == b[1].lower()))
    low = lambda x: ("str", x[1].lower()) if x[0] == "str" else x
    a, b = low(a), low(b)
    if a[0] == "str" or (b[0] != "str" and repr(b) < repr(a)):
        a, b = b, a
    return ret(st, ("eqi", a, b))


@model("std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_ascii_uppercase",
       "std::str::<impl str>::to_uppercase", "std::slice::<impl [u8]>::to_ascii_lowercase", "std::slice::<impl [u8]>::to_ascii_uppercase")
def lower(e, st, args, site, info, t):
    a = e.deref(st, args[0])
    if a[0] == "str":
        from table import PURE
        return ret(st, ("str", PURE[info["name"]](a[1])))
    return ret(st, ("call", info["name"], (a,)))


def strip(kind, a, b):
    if a[0] == "str" and b[0] in ("str", INT):
        p = b[1] if b[0] == "str" else chr(b[1])
        if kind == "strip_prefix":
            return some(("str", a[1][len(p):])) if a[1].startswith(p) else NONE
        return some(("str", a[1][:len(a[1]) - len(p)])) if a[1].endswith(p) else NONE
    return ("call", kind, (a, b))


@model("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix",
       "core::slice::<impl [T]>::strip_prefix", "core::slice::<impl [T]>::strip_suffix")
def strip_x(e, st, args, site, info, t):
    a, b = e.deref(st, args[0]), pattern(e, st, args[1])
    return ret(st, strip(info["name"], a, b))


@model("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with",
       "core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def starts_with(e, st, args, site, info, t):
    a, b = e.deref(st, args[0]), pattern(e, st, args[1])
    kind = "strip_prefix" if info["name"] == "starts_with" else "strip_suffix"
    v = strip(kind, a, b)
    if v[0] == "adt":
        return ret(st, ("b", v[2] == "Some"))
    return ret(st, ("isv", v, OPTION, "Some"))


@model("core::str::<impl str>::parse")
def str_parse(e, st, args, site, info, t):
    ty = targ(e, info, 0)
    x = e.deref(st, args[0])
    if is_local_adt(e, ty):
        it = e.p.find("<%s as std::str::FromStr>::from_str" % ty["s"])
        if it:
            f = ("fn", it["pretty"], it["key"], it["pretty"], None)
            return e.call(st, f, [x], site + ("parse",))
    return ret(st, ("call", "parse::<%s>" % ty["s"], (x,)))


@model("std::string::String::from_utf8", "std::str::from_utf8")
def from_utf8(e, st, args, site, info, t):
    return ret(st, ("call", "from_utf8", (e.deref(st, args[0]),)))


@model("std::string::String::insert_str", "std::string::String::insert")
def insert_str(e, st, args, site, info, t):
    loc = (args[0][1], args[0][2])
    v = e.read(st, loc)
    i, x = e.deref(st, args[1]), e.deref(st, args[2])
    e.write(st, loc, ("insert", v, i, x))
    return ret(st, UNIT)


# pure functions kept as terms under their short name
for _n in ("core::str::<impl str>::split_at", "core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once",
           "core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim_start_matches",
           "core::str::<impl str>::trim_matches", "core::str::<impl str>::split_at_checked",
           "core::slice::<impl [u8]>::trim_ascii", "core::slice::ascii::<impl [u8]>::trim_ascii",
           "core::str::<impl str>::trim",
           "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end",
           "core::str::<impl str>::contains", "core::str::<impl str>::find", "core::str::<impl str>::rfind",
           "core::str::<impl str>::get", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::first",
           "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_first",
           "core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::concat",
           "std::time::SystemTime::duration_since", "std::io::Error::kind", "idna::domain_to_ascii",
           "idna::domain_to_unicode", "std::string::String::from_utf8_lossy", "std::str::Utf8Error::valid_up_to",
           "core::str::<impl str>::is_char_boundary", "std::slice::<impl [T]>::join", "std::str::<impl str>::replace",
           "std::str::<impl str>::repeat"):
    def _pure(e, st, args, site, info, t, n=_n):
        vals = tuple(pattern(e, st, a) for a in args)
        return ret(st, ("call", n.split("::")[-1], vals))
    MODELS[_n] = _pure


@model("core::str::<impl str>::is_ascii", "core::slice::ascii::<impl [u8]>::is_ascii")
def str_is_ascii(e, st, args, site, info, t):
    x = e.deref(st, args[0])
    if x[0] == "str":
        return ret(st, ("b", x[1].isascii()))
    return ret(st, ("call", "is_ascii", (x,)))


@model("std::ops::Index::index")
def index(e, st, args, site, info, t):
    if info.get("key") and info.get("local"):
        return None
    a, i = e.deref(st, args[0]), e.deref(st, args[1])
    it = vec_items(a)
    if i[0] == INT and it is not None and i[1] < len(it):
        return ret(st, it[i[1]])
    if strip_ref(e.p, targ(e, info, 0)).get("path", "").split("::")[-1] in ("HashMap", "BTreeMap"):
        r = ("call", "HashMap::get", (a, e.resolve_refs(st, i)))
        return [Outcome("ret", proj_field(r, "0", 0, "Some"), s) if there else Outcome("panic", ("no entry found for key",), s)
                for s, there in e.split(st, ("isv", r, OPTION, "Some"))]
    if i[0] == "adt" and i[1].startswith("std::ops::Range"):
        kind = i[1].split("::")[-1]
        if kind == "RangeFull":
            return ret(st, a)
        lo = i[3][0] if kind in ("Range", "RangeFrom", "RangeInclusive") else (INT, 0)
        hi = {"Range": lambda: i[3][1], "RangeTo": lambda: i[3][0], "RangeFrom": lambda: ("len", a),
              "RangeInclusive": lambda: binop("Add", i[3][1], (INT, 1)), "RangeToInclusive": lambda: binop("Add", i[3][0], (INT, 1))}[kind]()
        if lo == (INT, 0) and hi == ("len", a):
            return ret(st, a)
        return ret(st, ("slice", a, lo, hi))
    return ret(st, ("idx", a, i))


@model("std::ops::IndexMut::index_mut")
def index_mut(e, st, args, site, info, t):
    a, i = args[0], e.deref(st, args[1])
    if i[0] == "adt":
        raise Unmodelled("a part of a collection to change")
    if a[0] == "mref":
        return ret(st, ("mref", a[1], a[2] + (("i", i),)))
    return None


# -- time ----------------------------------------------------------------------------

@model("std::time::Duration::from_secs")
def from_secs(e, st, args, site, info, t):
    return ret(st, ("secs", args[0]))


@model("std::time::Duration::as_secs")
def as_secs(e, st, args, site, info, t):
    x = e.deref(st, args[0])
    return ret(st, x[1] if x[0] == "secs" else ("as_secs", x))


def _durpart(name):
    def f(e, st, args, site, info, t):
        return ret(st, ("durpart", name, e.deref(st, args[0])))
    return f


for _n in ("is_zero", "as_millis", "as_micros", "as_nanos", "subsec_nanos", "subsec_micros", "subsec_millis"):
    MODELS["std::time::Duration::" + _n] = _durpart(_n)
for _n in ("from_millis", "from_micros", "from_nanos"):
    MODELS["std::time::Duration::" + _n] = _durpart(_n)


@model("std::time::SystemTime::now")
def now(e, st, args, site, info, t):
    st.event("call", "std::time::SystemTime::now", (), ("now",), site)
    return ret(st, ("now",))


# -- memory ---------------------------------------------------------------------------

@model("std::mem::replace")
def mem_replace(e, st, args, site, info, t):
    loc = (args[0][1], args[0][2])
    old = e.read(st, loc)
    e.write(st, loc, args[1])
    return ret(st, old)


@model("std::mem::take")
def mem_take(e, st, args, site, info, t):
    loc = (args[0][1], args[0][2])
    old = e.read(st, loc)
    ty = targ(e, info, 0)
    new = default_of(e, ty)
    e.write(st, loc, new if new is not None else ("default", ty["s"]))
    return ret(st, old)


@model("std::mem::swap")
def mem_swap(e, st, args, site, info, t):
    a, b = (args[0][1], args[0][2]), (args[1][1], args[1][2])
    x, y = e.read(st, a), e.read(st, b)
    e.write(st, a, y)
    e.write(st, b, x)
    return ret(st, UNIT)


def default_of(e, ty):
    s = ty.get("s", "")
    if ty.get("k") in ("uint", "int"):
        return (INT, 0)
    if ty.get("k") == "bool":
        return FALSE
    if s.startswith("std::option::Option"):
        return NONE
    if s in STRISH or s == "&str" or s.startswith("std::boxed::Box<str"):
        return ("str", "")
    if s.startswith("std::vec::Vec") or s.startswith("std::boxed::Box<["):
        return ("vec", ())
    if "HashMap<" in s:
        return ("hmap",)
    if "HashSet<" in s:
        return ("hset",)
    if s.startswith("std::collections::BTreeMap<"):
        return ("hmap", "btree")
    if s.startswith("std::collections::BTreeSet<"):
        return ("hset", "btree")
    if s == "std::time::Duration":
        return ("secs", (INT, 0))
    return None


@model("std::default::Default::default")
def default(e, st, args, site, info, t):
    if info.get("key"):
        return None
    v = default_of(e, targ(e, info, 0))
    return None if v is None else ret(st, v)


# -- collections ----------------------------------------------------------------------

@model("std::vec::from_elem")
def from_elem(e, st, args, site, info, t):
    x, n = e.resolve_refs(st, args[0]), e.deref(st, args[1])
    if n[0] == INT and n[1] <= 64:
        return ret(st, ("vec", (x,) * n[1]))
    return ret(st, ("call", "from_elem", (x, n)))


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def vec_new(e, st, args, site, info, t):
    return ret(st, ("vec", ()))


@model("std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity",
       "std::collections::BTreeMap::<K, V>::new")
def hmap_new(e, st, args, site, info, t):
    return ret(st, ("hmap", "btree") if "BTree" in info["path"] else ("hmap",))


@model("std::collections::HashSet::<T>::new", "std::collections::HashSet::<T>::with_capacity",
       "std::collections::BTreeSet::<T>::new")
def hset_new(e, st, args, site, info, t):
    return ret(st, ("hset", "btree") if "BTree" in info["path"] else ("hset",))


def deep_loc(e, st, r):
    loc = (r[1], r[2])
    v = e.read(st, loc)
    while v[0] == "mref":
        loc = (v[1], v[2])
        v = e.read(st, loc)
    return loc, v


def push_value(v, x):
    if v[0] in ("vec", "arr"):
        return ("vec", v[1] + (x,))
    return ("push", v, x)


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def vec_push(e, st, args, site, info, t):
    x = e.resolve_refs(st, args[1])
    if args[0][0] != "mref":
        st.event("push", args[0], x, site)
        return ret(st, UNIT)
    loc, v = deep_loc(e, st, args[0])
    e.write(st, loc, push_value(v, x))
    st.event("push", v, x, site)
    return ret(st, UNIT)


@model("std::collections::HashMap::<K, V, S, A>::insert", "std::collections::BTreeMap::<K, V, A>::insert")
def hmap_insert(e, st, args, site, info, t):
    k, x = e.resolve_refs(st, args[1]), e.resolve_refs(st, args[2])
    v = args[0]
    if args[0][0] == "mref":
        loc, v = deep_loc(e, st, args[0])
        e.write(st, loc, ("ins", v, k, x))
    st.event("insert", v, k, x, site)
    return ret(st, ("call", "HashMap::get", (v, k)))


@model("std::collections::HashSet::<T, S, A>::insert", "std::collections::BTreeSet::<T, A>::insert")
def hset_insert(e, st, args, site, info, t):
    k = e.resolve_refs(st, args[1])
    v = e.deref(st, args[0])
    if args[0][0] == "mref":
        loc, v = deep_loc(e, st, args[0])
        e.write(st, loc, ("ins", v, k))
    st.event("insert", v, k, site)
    return ret(st, not_(("member", v, k)))


@model("std::collections::HashSet::<T, S, A>::contains", "std::collections::BTreeSet::<T, A>::contains")
def hset_contains(e, st, args, site, info, t):
    v, k = e.deref(st, args[0]), e.resolve_refs(st, e.deref(st, args[1]))
    return ret(st, ("member", v, k))


@model("std::collections::HashMap::<K, V, S, A>::get", "std::collections::BTreeMap::<K, V, A>::get", "std::collections::HashMap::<K, V, S, A>::contains_key", "std::collections::BTreeMap::<K, V, A>::contains_key")
def hmap_get(e, st, args, site, info, t):
    v, k = e.deref(st, args[0]), e.resolve_refs(st, e.deref(st, args[1]))
    r = ("call", "HashMap::get", (v, k))
    return ret(st, r if info["name"] == "get" else ("isv", r, OPTION, "Some"))


@model("std::collections::HashMap::<K, V, S, A>::entry", "std::collections::BTreeMap::<K, V, A>::entry")
def hmap_entry(e, st, args, site, info, t):
    k = e.resolve_refs(st, args[1])
    return ret(st, ("entry", args[0], k))


def _entries(*names):
    return ["std::collections::%s::Entry::<'a, K, V%s>::%s" % (m, a, n) for m, a in (("hash_map", ""), ("hash_map", ", A"), ("btree_map", ", A"), ("btree_map", "")) for n in names]


@model(*_entries("or_default", "or_insert", "or_insert_with"))
def entry_or(e, st, args, site, info, t):
    en = args[0]
    if en[0] != "entry" or en[1][0] != "mref":
        return None
    m, k = en[1], en[2]
    loc, v = deep_loc(e, st, m)
    st.event("entry", v, k, site)
    outs = [(st, None)]
    if info["name"] == "or_default":
        d = default_of(e, targ(e, info, 1))
        if d is None:
            return None
        outs = [(st, d)]
    elif info["name"] == "or_insert":
        outs = [(st, e.resolve_refs(st, args[1]))]
    else:
        res = e.call(st, args[1], [], site + ("f",))
        if len(res) != 1 or res[0].kind != "ret":
            return None
        outs = [(res[0].state, res[0].value)]
    res = []
    for s, d in outs:
        there = (loc[0], loc[1] + (("k", k, d),))
        e.write(s, there, e.read(s, there))     # the entry exists from now on, used or not
        res.append(Outcome("ret", ("mref",) + there, s))
    return res


@model(*_entries("and_modify"))
def entry_modify(e, st, args, site, info, t):
    en = args[0]
    if en[0] != "entry" or en[1][0] != "mref":
        return None
    m, k = en[1], en[2]
    loc, v = deep_loc(e, st, m)
    out = []
    for s, there in e.split(st, ("member", v, k)):
        if not there:
            out.append(Outcome("ret", en, s))
            continue
        for o in e.call(s, args[1], [("mref", loc[0], loc[1] + (("k", k, ("undef",)),))], site + ("f",)):
            out.append(Outcome("ret", en, o.state) if o.kind == "ret" else o)
    return out


@model("std::collections::HashMap::<K, V, S, A>::get_mut", "std::collections::BTreeMap::<K, V, A>::get_mut")
def hmap_get_mut(e, st, args, site, info, t):
    if args[0][0] != "mref":
        return None
    k = e.resolve_refs(st, e.deref(st, args[1]))
    loc, v = deep_loc(e, st, args[0])
    return [Outcome("ret", some(("mref", loc[0], loc[1] + (("k", k, ("undef",)),))) if there else NONE, s)
            for s, there in e.split(st, ("member", v, k))]


@model("core::slice::<impl [T]>::contains")
def contains(e, st, args, site, info, t):
    coll, x = e.deref(st, args[0]), e.resolve_refs(st, e.deref(st, args[1]))

    def step(s, v):
        out_e, conts, exits = [], [], []
        for s2, val in e.split(s, eq_atom(e.resolve_refs(s, e.deref(s, v)), x)):
            if val:
                exits.append(("yes", s2))
            else:
                conts.append(s2)
        return out_e, conts, exits

    ends, exits = e.consume(st, ("iter", coll), site, step)
    return ends + [Outcome("ret", ("b", tag == "yes"), s) for tag, s in exits]


# -- iterators -----------------------------------------------------------------------

def it_of(chain):
    return ("it", chain, ("#", 0))


@model("core::slice::<impl [T]>::iter", "std::collections::HashMap::<K, V, S, A>::iter",
       "std::collections::HashSet::<T, S, A>::iter", "std::collections::HashMap::<K, V, S, A>::values",
       "std::collections::HashMap::<K, V, S, A>::keys", "std::option::Option::<T>::iter",
       "std::collections::HashMap::<K, V, S, A>::into_keys", "std::collections::HashMap::<K, V, S, A>::into_values",
       "std::collections::BTreeMap::<K, V, A>::iter", "std::collections::BTreeMap::<K, V, A>::keys",
       "std::collections::BTreeMap::<K, V, A>::values", "std::collections::BTreeMap::<K, V, A>::into_keys",
       "std::collections::BTreeMap::<K, V, A>::into_values", "std::collections::BTreeSet::<T, A>::iter",
       "std::collections::VecDeque::<T, A>::iter")
def slice_iter(e, st, args, site, info, t):
    c = e.resolve_refs(st, e.deref(st, args[0]))
    if c[0] == "adt" and c[1] == OPTION:
        c = ("vec", c[3])
    n = info["name"].replace("into_", "")
    return ret(st, it_of(("iter", (n, c) if n in ("keys", "values") else c)))


@model("core::slice::<impl [T]>::iter_mut", "std::collections::HashMap::<K, V, S, A>::iter_mut",
       "std::collections::HashMap::<K, V, S, A>::values_mut")
def slice_iter_mut(e, st, args, site, info, t):
    return ret(st, iter_mut_of(e, st, args[0]))


def iter_mut_of(e, st, r):
    if r[0] != "mref":
        return it_of(("iter", r))
    loc, v = deep_loc(e, st, r)
    return it_of(("itermut", loc[0], loc[1]))


@model("std::iter::IntoIterator::into_iter")
def into_iter(e, st, args, site, info, t):
    x = args[0]
    ty = strip_ref(e.p, targ(e, info, 0))
    if ty.get("path") in e.p.adts and e.p.impl(ty["path"], "std::iter::Iterator", "next"):
        return ret(st, x)
    if x[0] == "it":
        return ret(st, x)
    if x[0] == "mref":
        v = e.deref(st, x)
        if v[0] == "it":
            return ret(st, x)       # by_ref
        return ret(st, iter_mut_of(e, st, x))
    if x[0] == "adt" and x[1].startswith("std::ops::Range"):
        return ret(st, it_of(range_chain(x)))
    if x[0] == "adt" and x[1] == OPTION:
        return ret(st, it_of(("iter", ("vec", x[3]))))
    if info.get("local") and info.get("key"):
        return None
    if ty.get("path") == "std::result::Result":
        return [Outcome("ret", it_of(("iter", ("vec", (proj_field(x, "0", 0, "Ok"),) if good else ()))), s)
                for s, good in e.split(st, ("isv", x, "std::result::Result", "Ok"))]
    return ret(st, it_of(("iter", e.resolve_refs(st, x))))


def range_chain(x):
    if x[1].endswith("RangeInclusive"):
        return ("range", x[3][0], add(x[3][1], (INT, 1)))
    if x[1].endswith("RangeFrom"):
        return ("range", x[3][0], (INT, INF))
    return ("range", x[3][0], x[3][1])


SEQS = ("chars", "bytes", "lines", "split", "char_indices", "match_indices", "rsplit", "splitn", "rsplitn",
        "split_whitespace", "split_ascii_whitespace", "windows", "chunks", "escape_debug", "split_terminator",
        "split_inclusive", "matches", "chunks_exact", "rsplit_terminator")
for _n in SEQS:
    def _seq(e, st, args, site, info, t):
        vals = tuple(pattern(e, st, a) for a in args)
        a = vals[0]
        if a[0] == "str" and info["name"] in ("chars", "bytes"):
            return ret(st, it_of(("iter", ("vec", tuple((INT, b) for b in (
                a[1].encode() if info["name"] == "bytes" else map(ord, a[1])))))))
        return ret(st, it_of(("iter", ("call", info["name"], vals))))
    MODELS["core::str::<impl str>::" + _n] = _seq
    MODELS["core::slice::<impl [T]>::" + _n] = _seq


def pattern(e, st, a):
    """A pattern or predicate argument in a form independent of its place."""
    a = e.deref(st, a)
    if a[0] in ("clo", "fn"):
        try:
            outs = e.call(st.fork(), a, [("s", "_c")], ("pattern", a[1]))
        except Unmodelled:
            return e.resolve_refs(st, a)
        alts = set()
        for o in outs:
            if o.kind == "ret":
                for s, v in e.split(o.state, o.value):
                    alts.add((frozenset((k, w) for k, w in s.facts.items() if st.facts.get(k) != w), v))
        return ("pred", charset(alts) or frozenset(alts))
    return e.resolve_refs(st, a)


@model("std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort_by_key",
       "std::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_cached_key",
       "std::vec::Vec::<T, A>::dedup_by", "std::vec::Vec::<T, A>::dedup_by_key")
def sort_by(e, st, args, site, info, t):
    f = function(e, st, args[1], 1 if "key" in info["name"] else 2)
    return f and e.opaque_call(st, info["path"], [args[0], f], site, info)


def function(e, st, f, n):
    """A function of n values in a form independent of its place, or None."""
    f = e.deref(st, f)
    if f[0] not in ("clo", "fn"):
        return None
    ps = [("s", "_a"), ("s", "_b")][:n]
    try:
        outs = e.call(st.fork(), f, list(ps), ("pattern", f[1]))
    except Unmodelled:
        return None
    alts = set()
    for o in outs:
        if o.kind != "ret":
            return None
        alts.add((frozenset((k, w) for k, w in o.state.facts.items() if st.facts.get(k) != w), e.resolve_refs(o.state, o.value)))
    return ("cmp", frozenset(alts))


def charset(alts):
    """The set of characters a predicate accepts, as ranges, if it is one."""
    acc = []
    for facts, v in alts:
        r = ((0, 0x10FFFF),)
        for k, w in facts:
            if k == ("rng", ("s", "_c")):
                r = w
            else:
                return None
        if v:
            acc.extend((max(lo, 0), min(hi, 0x10FFFF)) for lo, hi in r)
    return norm_ranges(acc)


def norm_ranges(rs):
    out = []
    for lo, hi in sorted(rs):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def as_it(e, st, x):
    """(iterator value, location or None)."""
    if x[0] == "mref":
        loc, v = deep_loc(e, st, x)
        if v[0] == "it":
            return v, loc
        if v[0] == "adt" and v[1].startswith("std::ops::Range"):
            return it_of(range_chain(v)), loc
        return it_of(("iter", v)), loc
    if x[0] == "it":
        return x, None
    if x[0] == "adt" and x[1].startswith("std::ops::Range"):
        return it_of(range_chain(x)), None
    return it_of(("iter", e.resolve_refs(st, x))), None


def local_impl(info):
    return bool(info.get("local"))


def source(e, st, x):
    """The iterator an adapter draws from; through a reference it moves the one referred to."""
    it, loc = as_it(e, st, x)
    if loc is not None and e.read(st, loc)[0] == "it":
        return it_of(("ref", loc[0], loc[1]))
    return it


for _n in ("map", "filter", "filter_map", "inspect", "take_while", "map_while", "flat_map"):
    def _ad(e, st, args, site, info, t):
        it = source(e, st, args[0])
        return ret(st, ("it", (info["name"], it[1], e.deref(st, args[1])), it[2]))
    MODELS["std::iter::Iterator::" + _n] = _ad


@model("std::iter::Iterator::take")
def it_take(e, st, args, site, info, t):
    it = source(e, st, args[0])
    n = e.deref(st, args[1])
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ret(st, ("it", ("take", it[1], n, cell), it[2]))


@model("std::iter::Iterator::skip")
def it_skip(e, st, args, site, info, t):
    it = source(e, st, args[0])
    n = e.deref(st, args[1])
    if it[1][0] == "iter" and it[2] == ("#", 0):
        c = it[1][1]
        items = vec_items(c)
        if items is not None and n[0] == INT:
            return ret(st, it_of(("iter", (c[0], items[n[1]:]))))
        return ret(st, it_of(("iter", ("skip", c, n))))
    if it[2] == ("#", 0):
        c = skipped(it[1], n)
        if c is not None:
            return ret(st, it_of(c))
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ret(st, ("it", ("skip", it[1], n, cell), it[2]))


def skipped(chain, n):
    """A chain without its first n items, if position can be told without running it."""
    k = chain[0]
    if k == "iter":
        items = vec_items(chain[1])
        if items is not None and n[0] == INT:
            return ("iter", (chain[1][0], items[n[1]:]))
        return ("iter", ("skip", chain[1], n))
    if k in ("cloned", "copied", "map"):
        c = skipped(chain[1], n)
        return c and (k, c) + chain[2:]
    if k == "enumerate" and len(chain) == 2:
        c = skipped(chain[1], n)
        return c and ("zip", ("range", n, size_of(chain[1]) if is_plain(chain[1]) else (INT, 2 ** 64 - 1)), c)
    return None


@model("std::iter::Iterator::skip_while")
def it_skip_while(e, st, args, site, info, t):
    it = source(e, st, args[0])
    cell = ("adapt", site)
    st.cells[cell] = TRUE
    return ret(st, ("it", ("skip_while", it[1], e.deref(st, args[1]), cell), it[2]))


@model("std::iter::Iterator::step_by")
def it_step_by(e, st, args, site, info, t):
    it = source(e, st, args[0])
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ret(st, ("it", ("step_by", it[1], e.deref(st, args[1]), cell), it[2]))


@model("std::iter::Iterator::scan")
def it_scan(e, st, args, site, info, t):
    it = source(e, st, args[0])
    cell = ("adapt", site)
    st.cells[cell] = args[1]
    return ret(st, ("it", ("scan", it[1], e.deref(st, args[2]), cell), it[2]))


@model("std::iter::Iterator::flatten")
def it_flatten(e, st, args, site, info, t):
    it = source(e, st, args[0])
    return ret(st, ("it", ("flat_map", it[1], None), it[2]))


for _n in ("cloned", "copied", "peekable", "fuse", "by_ref"):
    def _ad1(e, st, args, site, info, t):
        if info["name"] == "by_ref":
            return ret(st, args[0])
        it = source(e, st, args[0])
        return ret(st, ("it", ("peek" if info["name"] == "peekable" else info["name"], it[1]), it[2]))
    MODELS["std::iter::Iterator::" + _n] = _ad1


@model("std::iter::Iterator::rev")
def it_rev(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    r = rev_chain(it[1])
    if r is None or it[2] != ("#", 0):
        raise Unmodelled("reversed " + it[1][0])
    return ret(st, it_of(r))


@model("std::iter::Iterator::enumerate")
def it_enumerate(e, st, args, site, info, t):
    it = source(e, st, args[0])
    if it[2] == ("#", 0):
        return ret(st, ("it", numbered(st, it[1], site), it[2]))
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ret(st, ("it", ("enumerate", it[1], cell), it[2]))


def numbered(st, chain, site):
    """The chain enumerated."""
    if is_plain(chain):
        return ("enumerate", chain)
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ("enumerate", chain, cell)


for _n in ("chain", "zip"):
    def _ad2(e, st, args, site, info, t):
        it = source(e, st, args[0])
        other = source(e, st, args[1])
        return ret(st, ("it", (info["name"], it[1], rest(other[1], other[2])), it[2]))
    MODELS["std::iter::Iterator::" + _n] = _ad2


@model("std::iter::zip")
def iter_zip(e, st, args, site, info, t):
    a, b = (as_iterable(e, st, x) for x in args)
    return a and b and ret(st, ("it", ("zip", a[1], rest(b[1], b[2])), a[2]))


def as_iterable(e, st, x):
    if x[0] == "it":
        return x
    v = e.deref(st, x)
    if v[0] == "it" or x[0] == "adt":
        return None
    return it_of(("iter", e.resolve_refs(st, v)))


@model("std::iter::from_fn")
def from_fn(e, st, args, site, info, t):
    return ret(st, it_of(("from_fn", args[0])))


@model("std::iter::empty")
def iter_empty(e, st, args, site, info, t):
    return ret(st, it_of(("iter", ("vec", ()))))


@model("std::iter::once")
def iter_once(e, st, args, site, info, t):
    return ret(st, it_of(("iter", ("vec", (args[0],)))))


def has_skip(chain):
    k = chain[0]
    if k in ("filter", "filter_map", "skip_while", "skip", "step_by", "flat_map"):
        return True
    return k not in ("ref", "iter", "itermut", "range", "from_fn", "chain", "zip", "local", "again", "successors") and has_skip(chain[1])


def moved(e, s, loc, it, eid):
    """Moves an iterator past the element `eid` of its rest, or (None) to its end."""
    if loc is None:
        return
    k, chain = it[1], ("unknown",)
    while k[0] in ("map", "cloned", "copied", "inspect", "peek", "fuse", "enumerate", "filter", "filter_map"):
        k = k[1]
    if k[0] in ("iter", "itermut", "range"):
        chain = it[1]
        if eid is None:
            e.write(s, loc, ("it", chain, as_pos(size_of(k))))
        else:
            t = add(pos_term(it[2]), add(pos_term(eid), (INT, 1)))
            e.write(s, loc, ("it", chain, as_pos(t)))
        return
    e.write(s, loc, ("it", chain, it[2]))


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def next_(e, st, args, site, info, t):
    if local_impl(info):
        return None
    it, loc = as_it(e, st, args[0])
    chain, pos = it[1], it[2]
    back = info["name"] == "next_back"
    if pos[0] == "*":
        if e.ways.setdefault((pos[1], loc), back) != back or back and pos[2]:
            raise Unmodelled("an iterator moved at both ends")
    elif back and chain[0] != "back" and pos != ("#", 0) or not back and chain[0] == "back":
        it = it_of(rest(chain, pos))
        chain, pos = it[1], it[2]
    if back:
        if pos[0] != "*" and chain[0] != "back":
            it = ("it", ("back", chain), pos)
        chain = rev_chain(chain[1] if chain[0] == "back" else chain)
        if chain is None:
            return None
    if loc is None:
        return None
    out = []
    if pos[0] != "#":
        if pos[0] == "@" and has_skip(chain):
            raise Unmodelled("selection from a moved iterator")
        e.write(st, loc, ("it", it[1], pos_next(pos)))
        for s, status, v in e.gen(st, chain, pos, site):
            if status == "some":
                out.append(Outcome("ret", some(v), s))
            elif status == "none":
                if is_plain(chain):
                    e.write(s, loc, ("it", it[1], as_pos(size_of(chain))))
                out.append(Outcome("ret", NONE, s))
            elif status == "skip":
                e.skips.setdefault(pos[1], []).append(s)
            else:
                out.append(v)
        return out
    if has_skip(chain):
        # moved, so that a loop around this switches to generic elements
        if pos != ("#", 0):
            raise Unmodelled("selection from a moved iterator")
        e.write(st, loc, ("it", it[1], ("#", pos[1] + 1)))
        ends, exits = e.consume(st, chain, site, lambda s, v: ([], [], [(("found", v, e.eid), s)]))
        for tag, s in exits:
            if info["name"] == "next_back":
                e.write(s, loc, ("it", ("unknown",), it[2]))
            else:
                moved(e, s, loc, it, None if tag == "none" else tag[2])
            if tag == "none":
                out.append(Outcome("ret", NONE, s))
            else:
                out.append(Outcome("ret", some(tag[1]), s))
        return ends + out
    e.write(st, loc, ("it", it[1], ("#", pos[1] + 1)))
    for s, status, v in e.gen(st, chain, pos, site):
        if status == "some":
            out.append(Outcome("ret", some(v), s))
        elif status == "none":
            out.append(Outcome("ret", NONE, s))
        else:
            out.append(v)
    return out


@model("std::iter::Peekable::<I>::peek")
def peek(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    out = []
    for s, status, v in e.gen(st, it[1], it[2], site):
        if status == "some":
            out.append(Outcome("ret", some(v), s))
        elif status == "none":
            out.append(Outcome("ret", NONE, s))
        elif status == "skip":
            raise Unmodelled("peek over filter")
        else:
            out.append(v)
    return out


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::find",
       "std::iter::Iterator::position", "std::iter::Iterator::find_map",
       "std::iter::DoubleEndedIterator::rfind", "std::iter::ExactSizeIterator::rposition", "std::iter::Iterator::rposition",
       "std::iter::DoubleEndedIterator::rposition")
def searching(e, st, args, site, info, t):
    if local_impl(info):
        return None
    it, loc = as_it(e, st, args[0])
    n, f = info["name"], args[1]
    chain = rest(it[1], it[2])
    size = None
    if n in ("rfind", "rposition"):
        size = size_of(chain) if n == "rposition" else None
        if n == "rposition" and not is_plain(chain):
            return None
        chain = rev_chain(chain)
        if chain is None:
            return None
        n = n[1:]
    if n == "position":
        chain = numbered(st, chain, site)

    def step(s, v):
        ends, conts, exits = [], [], []
        eid = e.eid
        if n == "position":
            pos, v = v[1]
        for o in e.call(s, f, [v], site + ("f",)):
            if o.kind != "ret":
                ends.append(o)
                continue
            c = ("isv", o.value, OPTION, "Some") if n == "find_map" else o.value
            for s2, val in e.split(o.state, c):
                if val == (n != "all"):
                    r = {"any": TRUE, "all": FALSE, "find": some(v), "position": None}.get(n)
                    if n == "position":
                        r = some(pos if size is None else binop("Sub", binop("Sub", size, (INT, 1)), pos))
                    if n == "find_map":
                        r = some(proj_field(o.value, "0", 0, "Some"))
                    exits.append((("found", r, eid), s2))
                else:
                    conts.append(s2)
        return ends, conts, exits

    ends, exits = e.consume(st, chain, site, step)
    for tag, s in exits:
        if info["name"].startswith("r"):
            if loc is not None:
                e.write(s, loc, ("it", ("unknown",), it[2]))
        else:
            moved(e, s, loc, it, None if tag == "none" else tag[2])
    none = {"any": FALSE, "all": TRUE}.get(n, NONE)
    return ends + [Outcome("ret", none if tag == "none" else tag[1], s) for tag, s in exits]


@model("std::iter::Iterator::count")
def count(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    chain = rest(it[1], it[2])
    limit = None
    if chain[0] == "take":
        limit, chain = chain[2], chain[1]
    cell = ("acc", site)
    st.cells[cell] = (INT, 0)

    def step(s, v):
        s.cells[cell] = add(s.cells[cell], (INT, 1))
        return [], [s], []

    ends, exits = e.consume(st, chain, site, step)
    out = []
    for tag, s in exits:
        v = s.cells.pop(cell)
        if limit is not None:
            for s2, less in e.split(s, lt_atom(limit, v)):
                out.append(Outcome("ret", limit if less else v, s2))
        else:
            out.append(Outcome("ret", v, s))
    return ends + out


@model("std::iter::Iterator::sum", "std::iter::Iterator::product")
def sum_(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    if targ(e, info, 1).get("k") not in ("uint", "int"):
        raise Unmodelled("sum")
    cell = ("acc", site)
    plus = info["name"] == "sum"
    st.cells[cell] = (INT, 0 if plus else 1)

    def step(s, v):
        s.cells[cell] = add(s.cells[cell], e.deref(s, v)) if plus else binop("Mul", s.cells[cell], e.deref(s, v))
        return [], [s], []

    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    return ends + [Outcome("ret", s.cells.pop(cell), s) for tag, s in exits]


@model("std::iter::Iterator::collect")
def collect(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    ty = targ(e, info, 1)
    s0 = ty.get("s", "")
    cell = ("acc", site)
    wrap = None
    if s0.startswith("std::result::Result<"):
        wrap = "result"
    elif s0.startswith("std::option::Option<"):
        wrap = "option"
    inner = e.p.ty(ty["args"][0])["s"] if wrap else s0
    isstr = inner in STRISH
    st.cells[cell] = ("str", "") if isstr else ("vec", ())

    def put(s, v):
        v = e.resolve_refs(s, v)
        if isstr:
            s.cells[cell] = cat(s.cells[cell], ch(v) if v[0] == INT else v)
        else:
            s.cells[cell] = push_value(s.cells[cell], v)

    def step(s, v):
        v = e.deref(s, v)
        if wrap:
            good, bad = ("Ok", RESULT) if wrap == "result" else ("Some", OPTION)
            conts, exits = [], []
            for s2, val in e.split(s, ("isv", v, bad, good)):
                if val:
                    put(s2, proj_field(v, "0", 0, good))
                    conts.append(s2)
                else:
                    exits.append((("found", err(proj_field(v, "0", 0, "Err")) if wrap == "result" else NONE), s2))
            return [], conts, exits
        put(s, v)
        return [], [s], []

    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    out = []
    for tag, s in exits:
        v = s.cells.pop(cell)
        if inner.startswith("std::collections::") and ("Map<" in inner or "Set<" in inner):
            v = ("call", "distinct", (("str", inner.split("<")[0].split("::")[-1]), v))
        if tag == "none":
            v = ok(v) if wrap == "result" else some(v) if wrap == "option" else v
        else:
            v = tag[1]
        out.append(Outcome("ret", v, s))
    return ends + out


@model("std::vec::Vec::<T, A>::retain")
def vec_retain(e, st, args, site, info, t):
    if args[0][0] != "mref":
        return None
    loc, v0 = deep_loc(e, st, args[0])
    cell = ("acc", site)
    st.cells[cell] = ("vec", ())

    def step(s, v):
        s.cells[cell] = push_value(s.cells[cell], e.resolve_refs(s, v))
        return [], [s], []

    ends, exits = e.consume(st, ("filter", ("iter", v0), args[1]), site, step)
    for tag, s in exits:
        e.write(s, loc, s.cells.pop(cell))
    return ends + [Outcome("ret", UNIT, s) for tag, s in exits]


@model("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append")
def extend(e, st, args, site, info, t):
    if info.get("local") or args[0][0] != "mref":
        return None
    loc, v0 = deep_loc(e, st, args[0])
    it, iloc = as_it(e, st, args[1])
    isstr = v0[0] in ("str", "cat") or strip_ref(e.p, targ(e, info, 0)).get("s") == "std::string::String"

    def step(s, v):
        v = e.resolve_refs(s, v)
        if isstr:
            e.write(s, loc, cat(e.read(s, loc), ch(v) if v[0] == INT else v))
        else:
            e.write(s, loc, push_value(e.read(s, loc), v))
        s.event("push", v0, v, site)
        return [], [s], []

    # a whole slice appended to an unknown sequence stays one step
    if it[1][0] == "iter" and it[2] == ("#", 0) and not isstr:
        x = it[1][1]
        items = vec_items(x)
        if items is None or v0[0] not in ("vec", "arr"):
            e.write(st, loc, ("extend", v0, x))
            st.event("extend", v0, x, site)
            return ret(st, UNIT)
    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    return ends + [Outcome("ret", UNIT, s) for tag, s in exits]


@model("std::iter::Iterator::for_each")
def for_each(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    cell = ("fe", site)
    st.cells[cell] = args[1]

    def step(s, v):
        ends, conts = [], []
        for o in e.call(s, ("mref", cell, ()), [v], site + ("f",)):
            (conts if o.kind == "ret" else ends).append(o.state if o.kind == "ret" else o)
        return ends, conts, []

    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    return ends + [Outcome("ret", UNIT, s) for tag, s in exits]


@model("std::iter::Iterator::try_fold", "std::iter::Iterator::try_for_each")
def try_fold(e, st, args, site, info, t):
    each = info["name"] == "try_for_each"
    it, loc = as_it(e, st, args[0])
    ty = targ(e, info, 2 if each else 3).get("s", "")
    kind, good = (RESULT, "Ok") if ty.startswith("std::result::Result<") else (OPTION, "Some") if ty.startswith("std::option::Option<") else (None, None)
    if kind is None:
        return None
    cell = ("acc", site)
    st.cells[cell] = UNIT if each else args[1]
    f = args[1] if each else args[2]

    def step(s, v):
        ends, conts, exits = [], [], []
        eid = e.eid
        for o in e.call(s, f, [v] if each else [s.cells[cell], v], site + ("f",)):
            if o.kind != "ret":
                ends.append(o)
                continue
            for s2, val in e.split(o.state, ("isv", o.value, kind, good)):
                if val:
                    s2.cells[cell] = proj_field(o.value, "0", 0, good)
                    conts.append(s2)
                else:
                    exits.append((("found", err(proj_field(o.value, "0", 0, "Err")) if good == "Ok" else NONE, eid), s2))
        return ends, conts, exits

    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    out = []
    for tag, s in exits:
        moved(e, s, loc, it, None if tag == "none" else tag[2])
        v = s.cells.pop(cell)
        out.append(Outcome("ret", (ok(v) if good == "Ok" else some(v)) if tag == "none" else tag[1], s))
    return ends + out


@model("std::iter::Iterator::partition", "std::iter::Iterator::unzip")
def partition(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    cells = ("acc", site, 0), ("acc", site, 1)
    for c in cells:
        st.cells[c] = ("vec", ())

    def put(s, i, v):
        s.cells[cells[i]] = push_value(s.cells[cells[i]], e.resolve_refs(s, v))

    def step(s, v):
        ends, conts = [], []
        if info["name"] == "unzip":
            v = e.deref(s, v)
            for i in (0, 1):
                put(s, i, proj_field(v, str(i), i))
            return [], [s], []
        for o in e.call(s, args[1], [v], site + ("f",)):
            if o.kind != "ret":
                ends.append(o)
                continue
            for s2, val in e.split(o.state, o.value):
                put(s2, 0 if val else 1, v)
                conts.append(s2)
        return ends, conts, []

    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    return ends + [Outcome("ret", ("tup", tuple(s.cells.pop(c) for c in cells)), s) for tag, s in exits]


@model("std::iter::Iterator::fold")
def fold(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    cell = ("acc", site)
    st.cells[cell] = args[1]

    def step(s, v):
        ends, conts = [], []
        for o in e.call(s, args[2], [s.cells[cell], v], site + ("f",)):
            if o.kind == "ret":
                o.state.cells[cell] = o.value
                conts.append(o.state)
            else:
                ends.append(o)
        return ends, conts, []

    ends, exits = e.consume(st, rest(it[1], it[2]), site, step)
    return ends + [Outcome("ret", s.cells.pop(cell), s) for tag, s in exits]


@model("core::slice::<impl [T]>::partition_point")
def partition_point(e, st, args, site, info, t):
    return ret(st, ("call", "partition_point", (e.resolve_refs(st, e.deref(st, args[0])), pattern(e, st, args[1]))))


@model("std::string::String::retain")
def string_retain(e, st, args, site, info, t):
    return e.opaque_call(st, info["path"], [args[0], pattern(e, st, args[1])], site, info)


@model("std::iter::Iterator::last", "std::iter::Iterator::nth", "std::iter::Iterator::max", "std::iter::Iterator::min",
       "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by")
def last_(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    if "_by" in info["name"]:
        f = function(e, st, args[1], 1 if "key" in info["name"] else 2)
        if f is None:
            raise Unmodelled(info["name"])
        vals = (f,)
    else:
        vals = tuple(e.resolve_refs(st, e.deref(st, a)) for a in args[1:])
    if loc is not None:
        e.write(st, loc, ("it", ("after", it[1], vals), it[2]))
    ends, alts = gathered(e, st, rest(it[1], it[2]), site)
    return ends + [Outcome("ret", ("call", info["name"], (c,) + vals), s) for s, c in alts]


def whole(chain):
    """The collection whose items a chain yields as they are, or None."""
    k = chain[0]
    if k == "iter":
        return chain[1]
    if k == "range":
        return chain
    return whole(chain[1]) if k in ("cloned", "copied", "peek", "fuse") else None


def gathered(e, st, chain, site):
    """(ends, [(state, list)]): the items a chain has still to yield."""
    c = whole(chain)
    if c is not None:
        return [], [(st, ("chain", c))]
    cell = ("acc", site, "all")
    st.cells[cell] = ("vec", ())

    def step(s, v):
        s.cells[cell] = push_value(s.cells[cell], e.resolve_refs(s, v))
        return [], [s], []

    ends, exits = e.consume(st, chain, site + ("all",), step)
    return ends, [(s, s.cells.pop(cell)) for tag, s in exits]


ORDERED = {"lt": lambda c: ("isv", c, ORDERING, "Less"), "ge": lambda c: not_(("isv", c, ORDERING, "Less")),
           "gt": lambda c: ("isv", c, ORDERING, "Greater"), "le": lambda c: not_(("isv", c, ORDERING, "Greater"))}


@model("std::iter::Iterator::eq", "std::iter::Iterator::ne", "std::iter::Iterator::cmp", "std::iter::Iterator::partial_cmp",
       "std::iter::Iterator::lt", "std::iter::Iterator::le", "std::iter::Iterator::gt", "std::iter::Iterator::ge",
       "std::iter::Iterator::is_sorted")
def compare_all(e, st, args, site, info, t):
    n = info["name"]
    work = [(st, ())]
    ends = []
    for i, a in enumerate(args):
        nxt = []
        for s, cs in work:
            it, loc = as_it(e, s, a)
            en, alts = gathered(e, s, rest(it[1], it[2]), site + (i,))
            ends += en
            nxt += [(s2, cs + (c,)) for s2, c in alts]
        work = nxt
    out = []
    for s, cs in work:
        if n == "is_sorted":
            r = ("call", n, cs)
        elif n in ("eq", "ne"):
            r = ("eq", ("call", "items", cs[:1]), ("call", "items", cs[1:]))
            r = r if n == "eq" else not_(r)
        else:
            r = ("call", "cmp", cs)
            r = ORDERED[n](r) if n in ORDERED else some(r) if n == "partial_cmp" else r
        out.append(Outcome("ret", r, s))
    return ends + out


# -- orderings ------------------------------------------------------------------------

def _is(n, *names):
    def f(e, st, args, site, info, t):
        v = e.deref(st, args[0])
        c = FALSE
        for x in names:
            c = or_(c, ("isv", v, ORDERING, x))
        return ret(st, c)
    MODELS["std::cmp::Ordering::" + n] = f


for _n, _v in (("is_lt", ("Less",)), ("is_gt", ("Greater",)), ("is_eq", ("Equal",)), ("is_le", ("Less", "Equal")),
               ("is_ge", ("Greater", "Equal")), ("is_ne", ("Less", "Greater"))):
    _is(_n, *_v)


def ordered(x):
    return ("adt", ORDERING, x, ())


@model("std::cmp::Ordering::reverse")
def ord_reverse(e, st, args, site, info, t):
    v = e.deref(st, args[0])
    out = []
    for s, less in e.split(st, ("isv", v, ORDERING, "Less")):
        if less:
            out.append(Outcome("ret", ordered("Greater"), s))
            continue
        for s2, eq in e.split(s, ("isv", v, ORDERING, "Equal")):
            out.append(Outcome("ret", ordered("Equal" if eq else "Less"), s2))
    return out


@model("std::cmp::Ordering::then", "std::cmp::Ordering::then_with")
def ord_then(e, st, args, site, info, t):
    v = e.deref(st, args[0])
    out = []
    for s, eq in e.split(st, ("isv", v, ORDERING, "Equal")):
        if not eq:
            out.append(Outcome("ret", v, s))
        elif info["name"] == "then":
            out.append(Outcome("ret", e.deref(s, args[1]), s))
        else:
            out += e.call(s, args[1], [], site + ("f",))
    return out


@model("core::str::traits::<impl std::cmp::Ord for str>::cmp", "core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp",
       "<std::string::String as std::cmp::Ord>::cmp", "<std::vec::Vec<T, A> as std::cmp::Ord>::cmp")
def text_cmp(e, st, args, site, info, t):
    return ret(st, ("call", "cmp", (e.resolve_refs(st, e.deref(st, args[0])), e.resolve_refs(st, e.deref(st, args[1])))))


# -- endless iterators ----------------------------------------------------------------

@model("std::iter::Iterator::cycle")
def it_cycle(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    chain = rest(it[1], it[2])
    if not is_plain(chain) or chain[0] == "zip":
        raise Unmodelled("cycle of a selection")
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ret(st, it_of(("cycle", chain, cell)))


@model("std::iter::repeat")
def it_repeat(e, st, args, site, info, t):
    return ret(st, it_of(("again", e.resolve_refs(st, args[0]))))


@model("std::iter::repeat_n")
def it_repeat_n(e, st, args, site, info, t):
    cell = ("adapt", site)
    st.cells[cell] = (INT, 0)
    return ret(st, it_of(("take", ("again", e.resolve_refs(st, args[0])), e.deref(st, args[1]), cell)))


@model("std::iter::successors")
def it_successors(e, st, args, site, info, t):
    cell = ("adapt", site)
    st.cells[cell] = e.resolve_refs(st, args[0])
    return ret(st, it_of(("successors", e.deref(st, args[1]), cell)))


# -- parts of collections -------------------------------------------------------------

@model("core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut", "std::collections::VecDeque::<T, A>::back_mut",
       "std::collections::VecDeque::<T, A>::front_mut")
def end_mut(e, st, args, site, info, t):
    if args[0][0] != "mref":
        return None
    loc, v = deep_loc(e, st, args[0])
    n = e.length(st, v)
    i = (INT, 0) if info["name"] in ("first_mut", "front_mut") else binop("Sub", n, (INT, 1))
    return [Outcome("ret", NONE if empty else some(("mref", loc[0], loc[1] + (("i", i),))), s)
            for s, empty in e.split(st, eq_atom(n, (INT, 0)))]


@model("std::char::methods::<impl char>::to_lowercase", "std::char::methods::<impl char>::to_uppercase")
def char_case(e, st, args, site, info, t):
    return ret(st, it_of(("iter", ("call", "char_" + info["name"], (e.deref(st, args[0]),)))))


@model("std::str::Chars::<'a>::as_str", "std::slice::Iter::<'a, T>::as_slice", "std::str::CharIndices::<'a>::as_str")
def as_rest(e, st, args, site, info, t):
    it, loc = as_it(e, st, args[0])
    c = whole(rest(it[1], it[2]))
    if c is None:
        raise Unmodelled("rest of " + it[1][0])
    r = ("call", "items", (("chain", c),))
    if info["name"] == "as_str":
        r = ("call", "text", (r,))
    return ret(st, r)


@model("std::iter::Peekable::<I>::next_if", "std::iter::Peekable::<I>::next_if_eq")
def next_if(e, st, args, site, info, t):
    out = []
    for o in peek(e, st, args, site, info, t):
        if o.kind != "ret":
            out.append(o)
            continue
        for s, there in e.split(o.state, ("isv", o.value, OPTION, "Some")):
            if not there:
                out += next_(e, s, args[:1], site + ("n",), dict(info, name="next", local=False), t) or []
                continue
            v = proj_field(o.value, "0", 0, "Some")
            if info["name"] == "next_if_eq":
                os = ret(s, eq_atom(e.resolve_refs(s, e.deref(s, v)), e.resolve_refs(s, e.deref(s, args[1]))))
            else:
                os = e.call(s, args[1], [v], site + ("f",))
            for o2 in os:
                if o2.kind != "ret":
                    out.append(o2)
                    continue
                for s2, yes in e.split(o2.state, o2.value):
                    if yes:
                        out += next_(e, s2, args[:1], site + ("n",), dict(info, name="next", local=False), t) or []
                    else:
                        out.append(Outcome("ret", NONE, s2))
    return out


# -- function traits ------------------------------------------------------------------

@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def fn_call(e, st, args, site, info, t):
    f = args[0]
    fv = e.deref(st, f)
    tup = e.deref(st, args[1])
    if fv[0] in ("clo", "fn"):
        a = list(tup[1]) if tup[0] == "tup" else [tup]
        if fv[0] == "clo" and fv[1] in e.p.fns:
            return e.run_fn(fv[1], [f] + a, st, site + ("clo",))
        return e.call(st, fv, a, site)
    k = info.get("key")
    if k and k in e.p.fns:
        a = list(tup[1]) if tup[0] == "tup" else [tup]
        body = e.p.fns[k]
        if body["argc"] == len(a):
            return e.run_fn(k, a, st, site)
        return e.run_fn(k, [f] + a, st, site)
    return None


@model("core::bool::<impl bool>::then_some")
def then_some(e, st, args, site, info, t):
    return [Outcome("ret", some(args[1]) if v else NONE, s) for s, v in e.split(st, args[0])]


@model("std::char::methods::<impl char>::encode_utf8")
def encode_utf8(e, st, args, site, info, t):
    if args[1][0] == "mref":
        e.write(st, (args[1][1], args[1][2]), ("undef",))
    return ret(st, ch(e.deref(st, args[0])))
