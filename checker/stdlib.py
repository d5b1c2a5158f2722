"""Meanings of pure standard library functions on the values of table.py.

Strings are str, byte strings are bytes or lists of numbers, characters are
numbers, sequences are lists, options are V.  A function that meets a value it
does not know raises Unknown, which leaves the case undecided.
"""

import functools
from table import Err, NONE, Ok, Opaque, Some, U64, UNIT, Unknown, V, Panics, opt

STD = {}
UPD = {}


def std(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


def upd(*names):
    def d(f):
        for n in names:
            UPD[n] = f
        return f
    return d


class Pred:
    """A character predicate as a set of ranges."""

    def __init__(self, ranges):
        self.ranges = ranges

    def __call__(self, c):
        return any(lo <= c <= hi for lo, hi in self.ranges)


class CondPred:
    """A character predicate as guarded alternatives."""

    def __init__(self, case, alts, env):
        self.case, self.alts, self.env = case, alts, env
        self.memo = {}

    def __call__(self, c):
        if c not in self.memo:
            from table import Case, Infeasible
            k = self.case
            sub = type(k)(k.e, {**k.base, "_c": c}, k.oracle, k.eqs)
            for facts, v in self.alts:
                sols = sub.solutions(list(facts), self.env.fresh())
                if sols:
                    if not sols[0][1]:
                        raise Unknown("predicate")
                    self.memo[c] = sub.truth(v, sols[0][0])
                    break
            else:
                raise Infeasible()
        return self.memo[c]


class Alternatives:
    """A function of _a (and _b) as guarded alternatives."""

    def __init__(self, case, alts, env):
        self.case, self.alts, self.env = case, alts, env

    def __call__(self, *args):
        k = self.case
        sub = type(k)(k.e, {**k.base, **dict(zip(("_a", "_b"), args))}, k.oracle, k.eqs)
        for facts, v in self.alts:
            sols = sub.solutions(list(facts), self.env.fresh())
            if sols:
                if not sols[0][1]:
                    raise Unknown("function")
                return sub.val(v, sols[0][0])
        raise Unknown("function")


def inner(v):
    while isinstance(v, V) and len(v.vals) == 1 and v.path not in ("std::option::Option", "std::result::Result"):
        v = v.vals[0]
    return v


def is_bytes(v):
    return isinstance(v, bytes) or isinstance(v, list) and all(isinstance(x, int) and not isinstance(x, bool) and x < 256 for x in v)


def S(v):
    v = inner(v)
    if isinstance(v, str):
        return v
    raise Unknown("a string, not %s" % type(v).__name__)


def N(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    raise Unknown("a number, not %s" % type(v).__name__)


def seqv(v):
    v = inner(v)
    if isinstance(v, (str, bytes, list)):
        return v
    raise Unknown("a sequence, not %s" % type(v).__name__)


def blen(s):
    return len(s.encode())


def at_byte(s, n):
    """The position in characters of a byte offset."""
    b = s.encode()
    if n > len(b) or n < len(b) and (b[n] & 0xC0) == 0x80:
        raise Panics()
    return len(b[:n].decode())


def match_at(p, s, i):
    """Length of a match of pattern p at s[i:], or None."""
    p = inner(p)
    if not isinstance(s, str):      # a slice, split by a predicate on its items
        if not isinstance(p, (Pred, CondPred)):
            raise Unknown("predicate %r" % (p,))
        return 1 if i < len(s) and p(s[i]) else None
    if isinstance(p, str):
        return len(p) if s.startswith(p, i) else None
    if i >= len(s):
        return None
    c = ord(s[i])
    if isinstance(p, int) and not isinstance(p, bool):
        return 1 if c == p else None
    if isinstance(p, (list, tuple)) and all(isinstance(x, int) for x in p):
        return 1 if c in p else None
    if isinstance(p, (Pred, CondPred)):
        return 1 if p(c) else None
    raise Unknown("pattern %r" % (p,))


def matches(p, s):
    out, i = [], 0
    while i <= len(s):
        n = match_at(p, s, i) if i < len(s) or isinstance(inner(p), str) else None
        if n is None:
            i += 1
            continue
        out.append((i, i + n))
        i += max(n, 1)
    return out


def pieces(p, s):
    out, last = [], 0
    for a, b in matches(p, s):
        out.append(s[last:a])
        last = b
    out.append(s[last:])
    return out


def ends_with(p, s):
    p = inner(p)
    if isinstance(p, str):
        return len(p) if s.endswith(p) else None
    return match_at(p, s, len(s) - 1) if s else None


@std("split")
def _(s, p):
    return pieces(p, seqv(s))


@std("rsplit")
def _(s, p):
    return pieces(p, seqv(s))[::-1]


@std("split_terminator")
def _(s, p):
    x = pieces(p, S(s))
    return x[:-1] if x and not x[-1] else x


@std("split_inclusive")
def _(s, p):
    s = seqv(s)
    out, last = [], 0
    for a, b in matches(p, s):
        out.append(s[last:b])
        last = b
    if last < len(s):
        out.append(s[last:])
    return out


@std("splitn")
def _(s, n, p):
    s = seqv(s)
    out, last = [], 0
    for a, b in matches(p, s):
        if len(out) + 1 >= n:
            break
        out.append(s[last:a])
        last = b
    return out + [s[last:]] if n else []


@std("rsplitn")
def _(s, n, p):
    s = seqv(s)
    out, end = [], len(s)
    for a, b in matches(p, s)[::-1]:
        if len(out) + 1 >= n:
            break
        out.append(s[b:end])
        end = a
    return out + [s[:end]] if n else []


@std("split_once")
def _(s, p):
    s = S(s)
    m = matches(p, s)
    return Some((s[:m[0][0]], s[m[0][1]:])) if m else NONE


@std("rsplit_once")
def _(s, p):
    s = S(s)
    m = matches(p, s)
    return Some((s[:m[-1][0]], s[m[-1][1]:])) if m else NONE


@std("matches")
def _(s, p):
    s = S(s)
    return [s[a:b] for a, b in matches(p, s)]


@std("match_indices")
def _(s, p):
    s = S(s)
    return [(blen(s[:a]), s[a:b]) for a, b in matches(p, s)]


@std("find")
def _(s, p):
    s = S(s)
    m = matches(p, s)
    return Some(blen(s[:m[0][0]])) if m else NONE


@std("rfind")
def _(s, p):
    s = S(s)
    m = matches(p, s)
    return Some(blen(s[:m[-1][0]])) if m else NONE


@std("contains")
def _(s, p):
    s = inner(s)
    if isinstance(s, str):
        return bool(matches(p, s))
    if isinstance(s, (list, bytes)) and isinstance(p, (int, str)):
        return p in s
    raise Unknown("contains")


@std("lines")
def _(s):
    x = S(s).split("\n")
    last = x.pop()
    return [y[:-1] if y.endswith("\r") else y for y in x] + ([last] if last else [])


@std("chars")
def _(s):
    return [ord(c) for c in S(s)]


@std("char_indices")
def _(s):
    s = S(s)
    return [(blen(s[:i]), ord(c)) for i, c in enumerate(s)]


@std("bytes", "as_bytes", "into_bytes", "to_vec", "into_boxed_slice", "as_slice")
def _(s):
    s = inner(s)
    return s.encode() if isinstance(s, str) else s if isinstance(s, (bytes, list)) else _raise("bytes")


def _raise(x):
    raise Unknown(x)


@std("split_whitespace")
def _(s):
    return S(s).split()


@std("split_ascii_whitespace")
def _(s):
    out, cur = [], ""
    for c in S(s):
        if c in " \t\n\r\f":
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if cur else out


@std("windows")
def _(s, n):
    s = seqv(s)
    s = list(s.encode() if isinstance(s, str) else s)
    return [s[i:i + n] for i in range(len(s) - n + 1)]


@std("chunks")
def _(s, n):
    s = seqv(s)
    return [s[i:i + n] for i in range(0, len(s), n)]


@std("chunks_exact")
def _(s, n):
    s = seqv(s)
    return [s[i:i + n] for i in range(0, len(s) - n + 1, n)]


def _trim_start(s, p):
    i = 0
    while i < len(s):
        n = match_at(p, s, i)
        if not n:
            break
        i += n
    return s[i:]


def _trim_end(s, p):
    while s:
        n = ends_with(p, s)
        if not n:
            break
        s = s[:len(s) - n]
    return s


WS = Pred(((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
           (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)))
AWS = Pred(((9, 10), (12, 13), (32, 32)))

STD["trim_start_matches"] = lambda s, p: _trim_start(S(s), p)
STD["trim_end_matches"] = lambda s, p: _trim_end(S(s), p)
STD["trim_left_matches"], STD["trim_right_matches"] = STD["trim_start_matches"], STD["trim_end_matches"]
STD["trim_matches"] = lambda s, p: _trim_end(_trim_start(S(s), p), p)


def _bstr(f):
    def g(s):
        s = inner(s)
        if isinstance(s, str):
            return f(s)
        if is_bytes(s):
            return f(bytes(s).decode("latin-1")).encode("latin-1")
        raise Unknown("trim")
    return g


STD["trim"] = lambda s: _trim_end(_trim_start(S(s), WS), WS)
STD["trim_start"] = lambda s: _trim_start(S(s), WS)
STD["trim_end"] = lambda s: _trim_end(S(s), WS)
STD["trim_ascii"] = _bstr(lambda s: _trim_end(_trim_start(s, AWS), AWS))
STD["trim_ascii_start"] = _bstr(lambda s: _trim_start(s, AWS))
STD["trim_ascii_end"] = _bstr(lambda s: _trim_end(s, AWS))


@std("strip_prefix")
def _(s, p):
    s, p = inner(s), inner(p)
    if isinstance(p, bytes) and isinstance(s, str):
        s = s.encode()
    if isinstance(s, str):
        n = match_at(p, s, 0)
        return NONE if n is None else Some(s[n:])
    if isinstance(s, (bytes, list)) and isinstance(p, (bytes, list)):
        return Some(s[len(p):]) if list(s[:len(p)]) == list(p) else NONE
    raise Unknown("strip_prefix")


@std("strip_suffix")
def _(s, p):
    s, p = inner(s), inner(p)
    if isinstance(p, bytes) and isinstance(s, str):
        s = s.encode()
    if isinstance(s, str):
        n = ends_with(p, s)
        return NONE if n is None else Some(s[:len(s) - n])
    if isinstance(s, (bytes, list)) and isinstance(p, (bytes, list)):
        return (Some(s[:len(s) - len(p)]) if not p or list(s[-len(p):]) == list(p) else NONE) if len(p) <= len(s) else NONE
    raise Unknown("strip_suffix")


STD["starts_with"] = lambda s, p: STD["strip_prefix"](s, p).variant == "Some"
STD["ends_with"] = lambda s, p: STD["strip_suffix"](s, p).variant == "Some"


@std("split_at")
def _(s, n):
    s = seqv(s)
    if isinstance(s, str):
        i = at_byte(s, N(n))
        return (s[:i], s[i:])
    if n > len(s):
        raise Panics()
    return (s[:n], s[n:])


@std("split_at_checked")
def _(s, n):
    try:
        return Some(STD["split_at"](s, n))
    except Panics:
        return NONE


@std("is_char_boundary")
def _(s, n):
    try:
        at_byte(S(s), n)
        return True
    except Panics:
        return False


@std("replace")
def _(s, p, r):
    return S(r).join(pieces(p, S(s)))


@std("replacen")
def _(s, p, r, n):
    s = S(s)
    out, last = "", 0
    for a, b in matches(p, s)[:n]:
        out += s[last:a] + S(r)
        last = b
    return out + s[last:]


@std("repeat")
def _(s, n):
    s = seqv(s)
    if len(s) * n > 100000:
        raise Unknown("repeat")
    return s * n


@std("join")
def _(xs, sep):
    xs, sep = [inner(x) for x in xs], inner(sep)
    if isinstance(sep, str) and all(isinstance(x, str) for x in xs):
        return sep.join(xs)
    raise Unknown("join")


@std("concat")
def _(xs):
    xs = [inner(x) for x in xs]
    if xs and all(isinstance(x, str) for x in xs):
        return "".join(xs)
    if xs and all(is_bytes(x) for x in xs):
        return b"".join(bytes(x) for x in xs)
    if all(isinstance(x, list) for x in xs):
        return [y for x in xs for y in x]
    raise Unknown("concat")


@std("is_ascii")
def _(s):
    s = inner(s)
    if isinstance(s, str):
        return s.isascii()
    if isinstance(s, int):
        return s < 128
    if is_bytes(s):
        return all(x < 128 for x in s)
    raise Unknown("is_ascii")


@std("get")
def _(c, i):
    c = inner(c)
    if isinstance(c, dict):
        raise Unknown("get")
    if isinstance(i, int):
        if isinstance(c, str):      # a text seen as bytes
            c = c.encode()
        if isinstance(c, (list, bytes)):
            return Some(c[i]) if 0 <= i < len(c) else NONE
        raise Unknown("get")
    if isinstance(i, V) and i.path.startswith("std::ops::Range"):
        lo, hi = bounds(i, blen(c) if isinstance(c, str) else len(c))
        if isinstance(c, str):
            try:
                a, b = at_byte(c, lo), at_byte(c, hi)
            except Panics:
                return NONE
            return Some(c[a:b]) if a <= b else NONE
        return Some(c[lo:hi]) if lo <= hi <= len(c) else NONE
    raise Unknown("get")


def bounds(r, n):
    k = r.path.split("::")[-1]
    if k == "RangeFull":
        return 0, n
    if k == "RangeFrom":
        return r.vals[0], n
    if k == "RangeTo":
        return 0, r.vals[0]
    if k == "RangeToInclusive":
        return 0, r.vals[0] + 1
    if k == "RangeInclusive":
        return r.vals[0], r.vals[1] + 1
    return r.vals[0], r.vals[1]


STD["first"] = lambda c: opt_first(seqv(c))


def opt_first(c):
    if isinstance(c, str):      # a text seen as bytes
        c = c.encode()
    return Some(c[0]) if c else NONE


def _last(c):
    c = inner(c)
    if isinstance(c, (list, bytes, tuple)):
        return Some(c[-1]) if c else NONE
    raise Unknown("last")


STD["last"] = _last
def bytes_of(c):
    c = seqv(c)
    return c.encode() if isinstance(c, str) else c


STD["split_first"] = lambda c: Some((bytes_of(c)[0], bytes_of(c)[1:])) if len(c) else NONE
STD["split_last"] = lambda c: Some((bytes_of(c)[-1], bytes_of(c)[:-1])) if len(c) else NONE


def _nth(c, n):
    return Some(c[n]) if n < len(c) else NONE


STD["nth"] = _nth


def extreme(c, a, sign, cmp=None):
    """The last greatest (sign 1) or first least (-1) item."""
    import table
    cmp = cmp or table.order
    c = [c, *a] if a else items(c)
    if not c:
        return NONE
    r = c[0]
    for x in c[1:]:
        o = cmp(x, r)
        if o * sign > 0 or o == 0 and sign > 0:
            r = x
    return r if a else Some(r)


def items(c):
    if isinstance(c, V):
        c = inner(c)
    if isinstance(c, (list, bytes, tuple)):
        return list(c)
    raise Unknown("items of %s" % type(c).__name__)


def _max(c, *a):
    return extreme(c, a, 1)


def _min(c, *a):
    return extreme(c, a, -1)


def compared(f):
    if not callable(f):
        raise Unknown("comparison")

    def cmp(a, b):
        o = f(a, b)
        if isinstance(o, V) and o.variant in ("Less", "Equal", "Greater"):
            return ("Less", "Equal", "Greater").index(o.variant) - 1
        raise Unknown("ordering %r" % (o,))
    return cmp


def keyed(f):
    import table
    if not callable(f):
        raise Unknown("key")
    return lambda a, b: table.order(f(a), f(b))


STD["max_by"] = lambda c, f: extreme(c, (), 1, compared(f))
STD["min_by"] = lambda c, f: extreme(c, (), -1, compared(f))
STD["max_by_key"] = lambda c, f: extreme(c, (), 1, keyed(f))
STD["min_by_key"] = lambda c, f: extreme(c, (), -1, keyed(f))


def _cmp(a, b):
    import table
    return table.ordering(table.order(a, b))


def _partial_cmp(a, b):
    return Some(_cmp(a, b))


STD["cmp"], STD["partial_cmp"] = _cmp, _partial_cmp


def _sorted(c):
    import table
    c = items(c)
    return all(table.order(a, b) <= 0 for a, b in zip(c, c[1:]))


STD["is_sorted"] = _sorted


@std("binary_search")
def _(c, x):
    import table
    c = items(c)
    if not _sorted(c):
        raise Unknown("binary_search")
    n = sum(table.order(y, x) < 0 for y in c)
    k = sum(table.order(y, x) == 0 for y in c)
    if k > 1:
        raise Unknown("binary_search")
    return Ok(n) if k else Err(n)


@std("partition_point")
def _(c, p):
    if not isinstance(p, (Pred, CondPred)):
        raise Unknown("partition_point")
    r = [p(x) for x in items(c)]
    if sorted(r, reverse=True) != r:
        raise Unknown("partition_point")
    return sum(r)


@std("distinct")
def _(kind, c):
    """What a collection into a set or map keeps."""
    import table
    if kind.endswith("Map"):
        d = {table.freeze(k): v for k, v in c}
        return table.TreeMap(d) if kind == "BTreeMap" else d
    return (table.TreeSet if kind == "BTreeSet" else frozenset)(table.freeze(x) for x in c)


STD["len_utf8"] = lambda c: len(chr(N(c)).encode())
STD["rmatch_indices"] = lambda s, p: list(reversed(STD["match_indices"](s, p)))
STD["escape_ascii"] = lambda s: "".join(
    {9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 39: "\\'", 92: "\\\\"}.get(b, chr(b) if 32 <= b < 127 else "\\x%02x" % b)
    for b in bytes_of(s))


def _char_case(f):
    def g(x):
        if isinstance(x, int) and not isinstance(x, bool):
            return [ord(c) for c in f(chr(x))]
        raise Unknown("letter case")
    return g


STD["char_to_lowercase"], STD["char_to_uppercase"] = _char_case(str.lower), _char_case(str.upper)


@std("from_str_radix")
def _(s, radix, ty="u32"):
    return parse_int(ty, N(radix))(s)


for _n in ("shrink_to_fit", "reserve", "reserve_exact", "shrink_to"):
    UPD[_n] = lambda old, vals, i: old


STD["max"], STD["min"] = _max, _min


@std("from_utf8")
def _(b):
    b = inner(b)
    if isinstance(b, str):
        return Ok(b)
    if not is_bytes(b):
        raise Unknown("utf8")
    try:
        return Ok(bytes(inner(b)).decode())
    except UnicodeDecodeError as x:
        return Err(Opaque("Utf8Error", x.start))


@std("valid_up_to")
def _(e):
    if isinstance(e, Opaque) and e.name == "Utf8Error":
        return e.args[0]
    raise Unknown("valid_up_to")


@std("from_utf8_unchecked")
def _(b):
    try:
        return bytes(inner(b)).decode()
    except UnicodeDecodeError:
        raise Unknown("unchecked")


@std("from_utf8_lossy")
def _(b):
    return bytes(inner(b)).decode("utf-8", "replace")


# -- numbers: the width is in the name ------------------------------------------

WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def quot(x, y):
    return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)


def number(ty, op, a):
    w = WIDTH.get(ty) or SIGNED.get(ty)
    if w is None:
        raise Unknown("number type " + ty)
    low, top = (-1 << w - 1, (1 << w - 1) - 1) if ty in SIGNED else (0, (1 << w) - 1)
    if op == "from_str_radix":
        return parse_int(ty, N(a[1]))(a[0])
    if op in ("from_be_bytes", "from_le_bytes"):
        return int.from_bytes(bytes(items(a[0])), "big" if "be" in op else "little", signed=ty in SIGNED)
    a = [N(x) for x in a]
    x = a[0]
    y = a[1] if len(a) > 1 else None
    full = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "pow": lambda: x ** min(y, 4096),
            "div": lambda: int(quot(x, y)) if y else None, "rem": lambda: x - y * quot(x, y) if y else None}
    for pre in ("saturating_", "checked_", "wrapping_", "overflowing_"):
        if op.startswith(pre) and op[len(pre):] in full:
            r = full[op[len(pre):]]()
            if pre == "checked_":
                return Some(r) if r is not None and low <= r <= top else NONE
            if r is None:
                raise Panics()
            if pre == "saturating_":
                return max(low, min(top, r))
            m = (r - low & (1 << w) - 1) + low
            return m if pre == "wrapping_" else (m, r != m)
    f = {
        "abs_diff": lambda: abs(x - y), "min": lambda: min(x, y), "max": lambda: max(x, y),
        "pow": lambda: x ** y, "div_ceil": lambda: -(-x // y), "count_ones": lambda: bin(x).count("1"),
        "is_power_of_two": lambda: x > 0 and x & (x - 1) == 0, "leading_zeros": lambda: w - x.bit_length(),
        "rem_euclid": lambda: x % y, "div_euclid": lambda: x // y,
        "to_ascii_lowercase": lambda: x + 32 if 65 <= x <= 90 else x,
        "to_ascii_uppercase": lambda: x - 32 if 97 <= x <= 122 else x,
        "eq_ignore_ascii_case": lambda: number("u8", "to_ascii_lowercase", [x]) == number("u8", "to_ascii_lowercase", [y]),
        "next_multiple_of": lambda: -(-x // y) * y,
        "unsigned_abs": lambda: abs(x), "signum": lambda: (x > 0) - (x < 0), "is_negative": lambda: x < 0,
        "is_positive": lambda: x > 0, "trailing_zeros": lambda: (x & -x).bit_length() - 1 if x else w,
        "swap_bytes": lambda: int.from_bytes(x.to_bytes(w // 8, "little"), "big"),
        "rotate_left": lambda: (x << y % w | x >> w - y % w) & top, "rotate_right": lambda: (x >> y % w | x << w - y % w) & top,
        "to_be_bytes": lambda: list((x & (1 << w) - 1).to_bytes(w // 8, "big")),
        "to_le_bytes": lambda: list((x & (1 << w) - 1).to_bytes(w // 8, "little")),
        "wrapping_neg": lambda: -x & (1 << w) - 1, "ilog2": lambda: x.bit_length() - 1,
        "checked_neg": lambda: Some(0) if x == 0 else NONE,
        "wrapping_shl": lambda: x << y % w & top, "wrapping_shr": lambda: x >> y % w,
    }.get(op)
    if f is None or ty in SIGNED and op in ("rotate_left", "rotate_right", "leading_zeros", "trailing_zeros", "count_ones",
                                            "swap_bytes", "wrapping_neg", "checked_neg", "wrapping_shl", "wrapping_shr", "ilog2"):
        raise Unknown("number function " + op)
    if op == "ilog2" and x <= 0 or op in ("pow", "next_multiple_of", "unsigned_abs") and op == "pow" and y > 4096:
        raise Panics()
    try:
        r = f()
        if op in ("pow", "next_multiple_of") and not low <= r <= top:
            raise Panics()
        return r
    except ZeroDivisionError:
        raise Panics()


def to_digit(c, radix):
    try:
        d = int(chr(N(c)), 36) if chr(c).isascii() and chr(c).isalnum() else 99
    except ValueError:
        d = 99
    return Some(d) if d < radix else NONE


STD["to_digit"] = to_digit
STD["is_digit"] = lambda c, radix: bool(to_digit(c, radix).vals)


@std("from_digit")
def _(n, radix):
    return Some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[N(n)])) if N(n) < N(radix) else NONE


def parse_int(ty, radix=10):
    low, top = (0, (1 << WIDTH[ty]) - 1) if ty in WIDTH else (-1 << SIGNED[ty] - 1, (1 << SIGNED[ty] - 1) - 1)

    def f(s):
        s = S(s)
        t = s[1:] if s[:1] in ("+", "-" if low else "+") and len(s) > 1 else s
        if t and t.isascii() and t.isalnum() and all(int(c, 36) < radix for c in t):
            n = int(t, radix) * (-1 if s[0] == "-" else 1)
            if low <= n <= top:
                return Ok(n)
        return Err(Opaque("ParseIntError"))
    return f


# -- changes in place -------------------------------------------------------------

@upd("clear")
def _(old, vals, i):
    return "" if isinstance(old, str) else type(old)() if isinstance(old, (list, bytes, dict)) else _raise("clear")


@upd("truncate")
def _(old, vals, i):
    n = N(vals[1])
    if isinstance(old, str):
        return old if n >= blen(old) else old[:at_byte(old, n)]
    return seqv(old)[:n]


@upd("pop")
def _(old, vals, i):
    return seqv(old)[:-1]


@std("pop")
def _(c):
    c = seqv(c)
    if not c:
        return NONE
    return Some(ord(c[-1]) if isinstance(c, str) else c[-1])


@upd("retain")
def _(old, vals, i):
    p = vals[1]
    if isinstance(p, (Pred, CondPred)):
        if isinstance(old, str):
            return "".join(c for c in old if p(ord(c)))
        if isinstance(old, (list, bytes)):
            return type(old)(c for c in old if p(c))
    raise Unknown("retain")


@std("from_elem")
def _(x, n):
    if N(n) > 100000:
        raise Unknown("from_elem")
    return [x] * n


@upd("fill")
def _(old, vals, i):
    return [vals[1]] * len(seqv(old))


@std("swap_remove")
def _(c, i):
    c = seqv(c)
    if i >= len(c):
        raise Panics()
    return c[i]


@upd("swap_remove")
def _(old, vals, i):
    c, k = list(seqv(old)), vals[1]
    if k >= len(c):
        raise Panics()
    c[k] = c[-1]
    return c[:-1]


@std("split_off")
def _(c, n):
    c = seqv(c)
    if isinstance(c, str):
        return c[at_byte(c, n):]
    if n > len(c):
        raise Panics()
    return c[n:]


@upd("split_off")
def _(old, vals, i):
    return UPD["truncate"](old, vals, i)


@upd("insert_str")
def _(old, vals, i):
    k = at_byte(S(old), N(vals[1]))
    return old[:k] + S(vals[2]) + old[k:]


@upd("replace_range")
def _(old, vals, i):
    lo, hi = (at_byte(S(old), n) for n in bounds(vals[1], blen(S(old))))
    if lo > hi:
        raise Panics()
    return old[:lo] + S(vals[2]) + old[hi:]


@upd("rotate_left")
def _(old, vals, i):
    c = list(seqv(old))
    return c[vals[1]:] + c[:vals[1]]


@upd("rotate_right")
def _(old, vals, i):
    c = list(seqv(old))
    return c[len(c) - vals[1]:] + c[:len(c) - vals[1]]


@upd("reverse")
def _(old, vals, i):
    return list(seqv(old))[::-1]


@upd("sort", "sort_unstable")
def _(old, vals, i):
    import table
    return sorted(seqv(old), key=functools.cmp_to_key(table.order))


@upd("sort_by", "sort_unstable_by")
def _(old, vals, i):
    def cmp(a, b):
        o = vals[1](a, b)
        if isinstance(o, V) and o.variant in ("Less", "Equal", "Greater"):
            return ("Less", "Equal", "Greater").index(o.variant) - 1
        raise Unknown("ordering %r" % (o,))
    if not isinstance(vals[1], Alternatives):
        raise Unknown("sort_by")
    return sorted(seqv(old), key=functools.cmp_to_key(cmp))


@upd("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def _(old, vals, i):
    if not isinstance(vals[1], Alternatives):
        raise Unknown("sort_by_key")
    import table
    cmp = functools.cmp_to_key(table.order)
    return sorted(seqv(old), key=lambda x: cmp(vals[1](x)))


@upd("dedup")
def _(old, vals, i):
    out = []
    for x in seqv(old):
        if not out or out[-1] != x:
            out.append(x)
    return out


@upd("dedup_by")
def _(old, vals, i):
    return dedup(old, vals, lambda x, y: vals[1](x, y))


@upd("dedup_by_key")
def _(old, vals, i):
    return dedup(old, vals, lambda x, y: vals[1](x) == vals[1](y))


def dedup(old, vals, same):
    if not isinstance(vals[1], Alternatives):
        raise Unknown("dedup_by")
    out = []
    for x in seqv(old):
        if not out or not same(x, out[-1]):
            out.append(x)
    return out


@upd("remove")
def _(old, vals, i):
    k = vals[1]
    if isinstance(old, dict):
        from table import freeze
        return type(old)({a: b for a, b in old.items() if a != freeze(k)})
    if isinstance(old, frozenset):
        from table import freeze
        return type(old)(frozenset(old) - {freeze(k)})
    if isinstance(old, (list, bytes)):
        if N(k) >= len(old):
            raise Panics()
        return old[:k] + old[k + 1:]
    if isinstance(old, str):
        k = at_byte(old, N(k))
        if k >= len(old):
            raise Panics()
        return old[:k] + old[k + 1:]
    raise Unknown("remove")


@upd("make_ascii_lowercase")
def _(old, vals, i):
    import table
    return table.PURE["to_ascii_lowercase"](old)


@upd("make_ascii_uppercase")
def _(old, vals, i):
    import table
    return table.PURE["to_ascii_uppercase"](old)


@upd("swap")
def _(old, vals, i):
    c = list(seqv(old))
    a, b = vals[1], vals[2]
    c[a], c[b] = c[b], c[a]
    return c


@upd("insert")
def _(old, vals, i):
    if isinstance(old, (list, bytes)) and len(vals) == 3:
        if N(vals[1]) > len(old):
            raise Panics()
        return list(old[:vals[1]]) + [vals[2]] + list(old[vals[1]:])
    if isinstance(old, str) and len(vals) == 3:
        k = at_byte(old, N(vals[1]))
        return old[:k] + chr(vals[2]) + old[k:]
    raise Unknown("insert")


@upd("extend_from_slice", "append")
def _(old, vals, i):
    if i != 0:
        raise Unknown("append")
    a, b = seqv(old), seqv(vals[1])
    return bytes(a) + bytes(b) if is_bytes(a) and is_bytes(b) and isinstance(a, bytes) else list(a) + list(b)


@upd("drain")
def _(old, vals, i):
    r = vals[1]
    if isinstance(old, str):
        lo, hi = (at_byte(old, n) for n in bounds(r, blen(old)))
    else:
        lo, hi = bounds(r, len(old))
    return old[:lo] + old[hi:]


@upd("resize")
def _(old, vals, i):
    c = list(seqv(old))
    return (c + [vals[2]] * max(0, vals[1] - len(c)))[:vals[1]]


@upd("push_front")
def _(old, vals, i):
    return [vals[1]] + list(seqv(old))


@upd("pop_back")
def _(old, vals, i):
    return seqv(old)[:-1]


@upd("pop_front")
def _(old, vals, i):
    return seqv(old)[1:]


STD["pop_back"] = STD["pop"]
STD["pop_front"] = opt_first
STD["front"] = opt_first
STD["back"] = STD["last"]


@std("remove")
def _(c, k):
    from table import freeze
    if isinstance(c, dict):
        return Some(c[freeze(k)]) if freeze(k) in c else NONE
    if isinstance(c, frozenset):
        return freeze(k) in c
    c = seqv(c)
    if isinstance(c, str):
        i = at_byte(c, N(k))
        if i >= len(c):
            raise Panics()
        return ord(c[i])
    if N(k) >= len(c):
        raise Panics()
    return c[k]


@upd("extend_from_within")
def _(old, vals, i):
    c = list(seqv(old))
    lo, hi = bounds(vals[1], len(c))
    if not 0 <= lo <= hi <= len(c):
        raise Panics()
    return c + c[lo:hi]


@upd("splice")
def _(old, vals, i):
    c = list(seqv(old))
    lo, hi = bounds(vals[1], len(c))
    if not 0 <= lo <= hi <= len(c):
        raise Panics()
    return c[:lo] + items(vals[2]) + c[hi:]


@upd("copy_from_slice", "clone_from_slice")
def _(old, vals, i):
    if i != 0:
        return old
    if len(seqv(old)) != len(seqv(vals[1])):
        raise Panics()
    return vals[1]


@upd("fill_with", "select_nth_unstable")
def _(old, vals, i):
    raise Unknown("change in place")


STD["items"] = items


@std("text")
def _(c):
    return "".join(chr(N(x[1] if isinstance(x, tuple) else x)) for x in c)


def _ascii(name):
    def f(x):
        import table
        return table.PURE[name](x)
    return f


for _n in ("to_ascii_lowercase", "to_ascii_uppercase"):
    STD[_n] = _ascii(_n)
