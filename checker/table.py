"""Evaluation of extracted summaries on the cells of a finite partition.

The engine (engine.py) turns a function into guarded outcomes.  Here the guards
and values of those outcomes are evaluated in one *case*: an assignment of the
abstract inputs (variant of each option, order of the compared values, which
names are equal), and of the results of the calls the analysis kept opaque.  A
fact the evaluator has no meaning for makes the outcome *possible* rather than
certain in that case; certain and possible outcomes are told apart by the checks.
"""

import re
from fractions import Fraction

from engine import INT, OPTION, ORDERING, RESULT, INF, walk


class Unknown(Exception):
    """A term or fact without a meaning in the case at hand."""


class Free(Unknown):
    """A term the case leaves open (either value is possible)."""


class Infeasible(Exception):
    pass


class Panics(Exception):
    pass


U64 = (1 << 64) - 1


def deep_hash(x):
    """A hash of values that may hold lists and dicts."""
    if isinstance(x, (list, tuple)):
        return hash(tuple(map(deep_hash, x)))
    if isinstance(x, (dict, set, bytearray)):
        return len(x)
    return hash(x)


class V:
    """A value of an algebraic type: variant and fields by name and index."""

    __slots__ = ("path", "variant", "names", "vals", "free", "_h")

    def __init__(self, path, variant, names, vals, free=False):
        self.path, self.variant, self.names, self.vals = path, variant, tuple(names), tuple(vals)
        self.free = free        # other fields are left open
        self._h = None

    def get(self, name, idx=None):
        if name in self.names:
            return self.vals[self.names.index(name)]
        if idx is not None and not self.free and idx < len(self.vals) and (
                name is None or name.isdigit() or not self.names or self.names[0].isdigit()):
            return self.vals[idx]
        raise Free("field %s of %s" % (name, self.path))

    def set(self, i, x):
        vals = list(self.vals)
        vals[i] = x
        return V(self.path, self.variant, self.names, vals, self.free)

    def key(self):
        return (self.path, self.variant, self.vals)

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.path, self.variant, deep_hash(self.vals)))
        return self._h

    def __repr__(self):
        n = self.path.split("::")[-1]
        n = self.variant if self.variant == n or self.path in (OPTION, RESULT) else n + "::" + self.variant
        if not self.vals:
            return n
        if self.names and not self.names[0].isdigit():
            return n + "{" + ", ".join("%s: %r" % x for x in zip(self.names, self.vals)) + "}"
        return n + "(" + ", ".join(map(repr, self.vals)) + ")"


def Some(x):
    return V(OPTION, "Some", ("0",), (x,))


NONE = V(OPTION, "None", (), ())


def Ok(x):
    return V(RESULT, "Ok", ("0",), (x,))


def Err(x):
    return V(RESULT, "Err", ("0",), (x,))


UNIT = ()


def struct(path, **fields):
    return V(path, path.split("::")[-1], tuple(fields), tuple(fields.values()), True)


def enum(path, variant, *vals, names=None):
    return V(path, variant, names or tuple(str(i) for i in range(len(vals))), vals)


def opt(x):
    return NONE if x is None else Some(x)


COW = "std::borrow::Cow"


class CowStr(str):
    """A Cow<str>: everywhere its text, but for a match on the variant."""


class CowBytes(bytes):
    pass


class Opaque:
    """The result of an uninterpreted call."""

    __slots__ = ("name", "args", "_h")

    def __init__(self, name, *args):
        self.name, self.args = name, tuple(args)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Opaque) and (self.name, self.args) == (o.name, o.args)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.name, deep_hash(self.args)))
        return self._h

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


class TreeMap(dict):
    """A map in the order of its keys."""

    __slots__ = ()


class TreeSet(frozenset):
    """A set in order."""

    __slots__ = ()


def order(a, b):
    """-1, 0 or 1: the order of two values of one type."""
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) or isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    if isinstance(a, (list, tuple, bytes)) and isinstance(b, (list, tuple, bytes)):
        if a and a[0] == "secs" or b and b[0] == "secs":
            if not (a and b and a[0] == b[0]):
                raise Unknown("order")
        for x, y in zip(a, b):
            c = order(x, y)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, V) and isinstance(b, V) and a.path == b.path:
        from engine import DISCR, OPTION
        if a.path == "std::cmp::Reverse":
            return order(b.vals[0], a.vals[0])
        names = [DISCR[a.path][n] for n in sorted(DISCR[a.path])] if a.path in DISCR else None
        if a.path == ORDERING:
            names = ["Less", "Equal", "Greater"]
        if names and (a.path == OPTION or not a.vals and not b.vals and not a.free and not b.free):
            c = order(names.index(a.variant), names.index(b.variant))
            return c or order(a.vals, b.vals)
    raise Unknown("order")


def ordering(c):
    return V(ORDERING, {-1: "Less", 0: "Equal", 1: "Greater"}[c], (), ())


def freeze(x):
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    return x


_REFS = {}


def refs(t):
    """The loop variables and element ids a term mentions."""
    r = _REFS.get(id(t))
    if r is None or r[0] is not t:
        out = set()
        for y in walk(t):
            if y[0] == "lv" or (y[0] == "*" and len(y) in (3, 4)):
                out.add(y)
        r = (t, frozenset(out))
        _REFS[id(t)] = r
    return r[1]


def deps(rec, recs):
    """What a loop's description takes from outside the loop."""
    d = getattr(rec, "deps", None)
    if d is None:
        d = set()
        for x in list(rec.init.values()) + [rec.coll or ()]:
            d |= refs(x)
        for dl, w, _ in rec.conts:
            own = {recs[k[1]].lid for k in dl if k[0] in ("done", "reach")}
            m = set()
            for x in list(dl) + list(w.values()):
                m |= refs(x)
            for k in dl:
                if k[0] in ("done", "reach"):
                    m |= deps(recs[k[1]], recs)
            d |= {x for x in m if x[1] not in own}
        d = frozenset(x for x in d if x[1] != rec.lid)
        rec.deps = d
    return d


class Env:
    __slots__ = ("idx", "lv", "ph", "cache")

    def __init__(self, idx=None, lv=None, ph=None):
        self.idx, self.lv, self.ph = idx or {}, lv or {}, ph or {}
        self.cache = {}

    def fresh(self):
        return Env(self.idx, self.lv, self.ph)

    def with_(self, idx=None, lv=None, ph=None):
        e = Env(self.idx, self.lv, self.ph)
        if idx:
            e.idx = {**self.idx, **idx}
        if lv:
            e.lv = {**self.lv, **lv}
        if ph:
            e.ph = {**self.ph, **ph}
        return e


LIMIT = 3000
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def free(eid):
    """Whether any position may stand for an element id."""
    return not (eid[0] in ("#", "@") or eid[0] == "*" and eid[2] != 0)


def own(v, eqs):
    """Whether a type with its own equality occurs in a value."""
    if isinstance(v, V):
        return v.path in eqs or any(own(x, eqs) for x in v.vals)
    return isinstance(v, (tuple, list)) and any(own(x, eqs) for x in v)


class Case:
    """One cell: values of the inputs (`base`), and of opaque calls (`oracle`).

    oracle(name, args) -> value, or raises Free / Unknown.
    eqs: {adt path: equality function} for types with their own equality.
    """

    def __init__(self, engine, base, oracle=None, eqs=None):
        self.e = engine
        self.p = engine.p
        self.base = base
        self.oracle = oracle
        self.eqs = eqs or {}
        self.sims = {}
        self.unknown = set()
        self.freed = 0          # conditions left open so far
        self.panicked = False   # a condition of a path that holds up to there panics
        self.debug = None

    # -- terms -------------------------------------------------------------------

    def val(self, t, env):
        """The value of a term; raises Unknown, Free, Infeasible or Panics."""
        c = env.cache.get(id(t))
        if c is not None and c[0] is t:
            if c[2] is not None:
                raise c[2]
            return c[1]
        k = t[0]
        m = getattr(self, "t_" + k, None)
        try:
            if m is None:
                raise Unknown("term " + k)
            v = m(t, env)
        except (Unknown, Infeasible, Panics) as x:
            env.cache[id(t)] = (t, None, x)
            raise
        env.cache[id(t)] = (t, v, None)
        return v

    def t_s(self, t, env):
        if t[1] in self.base:
            return self.base[t[1]]
        raise Free(t[1])

    def t_int(self, t, env):
        return t[1]

    def t_b(self, t, env):
        return t[1]

    def t_str(self, t, env):
        return t[1]

    def t_bytes(self, t, env):
        return bytes(t[1])

    def t_named(self, t, env):
        if t[1] in self.base:
            return self.base[t[1]]
        if t[1].endswith("UNIX_EPOCH"):
            return 0
        raise Free("constant " + t[1])

    t_static = t_named

    def t_adt(self, t, env):
        path, variant, fs = t[1], t[2], t[3]
        names = self.p.field_names(path, variant)
        if path in (OPTION, RESULT) or len(names) != len(fs):
            names = [str(i) for i in range(len(fs))]
        vals = []
        for x in fs:
            vals.append(self.val_or(x, env))
        if path == COW and isinstance(vals[0], (str, bytes)):
            c = (CowStr if isinstance(vals[0], str) else CowBytes)(vals[0])
            c.variant = variant
            return c
        return V(path, variant, names, vals)

    def val_or(self, x, env):
        """The value, or a placeholder for one that is left open."""
        try:
            return self.val(x, env)
        except Unknown as u:
            return Opaque("?" + str(u))

    def t_tup(self, t, env):
        return tuple(self.val_or(x, env) for x in t[1])

    def t_vec(self, t, env):
        return [self.val_or(x, env) for x in t[1]]

    t_arr = t_vec

    def t_hmap(self, t, env):
        return TreeMap() if len(t) > 1 else {}

    def t_hset(self, t, env):
        return TreeSet() if len(t) > 1 else frozenset()

    def t_undef(self, t, env):
        raise Unknown("undefined")

    def t_impossible(self, t, env):
        raise Infeasible()

    def t_f(self, t, env):
        b = self.val(t[1], env)
        variant, idx, name = t[2], t[3], t[4]
        if isinstance(b, V):
            if variant is not None and b.variant != variant:
                raise Infeasible()
            return b.get(str(name), idx)
        if isinstance(b, tuple) and idx < len(b):
            return b[idx]
        if isinstance(b, (CowStr, CowBytes)) and variant not in (None, b.variant):
            raise Infeasible()
        if isinstance(b, CowBytes):
            return bytes(b)
        if isinstance(b, str) and str(name) == "0":
            return str(b)
        if isinstance(b, Opaque):
            if b.name == "closure" and idx is not None and idx + 1 < len(b.args):
                return b.args[idx + 1]
            return self.field_of_opaque(b, variant, idx, name)
        raise Unknown("field %s of %r" % (name, type(b)))

    def field_of_opaque(self, b, variant, idx, name):
        raise Free("field %s of %r" % (name, b.name))

    def t_with(self, t, env):
        b = self.val(t[1], env)
        for (_, variant, idx), x in t[2]:
            y = self.val_or(x, env)
            if isinstance(b, V):
                if b.free:
                    n = self.p.field_names(b.path)
                    if idx < len(n) and n[idx] in b.names:
                        b = b.set(b.names.index(n[idx]), y)
                    else:
                        b = V(b.path, b.variant, b.names + (n[idx] if idx < len(n) else "#%d" % idx,), b.vals + (y,), True)
                else:
                    b = b.set(idx, y)
            elif isinstance(b, tuple):
                b = b[:idx] + (y,) + b[idx + 1:]
            else:
                raise Unknown("with")
        return b

    def t_elem(self, t, env):
        c = self.seq(t[1], env)
        eid = t[2]
        i = self.index(t[1], eid, env)
        if i >= len(c):
            raise Infeasible()
        return c[i]

    def index(self, coll, eid, env):
        if eid in env.idx:
            return env.idx[eid]
        if isinstance(eid, tuple) and eid and eid[0] == "#":
            return eid[1]
        if isinstance(eid, tuple) and eid and eid[0] == "@":
            return self.val(eid[1], env)
        if isinstance(eid, tuple) and len(eid) == 3 and eid[0] == "*" and eid[2] > 0:
            base = ("*", eid[1], 0)
            if base not in env.idx:
                raise Unknown("moved iterator")
            return env.idx[base] + eid[2]
        if coll in env.ph:
            return env.ph[coll]
        raise Unknown("element " + str(eid)[:40])

    def t_at(self, t, env):
        return self.index(None, t[1], env)

    def t_pos(self, t, env):
        return self.index(t[1], t[2], env)

    def t_posof(self, t, env):
        x = t[2]
        for y in walk(x):
            if y[0] == "elem":
                return self.index(y[1], y[2], env)
        raise Unknown("posof")

    def t_idx(self, t, env):
        c = self.seq(t[1], env)
        i = self.val(t[2], env)
        if not isinstance(i, int):
            raise Unknown("index")
        if i < 0 or i >= len(c):
            raise Panics()
        return c[i]

    def t_store(self, t, env):
        c = list(self.seq(t[1], env))
        i = self.val(t[2], env)
        if not isinstance(i, int):
            raise Unknown("index")
        if i < 0 or i >= len(c):
            raise Panics()
        c[i] = self.val_or(t[3], env)
        return c

    def t_mapget(self, t, env):
        m = self.val(t[1], env)
        k = self.same_key(m, freeze(self.val(t[2], env)))
        return m[k] if k is not None else self.val(t[3], env)

    def t_mapset(self, t, env):
        m = self.val(t[1], env)
        m = type(m)(m)
        k = freeze(self.val(t[2], env))
        old = self.same_key(m, k)
        m[k if old is None else old] = self.val_or(t[3], env)
        return m

    def t_ins(self, t, env):
        c = self.val(t[1], env)
        k = freeze(self.val(t[2], env))
        old = self.same_key(c, k)
        if len(t) == 3:
            return c if old is not None else type(c)(frozenset(c) | {k})
        c = type(c)(c)
        c[k if old is None else old] = self.val_or(t[3], env)
        return c

    def same_key(self, c, k):
        """The key of a set or map that equals a given one."""
        if k in c:
            return k
        if self.eqs and own(k, self.eqs):
            for x in c:
                if self.equal(x, k):
                    return x
        return None

    def seq(self, coll, env):
        """The items of a collection term."""
        k = coll[0]
        if k == "rev":
            return list(reversed(self.seq(coll[1], env)))
        if k == "take":
            return self.seq(coll[1], env)[:self.val(coll[2], env)]
        if k == "skip":
            return self.seq(coll[1], env)[self.val(coll[2], env):]
        if k == "range":
            lo, hi = self.val(coll[1], env), self.val(coll[2], env)
            if hi - lo > LIMIT:
                raise Unknown("range")
            return list(range(lo, hi))
        v = self.val(coll, env)
        if isinstance(v, (TreeMap, TreeSet)):
            try:
                return sorted(v.items() if isinstance(v, dict) else v)
            except TypeError:
                raise Unknown("sorted")
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, frozenset):
            return sorted(v, key=repr)
        if isinstance(v, V) and v.path == OPTION:
            return list(v.vals)
        if isinstance(v, V) and len(v.vals) == 1 and isinstance(v.vals[0], (list, bytes, str)):
            v = v.vals[0]
        if isinstance(v, (list, bytes)):
            return v
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, tuple):
            return list(v)
        raise Unknown("sequence %s" % type(v).__name__)

    def t_chain(self, t, env):
        return self.seq(t[1], env)

    def t_pred(self, t, env):
        import stdlib
        if isinstance(t[1], tuple):
            return stdlib.Pred(t[1])
        if isinstance(t[1], frozenset):
            return stdlib.CondPred(self, t[1], env)
        raise Unknown("predicate")

    def t_cmp(self, t, env):
        import stdlib
        if len(t) == 3:
            return ordering(order(self.val(t[1], env), self.val(t[2], env)))
        return stdlib.Alternatives(self, t[1], env)

    def t_keys(self, t, env):
        return [k for k, _ in self.seq(t[1], env)]

    def t_values(self, t, env):
        return [v for _, v in self.seq(t[1], env)]

    t_rev = t_take = t_skip = t_range = lambda self, t, env: self.seq(t, env)

    def t_len(self, t, env):
        v = self.val(t[1], env)
        if isinstance(v, str):
            return len(v.encode())
        if isinstance(v, (list, bytes, dict, frozenset, tuple)):
            return len(v)
        if isinstance(v, V) and len(v.vals) == 1:
            return len(v.vals[0])
        if isinstance(v, Opaque):
            return self.call("len", [v])
        raise Unknown("len")

    def t_push(self, t, env):
        return list(self.seq(t[1], env)) + [self.val_or(t[2], env)]

    def t_extend(self, t, env):
        a = self.val(t[1], env)
        b = self.seq(t[2], env)
        if isinstance(a, (str, bytes)):
            return a + b
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple, str, bytes)):
            raise Unknown("extend")
        return list(a) + list(b)

    def t_comp(self, t, env):
        out = list(self.seq(t[1], env))
        c = self.seq(t[2], env)
        for i in range(len(c)):
            e2 = env.with_(ph={t[2]: i})
            for facts, x in t[3]:
                r = self.first(facts, e2)
                if r is not None:
                    if x is not None:
                        out.append(self.val_or(x, r))
                    break
            else:
                raise Infeasible()
        return out

    def t_count(self, t, env):
        n = 0
        c = self.seq(t[1], env)
        for i in range(len(c)):
            e2 = env.with_(ph={t[1]: i})
            if any(self.first(f, e2) is not None for f in t[2]):
                n += 1
        return n

    def t_lv(self, t, env):
        if t in env.lv:
            return env.lv[t]
        raise Unknown("loop variable")

    def t_await(self, t, env):
        return self.call("await", [self.val(t[1], env)])

    def t_call(self, t, env):
        return self.call(t[1], [self.val(x, env) for x in t[2]])

    def t_upd(self, t, env):
        # effect of an opaque call on an argument passed by reference
        return self.call("upd " + t[1], [self.val_or(t[2], env)] + [self.val_or(x, env) for x in t[3]] + [t[4]])

    def call(self, name, args):
        if name == "indirect" and args and callable(args[0]):
            return args[0](*args[1:])
        f = PURE.get(name)
        if f is not None:
            try:
                return f(*args)
            except (TypeError, IndexError, AttributeError, KeyError):
                raise Unknown(name)
        if self.oracle is not None:
            try:
                return self.oracle(name, args)
            except Free as x:
                free = x
        else:
            free = Free("call " + name)
        r = self.std(name, args)
        if r is self:
            raise free
        return r

    def std(self, name, args):
        """A pure function of the standard library."""
        import stdlib
        m = _NUM.match(name)
        try:
            if name == "HashMap::get" and isinstance(args[0], (dict, list)):
                m = args[0] if isinstance(args[0], dict) else {freeze(k): v for k, v in args[0]}
                k = self.same_key(m, freeze(args[1]))
                return Some(m[k]) if k is not None else NONE
            if m:
                return stdlib.number(m.group(1), m.group(2), args)
            m = _PARSE.match(name)
            if m:
                return stdlib.parse_int(m.group(1))(args[0])
            last = name.split("::")[-1]
            if name.startswith("upd ") and (name.startswith(_STDPATHS_U)):
                if last in stdlib.UPD:
                    return stdlib.UPD[last](args[0], args[1:-1], args[-1])
            elif (name.startswith(_STDPATHS) or "::" not in name) and last in stdlib.STD:
                return stdlib.STD[last](*args)
        except (TypeError, IndexError, AttributeError, KeyError, ValueError):
            raise Unknown(name)
        return self

    def num(self, t, env, v=None):
        v = self.val(t, env) if v is None else v
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unknown("number")
        return v

    def t_add(self, t, env):
        return self.fit(self.num(t[1], env) + self.num(t[2], env))

    def t_size(self, t, env):
        return len(self.seq(t[1], env))

    def t_sub(self, t, env):
        return self.fit(self.num(t[1], env) - self.num(t[2], env))

    def t_mul(self, t, env):
        return self.fit(self.num(t[1], env) * self.num(t[2], env))

    def fit(self, r, most=U64):
        if not 0 <= r <= most:
            raise Panics()      # overflow
        return r

    def t_fits(self, t, env):
        return self.fit(self.num(t[2], env), t[1])

    def t_wide(self, t, env):
        k, a, b = t[1]
        a, b = self.num(a, env), self.num(b, env)
        return a + b if k == "add" else a - b if k == "sub" else a * b

    def t_div(self, t, env):
        return self.num(t[1], env) // self.num(t[2], env)

    def t_rem(self, t, env):
        return self.num(t[1], env) % self.num(t[2], env)

    def t_sat_add(self, t, env):
        return min(U64, self.num(t[1], env) + self.num(t[2], env))

    def t_sat_sub(self, t, env):
        return max(0, self.num(t[1], env) - self.num(t[2], env))

    def t_abs_diff(self, t, env):
        return abs(self.num(t[1], env) - self.num(t[2], env))

    def t_checked_add(self, t, env):
        r = self.num(t[1], env) + self.num(t[2], env)
        return Some(r) if r <= U64 else NONE

    def t_checked_sub(self, t, env):
        r = self.num(t[1], env) - self.num(t[2], env)
        return Some(r) if r >= 0 else NONE

    def t_checked_mul(self, t, env):
        r = self.num(t[1], env) * self.num(t[2], env)
        return Some(r) if r <= U64 else NONE

    def t_wrapping_add(self, t, env):
        return (self.num(t[1], env) + self.num(t[2], env)) & U64

    def t_wrapping_sub(self, t, env):
        return (self.num(t[1], env) - self.num(t[2], env)) & U64

    def t_cast(self, t, env):
        v = self.val(t[2], env)
        n = self.num(t[2], env, int(v) if isinstance(v, bool) else v)
        bits = 64 if t[1][1:] == "size" else int(t[1][1:]) if t[1][1:].isdigit() else 64
        n &= (1 << bits) - 1
        return n - (1 << bits) if t[1][0] == "i" and n >> bits - 1 else n

    def t_bitand(self, t, env):
        return self.num(t[1], env) & self.num(t[2], env)

    def t_bitor(self, t, env):
        return self.num(t[1], env) | self.num(t[2], env)

    def t_bitxor(self, t, env):
        return self.num(t[1], env) ^ self.num(t[2], env)

    def t_shl(self, t, env):
        n = self.num(t[2], env)
        if not 0 <= n < 128:
            raise Unknown("shift")
        return self.num(t[1], env) << n

    def t_shr(self, t, env):
        n = self.num(t[2], env)
        if not 0 <= n < 128:
            raise Unknown("shift")
        return self.num(t[1], env) >> n

    def t_neg(self, t, env):
        return -self.num(t[1], env)

    def t_repeat(self, t, env):
        if not isinstance(t[2], int) or t[2] > 100000:
            raise Unknown("repeat")
        return [self.val_or(t[1], env)] * t[2]

    def t_secs(self, t, env):
        return ("secs", self.val(t[1], env))

    def t_as_secs(self, t, env):
        v = self.val(t[1], env)
        if isinstance(v, tuple) and v and v[0] == "secs":
            return int(v[1])
        if isinstance(v, int):
            return v
        raise Unknown("as_secs")

    UNITS = {"nanos": 10 ** 9, "micros": 10 ** 6, "millis": 10 ** 3}

    def t_durpart(self, t, env):
        n, v = t[1], self.val(t[2], env)
        kind, unit = n.split("_")
        if kind == "from":
            if not isinstance(v, int):
                raise Unknown(n)
            s = Fraction(v, self.UNITS[unit])
            return ("secs", int(s) if s == int(s) else s)
        if not (isinstance(v, tuple) and v and v[0] == "secs"):
            raise Unknown(n)
        s = Fraction(str(v[1]))
        if n == "is_zero":
            return s == 0
        return int((s - int(s) if kind == "subsec" else s) * self.UNITS[unit])

    def t_discr(self, t, env):
        from engine import DISCR
        v = self.val(t[1], env)
        if isinstance(v, (V, CowStr, CowBytes)):
            t = t if isinstance(v, V) else (0, 0, COW)
            for n, name in DISCR.get(t[2], {}).items():
                if name == v.variant:
                    return n
        raise Unknown("discr")

    def t_cat(self, t, env):
        out = []
        for x in t[1]:
            v = self.val_or(x, env)
            if isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 0x10FFFF:
                v = chr(v)      # a character appended as such
            if out and isinstance(v, str) and isinstance(out[-1], str):
                out[-1] += v
            else:
                out.append(v)
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return Opaque("cat", *out)

    def t_disp(self, t, env):
        v = self.val(t[2], env)
        if isinstance(v, str):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return chr(v) if t[1] == "char" else str(v)
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, V):
            try:
                r = self.call("disp", [v])
            except Free:
                return Opaque("disp", v)
            if isinstance(r, str):
                return r
        return Opaque("disp", v)

    def t_numstr(self, t, env):
        return t[1]

    def t_debug(self, t, env):
        v = self.val(t[2], env)
        if isinstance(v, int) and not isinstance(v, bool) and t[1] in INTS:
            return str(v)
        return Opaque("debug", v)

    def t_uhex(self, t, env):
        v = self.val(t[2], env)
        if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
            return "%X" % v
        return Opaque("uhex", v)

    def t_lhex(self, t, env):
        v = self.t_uhex(t, env)
        return v.lower() if isinstance(v, str) else Opaque("lhex", *v.args)

    def t_opt(self, t, env):
        """A formatted argument with a width or flags."""
        v = self.val(t[2], env)
        if not isinstance(v, str) or t[2][0] == "disp" and t[2][1] not in INTS and isinstance(self.val(t[2][2], env), V):
            return Opaque("opt", v)
        o = {x[0]: x[1:] for x in t[1]}
        for k in ("width", "prec"):
            if k in o and isinstance(o[k][0], tuple):
                o[k] = (self.num(o[k][0], env),)
        flags = int.from_bytes(bytes(o["flags"]), "little") if "flags" in o else 0x20 | 3 << 29
        if flags & (1 << 21 | 1 << 23):
            return Opaque("opt", v)
        number = t[2][0] in ("uhex", "lhex") or t[2][0] == "disp" and t[2][1] in INTS or t[2][0] == "numstr"
        if "prec" in o and not number:
            v = v[:o["prec"][0]]
        n = o.get("width", (0,))[0] - len(v)
        if n <= 0:
            return v
        fill, align = chr(flags & 0x1FFFFF), flags >> 29 & 3
        if number and flags & 1 << 24:
            fill, align = "0", 1
        if align == 3:
            align = 1 if number else 0
        left = {0: 0, 1: n, 2: n // 2}[align]
        return fill * left + v + fill * (n - left)

    def t_ch(self, t, env):
        v = self.val(t[1], env)
        return chr(v) if isinstance(v, int) else Opaque("ch", v)

    def t_insert(self, t, env):
        v, i, x = self.val(t[1], env), self.val(t[2], env), self.val(t[3], env)
        if isinstance(x, int):
            x = chr(x)
        if not (isinstance(v, str) and isinstance(i, int) and isinstance(x, str)):
            raise Unknown("insert")
        b = v.encode()
        if i > len(b) or i < len(b) and b[i] & 0xC0 == 0x80:
            raise Panics()
        return (b[:i] + x.encode() + b[i:]).decode()

    def t_slice(self, t, env):
        v = self.val(t[1], env)
        lo, hi = self.val(t[2], env), self.val(t[3], env)
        if isinstance(v, (str, list, bytes)) and isinstance(lo, int) and isinstance(hi, int):
            b = v.encode() if isinstance(v, str) else v
            if not 0 <= lo <= hi <= len(b):
                raise Panics()
            if isinstance(v, str):
                try:
                    b[:lo].decode()
                    return b[lo:hi].decode()
                except UnicodeDecodeError:
                    raise Panics()
            return b[lo:hi]
        raise Unknown("slice")

    def t_now(self, t, env):
        return self.base.get("now") if "now" in self.base else self.call("now", [])

    def t_clo(self, t, env):
        return Opaque("closure", t[1], *[self.val_or(x, env) for x in t[2]])

    def t_cor(self, t, env):
        return Opaque("coroutine", t[1].split("[")[0], *[freeze(self.val_or(x, env)) for x in t[2]])

    def t_fn(self, t, env):
        return Opaque("fn", t[1])

    # -- conditions as values

    def t_not(self, t, env):
        return not self.truth(t[1], env)

    def t_and(self, t, env):
        return self.truth(t[1], env) and self.truth(t[2], env)

    def t_eq(self, t, env):
        return self.equal(self.val(t[1], env), self.val(t[2], env))

    def t_lt(self, t, env):
        a, b = self.val(t[1], env), self.val(t[2], env)
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        if self.eqs and any(isinstance(x, V) and x.path in self.eqs for x in (a, b)):
            raise Unknown("order")
        return order(a, b) < 0

    def t_eqi(self, t, env):
        a, b = self.text(self.val(t[1], env)), self.text(self.val(t[2], env))
        return ascii_lower(a) == ascii_lower(b)

    def text(self, v):
        if isinstance(v, V) and len(v.vals) == 1:
            v = v.vals[0]
        if isinstance(v, bytes):
            return v.decode("latin-1")
        if isinstance(v, str):
            return v
        raise Unknown("text")

    def t_isv(self, t, env):
        v = self.val(t[1], env)
        if isinstance(v, (V, CowStr, CowBytes)):
            return v.variant == t[3]
        raise Unknown("variant of %r" % (v,))

    def t_inset(self, t, env):
        v = self.val(t[1], env)
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        return any(lo <= v <= hi for lo, hi in t[2])

    def t_member(self, t, env):
        c = self.val(t[1], env)
        if isinstance(c, (list, tuple)):
            k = self.val(t[2], env)
            return any(self.equal(x, k) for x in c)
        return self.same_key(c, freeze(self.val(t[2], env))) is not None

    def truth(self, t, env):
        v = self.val(t, env)
        if isinstance(v, bool):
            return v
        raise Unknown("truth of %r" % (v,))

    def equal(self, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a == b:
                return True
            return self.call("eq", [a, b])
        if isinstance(a, V) and isinstance(b, V):
            f = self.eqs.get(a.path)
            if f is not None and a.path == b.path:
                return f(a, b)
            if a.path == b.path and not a.free and not b.free:
                if a.variant != b.variant or len(a.vals) != len(b.vals):
                    return False
                return all(self.equal(x, y) for x, y in zip(a.vals, b.vals))
            raise Unknown("equality of " + a.path)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, bytes) and isinstance(b, str):
            return a == b.encode()
        if isinstance(a, str) and isinstance(b, bytes):
            return a.encode() == b
        if isinstance(a, list) and isinstance(b, bytes) or isinstance(b, list) and isinstance(a, bytes):
            return list(a) == list(b)
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if type(a) is not type(b):
            raise Unknown("equality %s %s" % (type(a).__name__, type(b).__name__))
        return a == b

    # -- facts ----------------------------------------------------------------------

    def fact(self, k, v, env):
        """Truth of a fact; raises Unknown."""
        c = env.cache.get((id(k), "fact"))
        if c is not None and c[0] is k and c[1] == v:
            if c[3] is not None:
                raise c[3]
            return c[2]
        try:
            r = self.fact_(k, v, env)
        except (Unknown, Infeasible, Panics) as x:
            env.cache[(id(k), "fact")] = (k, v, None, x)
            raise
        env.cache[(id(k), "fact")] = (k, v, r, None)
        return r

    def fact_(self, k, v, env):
        h = k[0]
        if h == "is":
            x = self.val(k[1], env)
            if isinstance(x, (V, CowStr, CowBytes)):
                return x.variant in v
            raise Unknown("variant of %r" % (x,))
        if h == "rng":
            x = self.val(k[1], env)
            if isinstance(x, str) and len(x) == 1:
                x = ord(x)
            if isinstance(x, bool) or not isinstance(x, int):
                raise Unknown("range of %r" % (x,))
            return any(lo <= x <= hi for lo, hi in v)
        if h == "val":
            return self.equal(self.val(k[1], env), self.val(v, env))
        if h == "next":
            n = len(self.seq(k[1], env))
            try:
                i = self.index(k[1], k[2], env)
            except Unknown:
                if k[2][0] == "*" and k[2][2] == 0:
                    return True         # exhaustion of a loop: see "done"
                raise
            return (i < n) == v
        if h in ("all", "limit"):
            return True
        if h == "flag":
            return self.equal(env.lv[k[2]], self.val(v, env)) if k[2] in env.lv else True
        if h == "expired":
            return self.call("expired", [self.val(k[1], env), self.val(k[2], env)]) == v
        return self.truth(k, env) == v

    def first(self, facts, env):
        for e in self.solutions(facts, env):
            return e[0]
        return None

    def solutions(self, facts, env):
        """All ways in which the facts hold: [(env, certain)]."""
        items = facts.items() if isinstance(facts, dict) else facts
        binders, loops, plain = [], [], []
        for k, v in items:
            if k[0] in ("reach", "done"):
                loops.append((k, v))
            elif k[0] == "next" and v is True and free(k[2]) and k[2] not in env.idx:
                if not (k[1] in env.ph and k[2] == "_"):
                    binders.append(k)
                plain.append((k, v))
            else:
                plain.append((k, v))
        reach = {k[2]: k[1] for k, v in loops if k[0] == "reach"}
        return list(self._solve(binders, 0, loops, 0, plain, env, reach, True))

    def _solve(self, binders, bi, loops, li, plain, env, reach, certain):
        # settle what is decidable already, to prune early
        rest = []
        for k, v in plain:
            need = (bi < len(binders) or li < len(loops)) and self.pending(k, binders[bi:], loops[li:])
            if need:
                rest.append((k, v))
                continue
            try:
                if not self.fact(k, v, env):
                    if self.debug:
                        self.debug("false", k, v, env)
                    return
            except Infeasible:
                return
            except Panics:
                if certain and not rest:
                    self.panicked = True
                return
            except Free as u:
                self.unknown.add(("free", str(u)))
                self.freed += 1
            except Unknown as u:
                self.unknown.add(("unknown", str(u)))
                certain = False
        if li < len(loops):
            # loops that depend on another one wait for it
            lids = {self.e.recs[l[0][1]].lid for l in loops[li:]}
            for j in range(li, len(loops)):
                r = self.e.recs[loops[j][0][1]]
                if not {x[1] for x in deps(r, self.e.recs)} & lids:
                    if j != li:
                        loops = list(loops)
                        loops[li], loops[j] = loops[j], loops[li]
                    break
            (kind, rid, eid), _ = loops[li]
            rec = self.e.recs[rid]
            if kind == "done":
                try:
                    states, full = self.sim(rid, env)
                except Unknown as u:
                    self.unknown.add(("unknown", "loop: " + str(u)))
                    yield from self._solve(binders, bi, loops, li + 1, rest, env, reach, False)
                    return
                except Infeasible:
                    return
                except Panics:
                    self.panicked |= certain
                    return
                if not full:
                    if self.debug:
                        self.debug("loop", rid, states, env)
                    return
                yield from self._solve(binders, bi, loops, li + 1, rest, env.with_(lv=states[-1]), reach, certain)
                return
            try:
                states, full = self.sim(rid, env)
            except Unknown as u:
                self.unknown.add(("unknown", "loop: " + str(u)))
                yield from self._solve([b for b in binders if b[2] != eid], bi, loops, li + 1, rest, env, reach, False)
                return
            except Infeasible:
                return
            except Panics:
                self.panicked |= certain
                return
            bound = any(b[2] == eid for b in binders)
            try:
                n = len(self.seq(rec.coll, env.with_(lv=states[0]))) if rec.coll is not None else None
            except Unknown:
                n = None
            for i, lv in enumerate(states):
                if bound and n is not None and i >= n:
                    continue
                yield from self._solve([b for b in binders if b[2] != eid], bi, loops, li + 1, rest,
                                       env.with_(idx={eid: i}, lv=lv), reach, certain)
            return
        if bi < len(binders):
            k = binders[bi]
            try:
                n = len(self.seq(k[1], env))
            except Unknown as u:
                self.unknown.add(("unknown", "collection: " + str(u)))
                yield from self._solve(binders, bi + 1, loops, li, rest, env, reach, False)
                return
            except (Infeasible, Panics):
                return
            for i in range(n):
                yield from self._solve(binders, bi + 1, loops, li, rest, env.with_(idx={k[2]: i}), reach, certain)
            return
        yield env, certain

    def pending(self, k, binders, loops):
        """Whether a fact mentions something not bound yet."""
        rs = refs(k)
        if not rs:
            return False
        eids = {b[2] for b in binders} | {l[0][2] for l in loops if l[0][2] is not None}
        lids = {self.e.recs[l[0][1]].lid for l in loops}
        return any(y in eids or (y[0] == "lv" and y[1] in lids) for y in rs)

    def sim(self, rid, env):
        """States of a loop before each iteration, and whether it ran to the end."""
        rec = self.e.recs[rid]
        d = deps(rec, self.e.recs)
        used = [(env.lv.get(x), env.idx.get(x)) for x in d]
        key = (rid,) + tuple(id(x) if x is not None else None for x, _ in used) + tuple(y for _, y in used)
        hit = self.sims.get(key)
        if hit is None:
            try:
                r = self.sim_(rec, env)
            except (Unknown, Infeasible, Panics) as x:
                r = x
            hit = self.sims[key] = (r, used)
        if isinstance(hit[0], Exception):
            raise hit[0]
        return hit[0]

    def sim_(self, rec, env):
        start = {}
        for (cell, path), x in rec.init.items():
            start[("lv", rec.lid, cell, path)] = ("it",) if x[0] == "it" else self.val_or(x, env)
        states = [start]
        eid = ("*", rec.lid, 0)
        n = 0
        while n < LIMIT:
            cur = states[-1]
            e2 = env.with_(idx={eid: n}, lv=cur)
            if rec.coll is not None:
                if n >= len(self.seq(rec.coll, e2)):
                    return states, True
            nxt = None
            for j, (delta, writes, _) in enumerate(rec.conts):
                before = self.freed
                sols = self.solutions(delta, e2)
                if not sols:
                    continue
                if not all(c for _, c in sols):
                    raise Unknown("iteration")
                if self.freed != before and any(self.solutions(d, e2) for d, _, _ in rec.conts[j + 1:]):
                    raise Unknown("iteration with a condition left open: %s" % sorted(self.unknown)[-1][1])
                r = sols[0][0]
                nxt = {}
                for (cell, path), x in writes.items():
                    nxt[("lv", rec.lid, cell, path)] = ("it",) if x[0] == "it" else self.val_or(x, r)
                break
            if nxt is None:
                return states, rec.coll is None
            states.append(nxt)
            n += 1
        raise Unknown("long loop")

    # -- outcomes ---------------------------------------------------------------------

    def outcomes(self, outs):
        """[(outcome, env, certain)] feasible in this case."""
        res = []
        for o in outs:
            for env, certain in self.solutions(o.state.facts, Env()):
                res.append((o, env, certain))
        return res

    def trace(self, log, env):
        """The events of a log (oldest first), with loops spelled out."""
        items = []
        while log is not None:
            items.append(log[1])
            log = log[0]
        return self.trace_items(items[::-1], env)

    def trace_items(self, items, env):
        out = []
        for ev in items:
            if ev[0] == "loop":
                rid = ev[1]
                rec = self.e.recs[rid]
                states, full = self.sim(rid, env)
                eid = ("*", rec.lid, 0)
                for i, st in enumerate(states[:-1]):
                    e2 = env.with_(idx={eid: i}, lv=st)
                    for delta, writes, log in rec.conts:
                        sols = self.solutions(delta, e2)
                        if sols:
                            out.extend(self.trace_items([x for x, _ in log], sols[0][0]))
                            break
            else:
                out.append((ev, env))
        return out


def _last(name):
    """Last component of a call name, without type arguments."""
    return re.sub(r"<[^<>]*>$", "", name).split("::")[-1]


_NUM = re.compile(r"core::num::<impl (\w+)>::(\w+)$")
_PARSE = re.compile(r"parse::<([ui]\w+)>$")
_STDPATHS = ("core::", "std::", "alloc::")
_STDPATHS_U = tuple("upd " + x for x in _STDPATHS)


def ascii_lower(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def ascii_upper(s):
    return "".join(c.upper() if c.isascii() else c for c in s)


def _case(f):
    def g(a):
        if isinstance(a, V) and len(a.vals) == 1:
            a = a.vals[0]
        if isinstance(a, bytes) and f in (ascii_lower, ascii_upper):
            return f(a.decode("latin-1")).encode("latin-1")
        if isinstance(a, int) and not isinstance(a, bool) and f in (ascii_lower, ascii_upper):
            return ord(f(chr(a)))
        if isinstance(a, list) and f in (ascii_lower, ascii_upper) and all(isinstance(x, int) and x < 256 for x in a):
            return [ord(f(chr(x))) for x in a]
        if not isinstance(a, str):
            raise Unknown("letter case")
        return f(a)
    return g


def _duration_since(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return Ok(("secs", a - b)) if a >= b else Err(Opaque("SystemTimeError"))
    raise Unknown("duration_since")


PURE = {
    "to_ascii_lowercase": _case(ascii_lower),
    "to_ascii_uppercase": _case(ascii_upper),
    "to_lowercase": _case(str.lower),
    "to_uppercase": _case(str.upper),
    "duration_since": _duration_since,
}
