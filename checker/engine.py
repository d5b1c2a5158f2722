"""Path-sensitive dataflow over the MIR of the crate under analysis.

The abstract domain is a value graph: every location holds a *term* that says
where its value comes from (a parameter, a field of something, the result of a
named call, an aggregate built here).  Branch conditions become *facts* about
terms: the set of enum variants still possible, integer ranges, and truth values
of comparison and call atoms.  A branch is pruned only when an identical (or
trivially implied) fact is already known; no constraint is handed to a solver and
nothing of the crate is executed.

Loops are analysed for one generic iteration: everything a loop changes is
replaced by an unknown until nothing new changes (a fixpoint), iterators yield a
generic element, and the ways in which an iteration can go on are recorded, so
that leaving the loop by exhaustion yields an "all elements went on" fact and
leaving it early yields facts about some element.

Local functions, closures, async bodies and the generic combinators of `Option`
and `Result` are followed into, so that it does not matter how the code is cut
into helpers.
"""

import sys

sys.setrecursionlimit(100000)

INT = "int"
UNIT = ("tup", ())
TRUE = ("b", True)
FALSE = ("b", False)
INF = (1 << 128)

OPTION = "std::option::Option"
RESULT = "std::result::Result"
ORDERING = "std::cmp::Ordering"


class Budget(Exception):
    pass


class Unmodelled(Exception):
    pass


def some(v):
    return ("adt", OPTION, "Some", (v,))


NONE = ("adt", OPTION, "None", ())


def ok(v):
    return ("adt", RESULT, "Ok", (v,))


def err(v):
    return ("adt", RESULT, "Err", (v,))


def mk_int(n):
    return (INT, n)


class State:
    __slots__ = ("cells", "facts", "log", "loops")

    def __init__(self, cells=None, facts=None, log=None, loops=None):
        self.cells = cells if cells is not None else {}
        self.facts = facts if facts is not None else {}
        self.log = log
        self.loops = loops if loops is not None else {}

    def fork(self):
        return State(dict(self.cells), dict(self.facts), self.log, dict(self.loops))

    def event(self, *ev):
        self.log = (self.log, ev, self.facts)
        self.facts = dict(self.facts)

    def events(self):
        out, l = [], self.log
        while l is not None:
            out.append((l[1], l[2]))
            l = l[0]
        return out[::-1]


class Outcome:
    __slots__ = ("kind", "value", "state", "where")

    def __init__(self, kind, value, state, where=None):
        self.kind, self.value, self.state, self.where = kind, value, state, where


class LoopRec:
    """What is known about a loop: how one iteration goes on."""

    def __init__(self, lid, init, conts, base_facts, coll):
        self.lid = lid
        self.init = init      # {(cell, path): value before the loop}
        self.conts = conts    # [(facts learned, {(cell, path): new value}, log)]
        self.base_facts = base_facts
        self.coll = coll      # the collection iterated over, if it is one


# -- terms ---------------------------------------------------------------------

def walk(t):
    """All subterms of a term (shared ones once)."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, tuple) and x:
                yield x
            stack.extend(x)


def mentions(t, sub):
    return any(x == sub for x in walk(t))


def subst(t, m):
    """Replaces subterms by the mapping `m` (outermost first)."""
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        n = tuple(subst(x, m) if isinstance(x, (tuple, frozenset)) else x for x in t)
        return n if n != t else t
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) for x in t)
    return t


def proj_field(v, name, idx, variant=None):
    k = v[0]
    if k == "adt":
        fs = v[3]
        if variant is not None and v[2] != variant:
            return ("impossible",)
        return fs[idx] if idx < len(fs) else ("impossible",)
    if k in ("tup", "arr"):
        return v[1][idx] if idx < len(v[1]) else ("impossible",)
    if k in ("clo", "cor"):
        return v[2][idx] if idx < len(v[2]) else ("impossible",)
    if k == "with":
        for p, x in v[2]:
            if p == ("f", variant, idx):
                return x
        return proj_field(v[1], name, idx, variant)
    return ("f", v, variant, idx, name)


def setp(v, path, x):
    """Functional update of `v` at `path` (a tuple of projections)."""
    if not path:
        return x
    p = path[0]
    if p[0] == "f":
        _, name, idx, variant = p
        old = proj_field(v, name, idx, variant)
        new = setp(old, path[1:], x)
        if v[0] == "adt":
            fs = list(v[3])
            while len(fs) <= idx:
                fs.append(("undef",))
            fs[idx] = new
            return ("adt", v[1], v[2], tuple(fs))
        if v[0] in ("tup", "arr"):
            fs = list(v[1])
            while len(fs) <= idx:
                fs.append(("undef",))
            fs[idx] = new
            return (v[0], tuple(fs))
        if v[0] in ("clo", "cor"):
            fs = list(v[2])
            while len(fs) <= idx:
                fs.append(("undef",))
            fs[idx] = new
            return (v[0], v[1], tuple(fs))
        key = ("f", variant, idx)
        if new == ("f", v, variant, idx, name):
            return v
        if v[0] == "with":
            base, ov = v[1], dict(v[2])
        else:
            base, ov = v, {}
        ov[key] = new
        return ("with", base, tuple(sorted(ov.items(), key=repr)))
    if p[0] == "i":
        old = index_term(v, p[1])
        new = setp(old, path[1:], x)
        if v[0] in ("arr", "vec") and p[1][0] == INT and p[1][1] < len(v[1]):
            fs = list(v[1])
            fs[p[1][1]] = new
            return (v[0], tuple(fs))
        if v[0] == "store" and v[2] == p[1]:
            v = v[1]
        return ("store", v, p[1], new)
    if p[0] == "k":
        new = setp(map_term(v, p[1], p[2]), path[1:], x)
        if v[0] == "mapset" and v[2] == p[1]:
            v = v[1]
        return ("mapset", v, p[1], new)
    return ("store", v, p, x)


def getp(v, path):
    for p in path:
        if p[0] == "f":
            v = proj_field(v, p[1], p[2], p[3])
        elif p[0] == "i":
            v = index_term(v, p[1])
        elif p[0] == "k":
            v = map_term(v, p[1], p[2])
        elif p[0] == "ss":
            items = vec_items(v)
            if items is not None:
                v = (v[0], items[p[1]:len(items) - p[2] if p[3] else p[2]])
            else:
                v = ("slice", v, (INT, p[1]), binop("Sub", ("len", v), (INT, p[2])) if p[3] else (INT, p[2]))
        else:
            v = ("proj", v, p)
    return v


def index_term(v, i):
    if v[0] in ("arr", "vec") and i[0] == INT and i[1] < len(v[1]):
        return v[1][i[1]]
    while v[0] == "store":
        if v[2] == i:
            return v[3]
        if not (v[2][0] == i[0] == INT):
            break
        v = v[1]
    if i[0] == "at":
        return ("elem", v, i[1])
    return ("idx", v, i)


def map_term(v, k, d):
    """The value of a map (or its default) at a key."""
    if v[0] == "mapset" and v[2] == k:
        return v[3]
    if v in (("hmap",), ("hmap", "btree")):
        return d
    return ("mapget", v, k, d)


def vec_items(v):
    if v[0] in ("arr", "vec"):
        return v[1]
    return None


def add(a, b):
    if a[0] == INT and b[0] == INT:
        return (INT, a[1] + b[1])
    if a == (INT, 0):
        return b
    if b == (INT, 0):
        return a
    if a[0] == INT:
        a, b = b, a
    if a[0] == "add" and b[0] == INT and a[2][0] == INT:
        return add(a[1], (INT, a[2][1] + b[1]))
    if b[0] != INT and repr(b) < repr(a):
        a, b = b, a
    return ("add", a, b)


def binop(op, a, b):
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    if base == "Add":
        return add(a, b)
    if a[0] == INT and b[0] == INT:
        x, y = a[1], b[1]
        r = {
            "Sub": lambda: x - y, "Mul": lambda: x * y,
            "Div": lambda: x // y if y else 0, "Rem": lambda: x % y if y else 0,
            "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
            "Shl": lambda: x << y if y < 128 else 0, "Shr": lambda: x >> y if y < 128 else 0,
        }.get(base)
        if r:
            return (INT, r())
    if base == "Sub":
        if b == (INT, 0):
            return a
        if a == b:
            return (INT, 0)
        return ("sub", a, b)
    if base == "Mul":
        if a[0] == INT:
            a, b = b, a
        return ("mul", a, b)
    return (base.lower(), a, b)


DISCR = {}      # adt path -> {discriminant: variant name}


def eq_atom(a, b):
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x[0] == "discr" and y[0] == INT and x[2] in DISCR:
            v = DISCR[x[2]].get(y[1])
            if v is None:
                return FALSE
            if x[1][0] == "adt":
                return ("b", x[1][2] == v)
            return ("isv", x[1], x[2], v)
        if x[0] == "discr" and y[0] == "discr" and x[2] == y[2] and y[1][0] == "adt" and x[1][0] != "adt":
            return ("isv", x[1], x[2], y[1][2])
    if a[0] == b[0] == "discr" and a[1][0] == b[1][0] == "adt":
        return ("b", a[1][2] == b[1][2])
    consts = (INT, "str", "bytes", "b", "ch")
    if a[0] in consts and b[0] in consts and a[0] == b[0]:
        return ("b", a[1] == b[1])
    if {a[0], b[0]} == {"str", "bytes"}:
        s = lambda t: t[1].encode("latin-1", "replace") if t[0] == "str" else bytes(t[1])
        return ("b", s(a) == s(b))
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        r = TRUE
        for x, y in zip(a[3], b[3]):
            r = and_(r, eq_atom(x, y))
        return r
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        r = TRUE
        for x, y in zip(a[1], b[1]):
            r = and_(r, eq_atom(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x[0] == "adt" and x[1] in (OPTION, RESULT) or (x[0] == "adt" and not x[3]):
            r = ("isv", y, x[1], x[2])
            for i, f in enumerate(x[3]):
                r = and_(r, eq_atom(proj_field(y, str(i), i, x[2]), f))
            return r
        if x[0] == "b":
            return y if x[1] else not_(y)
    if b[0] in consts:
        return ("eq", a, b)
    if a[0] in consts:
        return ("eq", b, a)
    if repr(b) < repr(a):
        a, b = b, a
    return ("eq", a, b)


def not_(a):
    if a[0] == "b":
        return ("b", not a[1])
    if a[0] == "not":
        return a[1]
    return ("not", a)


def and_(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def lt_atom(a, b):
    if a == b:
        return FALSE
    if a[0] == INT and b[0] == INT:
        return ("b", a[1] < b[1])
    return ("lt", a, b)


# -- facts ---------------------------------------------------------------------

def ranges_and(r, lo, hi):
    out = []
    for a, b in r:
        a2, b2 = max(a, lo), min(b, hi)
        if a2 <= b2:
            out.append((a2, b2))
    return tuple(out)


def ranges_sub(r, n):
    return ranges_and(r, -INF, n - 1) + ranges_and(r, n + 1, INF)


FULL = ((-INF, INF),)
UNSIGNED = ("len", "size", "count", "pos", "sat_sub", "sat_add", "abs_diff", "as_secs", "cast", "discr")


class Engine:
    """See the module documentation.

    opaque: predicate (name, callee info) -> bool; such calls are kept as atoms.
    """

    def __init__(self, prog, opaque=None, budget=2000000, models=None, unroll=0):
        self.p = prog
        self.opaque = opaque or (lambda name, fn: False)
        self.budget = budget
        self.steps = 0
        self.frames = {}
        self.own = {}           # closures that change their captures
        self.ways = {}          # (loop, iterator) -> whether its elements are taken from the back
        self.skips = {}
        self.numpos = set()     # iterators a loop moves otherwise than by one step
        self.consts = {}
        self.notes = set()      # constructs the analysis had no model for
        self.followed = set()   # functions followed into
        self.calls = set()      # opaque calls seen
        self.stack = []
        self.unroll = unroll
        self.recs = []          # loop records, by number
        self.unsigned = set()   # terms known to be unsigned
        DISCR.setdefault(OPTION, {0: "None", 1: "Some"})
        DISCR.setdefault(RESULT, {0: "Ok", 1: "Err"})
        DISCR.setdefault(ORDERING, {255: "Less", 0: "Equal", 1: "Greater"})
        for path, a in prog.adts.items():
            if len(a["variants"]) > 1 or a.get("kind") == "enum":
                DISCR[path] = {int(x["discr"]): x["name"] for x in a["variants"] if x["discr"] is not None}
        from models import MODELS
        self.models = dict(MODELS)
        if models:
            self.models.update(models)

    # -- facts ---------------------------------------------------------------

    def variants_of(self, adt):
        vs = self.p.variants(adt)
        if vs is None:
            if adt == OPTION:
                return ["None", "Some"]
            if adt == RESULT:
                return ["Ok", "Err"]
            if adt == ORDERING:
                return ["Less", "Equal", "Greater"]
            return None
        return [v["name"] for v in vs]

    def possible(self, st, t, adt):
        if t[0] == "adt":
            return frozenset([t[2]])
        if t[0] == "with":
            return self.possible(st, t[1], adt)
        f = st.facts.get(("is", t))
        if f is not None:
            return f
        vs = self.variants_of(adt)
        return frozenset(vs) if vs else None

    def assume_variant(self, st, t, adt, names):
        """Restricts the variants of t; returns False if impossible."""
        if t[0] == "with":
            t = t[1]
        cur = self.possible(st, t, adt)
        new = frozenset(names) if cur is None else cur & frozenset(names)
        if not new:
            return False
        if t[0] != "adt":
            st.facts[("is", t)] = new
        return True

    def rng(self, st, t):
        if t[0] == INT:
            return ((t[1], t[1]),)
        r = st.facts.get(("rng", t))
        if r is None:
            if t[0] == "cast" and t[1].startswith("i"):
                return FULL
            return ((0, INF),) if t[0] in UNSIGNED or t in self.unsigned else FULL
        return r

    def decide(self, st, c):
        """Truth of an atom under the facts, or None."""
        k = c[0]
        if k == "b":
            return c[1]
        if k == "not":
            d = self.decide(st, c[1])
            return None if d is None else not d
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "isv":
            cur = self.possible(st, c[1], c[2])
            if cur is not None:
                if cur == frozenset([c[3]]):
                    return True
                if c[3] not in cur:
                    return False
            return None
        if k == "inset":
            r = self.rng(st, c[1])
            inside = [x for lo, hi in c[2] for x in ranges_and(r, lo, hi)]
            if not inside:
                return False
            if sum(h - l + 1 for l, h in inside) == sum(h - l + 1 for l, h in r):
                return True
            return None
        if c in st.facts:
            return st.facts[c]
        if k == "lt":
            a, b = c[1], c[2]
            ra, rb = self.rng(st, a), self.rng(st, b)
            if not ra or not rb:
                return None
            if ra[-1][1] < rb[0][0]:
                return True
            if ra[0][0] >= rb[-1][1]:
                return False
            if st.facts.get(("lt", b, a)) or st.facts.get(eq_atom(a, b)):
                return False
            return None
        if k == "eq":
            a, b = c[1], c[2]
            if b[0] != INT:
                l, g = st.facts.get(("lt", a, b)), st.facts.get(("lt", b, a))
                if l or g:
                    return False
                if l is False and g is False:
                    return True
            if b[0] == INT:
                ra = self.rng(st, a)
                if not any(lo <= b[1] <= hi for lo, hi in ra):
                    return False
                if ra == ((b[1], b[1]),):
                    return True
                return None
            if b[0] in ("str", "bytes"):
                e = st.facts.get(("val", a))
                if e is not None:
                    return e == b
        return None

    def assume(self, st, c, val):
        """Adds a fact (in place); returns False if it contradicts."""
        k = c[0]
        d = self.decide(st, c)
        if d is not None:
            return d == val
        if k == "not":
            return self.assume(st, c[1], not val)
        if k == "and" and val:
            return self.assume(st, c[1], True) and self.assume(st, c[2], True)
        if k == "isv":
            vs = self.variants_of(c[2])
            if vs is None:
                st.facts[c] = val
                return True
            return self.assume_variant(st, c[1], c[2], [c[3]] if val else [v for v in vs if v != c[3]])
        if k == "inset":
            r = self.rng(st, c[1])
            if val:
                r = tuple(x for lo, hi in c[2] for x in ranges_and(r, lo, hi))
            else:
                for lo, hi in c[2]:
                    r = ranges_and(r, -INF, lo - 1) + ranges_and(r, hi + 1, INF)
            if not r:
                return False
            st.facts[("rng", c[1])] = r
            return True
        if k == "lt":
            a, b = c[1], c[2]
            if a[0] == INT or b[0] == INT:
                t, n = (b, a[1]) if a[0] == INT else (a, b[1])
                r = self.rng(st, t)
                if a[0] == INT:     # n < t
                    r = ranges_and(r, n + 1, INF) if val else ranges_and(r, -INF, n)
                else:               # t < n
                    r = ranges_and(r, -INF, n - 1) if val else ranges_and(r, n, INF)
                if not r:
                    return False
                st.facts[("rng", t)] = r
                return True
            st.facts[c] = val
            return True
        if k == "eq":
            a, b = c[1], c[2]
            if b[0] == INT:
                r = self.rng(st, a)
                r = ranges_and(r, b[1], b[1]) if val else ranges_sub(r, b[1])
                if not r:
                    return False
                st.facts[("rng", a)] = r
                return True
            st.facts[c] = val
            if b[0] in ("str", "bytes") and val:
                st.facts[("val", a)] = b
            return True
        st.facts[c] = val
        return True

    def split(self, st, c):
        """[(state, bool)] for the feasible truth values of condition c."""
        k = c[0]
        if k == "not":
            return [(s, not v) for s, v in self.split(st, c[1])]
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        if k == "and":
            out = []
            for s, v in self.split(st, c[1]):
                if not v:
                    out.append((s, False))
                else:
                    out.extend(self.split(s, c[2]))
            return out
        if k == "exists":
            out = []
            for s, v in self.split_exists(st, c):
                out.append((s, v))
            return out
        if k == "adt" or k == "tup":
            self.notes.add("switch on aggregate")
        out = []
        for v in (True, False):
            s = st.fork()
            if self.assume(s, c, v):
                out.append((s, v))
        return out

    # -- places ----------------------------------------------------------------

    def locate(self, st, fid, place):
        """(cell, path) of a place, or (None, value) if it has no location."""
        loc = ((fid, place[0]), ())
        variant = None
        for e in place[1:]:
            if e == "*":
                v = self.read(st, loc)
                if v[0] == "mref":
                    loc = (v[1], v[2])
                variant = None
            elif isinstance(e, list):
                k = e[0]
                if k == "v":
                    variant = e[1]
                    continue
                # implicit reference layers (shared references are transparent)
                v = self.read(st, loc)
                while v[0] == "mref":
                    loc = (v[1], v[2])
                    v = self.read(st, loc)
                if k == "f":
                    loc = (loc[0], loc[1] + (("f", e[1], e[2], variant),))
                elif k == "i":
                    i = self.read(st, ((fid, e[1]), ()))
                    loc = (loc[0], loc[1] + (("i", i),))
                elif k == "ci":
                    off, minlen, from_end = e[1], e[2], e[3]
                    if from_end:
                        n = vec_items(v)
                        idx = (INT, len(n) - off) if n is not None else ("sub", ("len", v), (INT, off))
                    else:
                        idx = (INT, off)
                    loc = (loc[0], loc[1] + (("i", idx),))
                elif k == "ss":
                    loc = (loc[0], loc[1] + (("ss", e[1], e[2], e[3]),))
                else:
                    loc = (loc[0], loc[1] + (("?", str(e)),))
                variant = None
            else:
                loc = (loc[0], loc[1] + (("?", str(e)),))
        return loc

    def read(self, st, loc):
        v = st.cells.get(loc[0])
        if v is None:
            return ("undef",)
        for p in loc[1]:
            while v[0] == "mref":
                v = self.read(st, (v[1], v[2]))
            v = getp(v, (p,))
        return v

    def write(self, st, loc, x, log=True):
        cell, path = loc
        v = st.cells.get(cell, ("undef",))
        # follow references stored along the path
        cur = v
        for n, p in enumerate(path):
            if cur[0] == "mref":
                return self.write(st, (cur[1], cur[2] + path[n:]), x)
            cur = getp(cur, (p,))
        st.cells[cell] = setp(v, path, x)
        if log and isinstance(cell, tuple) and cell and cell[0] in ("elem", "arg"):
            st.event("write", cell, path, x)

    def load(self, st, fid, place):
        return self.read(st, self.locate(st, fid, place))

    def deref(self, st, v):
        """The value behind any mutable references."""
        n = 0
        while v[0] == "mref" and n < 20:
            v = self.read(st, (v[1], v[2]))
            n += 1
        return v

    # -- constants ---------------------------------------------------------------

    def const(self, c):
        if "fn" in c:
            f = c["fn"]
            return ("fn", f.get("rpath") or f["path"], f.get("key"), f["path"], _freeze(f))
        if "int" in c:
            t = self.p.ty(c["ty"])
            n = int(c["int"])
            if t.get("k") == "bool":
                return ("b", n != 0)
            return (INT, n)
        if "str" in c:
            return ("str", c["str"])
        if "bytes" in c:
            return ("bytes", tuple(c["bytes"]))
        if "ints" in c:
            return ("arr", tuple((INT, int(x)) for x in c["ints"]))
        if "strs" in c:
            return ("arr", tuple(("str", x) for x in c["strs"]))
        if "variant" in c:
            t = self.p.ty(c["ty"])
            return ("adt", t.get("path", t["s"]), c["variant"], ())
        if "fields" in c:
            fs = tuple(self.const(x) for x in c["fields"])
            t = self.p.ty(c["ty"])
            k = t.get("k")
            return ("tup", fs) if k == "tuple" else ("arr", fs) if k == "array" else ("adt", t.get("path", t["s"]), c["of"], fs)
        k = c.get("body") or c.get("init")
        if k in self.p.fns:
            if k not in self.consts:
                self.consts[k] = None
                outs = self.run_fn(k, [], State(), ("const", k))
                outs = [o for o in outs if o.kind == "ret"]
                if len(outs) == 1:
                    self.consts[k] = self.resolve_refs(outs[0].state, outs[0].value)
            v = self.consts[k]
            if v is None:
                return ("named", c.get("name") or k)
            if c.get("name") and v[0] in ("call",):
                return ("named", c["name"])
            return v
        if c.get("zst"):
            t = self.p.ty(c["ty"])
            if t.get("k") == "fndef":
                return ("fn", t["path"], None, t["path"], None)
            if t.get("k") == "closure":
                return ("clo", t.get("key") or t["s"], ())
            if t.get("k") == "adt":
                return ("adt", t["path"], t["path"].split("::")[-1], ())
            return UNIT
        if "static" in c:
            return ("static", c["static"])
        o = str(c.get("opaque") or c.get("name") or "")
        if o.startswith("Val(Scalar(0x0000000000000000), std::option::Option<&"):
            return NONE
        return ("named", c.get("name") or c.get("opaque") or "?")

    def resolve_refs(self, st, v, depth=0):
        """Replaces references to cells by their contents."""
        if depth > 30 or not isinstance(v, tuple):
            return v
        if v and v[0] == "mref":
            return self.resolve_refs(st, self.deref(st, v), depth + 1)
        return tuple(self.resolve_refs(st, x, depth + 1) if isinstance(x, tuple) else x for x in v)

    def operand(self, st, fid, o):
        if o[0] in ("cp", "mv"):
            return self.load(st, fid, o[1])
        if o[0] == "c":
            return self.const(o[1])
        return FALSE   # runtime checks

    # -- rvalues -------------------------------------------------------------------

    def rvalue(self, st, fid, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1])
        if k == "ref":
            if r[1] == "mut":
                loc = self.locate(st, fid, r[2])
                return ("mref", loc[0], loc[1])
            return self.load(st, fid, r[2])
        if k == "raw":
            return self.load(st, fid, r[2])
        if k == "repeat":
            x = self.operand(st, fid, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return ("arr", (x,) * n)
            return ("repeat", x, n)
        if k == "cast":
            x = self.operand(st, fid, r[2])
            if "IntToInt" in r[1]:
                t = self.p.ty(r[3])
                if x[0] == INT:
                    bits = t.get("bits") or 64
                    n = x[1] & ((1 << bits) - 1)
                    if t.get("k") == "int" and n >> bits - 1:
                        n -= 1 << bits
                    return (INT, n) if t.get("k") in ("uint", "int") else x
                if x[0] == "b":
                    return (INT, int(x[1]))
                # only narrowing changes a value
                src = self.operand_ty(fid, r[2])
                sb, tb = self.bits(src), self.bits(t)
                if sb and tb and sb <= tb:
                    return x
                return ("cast", t["s"], x)
            return x
        if k == "bin":
            op = r[1]
            a, b = self.operand(st, fid, r[2]), self.operand(st, fid, r[3])
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                a, b = self.deref(st, a), self.deref(st, b)
                if self.p.ty(r[4]).get("k") == "uint":
                    self.unsigned.add(a)
                    self.unsigned.add(b)
                c = {
                    "Eq": lambda: eq_atom(a, b), "Ne": lambda: not_(eq_atom(a, b)),
                    "Lt": lambda: lt_atom(a, b), "Ge": lambda: not_(lt_atom(a, b)),
                    "Gt": lambda: lt_atom(b, a), "Le": lambda: not_(lt_atom(b, a)),
                }[op]()
                return c
            if op in ("BitAnd", "BitOr", "BitXor") and self.p.ty(r[4]).get("k") == "bool":
                if op == "BitAnd":
                    return and_(a, b)
                if op == "BitOr":
                    return or_(a, b)
                return not_(eq_atom(a, b))
            v = self.ranged(op, binop(op, a, b), self.p.ty(r[4]))
            if op.startswith("Shl"):
                v = self.cut(v, self.p.ty(r[4]))
            if op.endswith("WithOverflow"):
                return ("tup", (v, FALSE))
            return v
        if k == "un":
            x = self.operand(st, fid, r[2])
            if r[1] == "Not":
                ty = self.operand_ty(fid, r[2]) or {}
                if ty.get("k") in ("uint", "int") or x[0] == INT:
                    if ty.get("k") != "uint":
                        return ("sub", (INT, -1), x) if x[0] != INT else (INT, ~x[1])
                    top = (INT, (1 << (ty.get("bits") or 64)) - 1)
                    return binop("BitXor", x, top)
                return not_(x)
            if r[1] == "PtrMetadata":
                return self.length(st, x)
            if r[1] == "Neg" and x[0] == INT:
                return (INT, -x[1])
            return (r[1].lower(), x)
        if k == "discr":
            v = self.deref(st, self.load(st, fid, r[1]))
            t = self.p.ty(r[2])
            path = t.get("path", t["s"])
            if v[0] == "adt" and path in DISCR:
                for n, name in DISCR[path].items():
                    if name == v[2]:
                        return (INT, n)
            return ("discr", v, path)
        if k == "agg":
            kind, ops = r[1], [self.operand(st, fid, o) for o in r[2]]
            if kind[0] == "adt":
                path, variant, fields = kind[1], kind[2], kind[3]
                return ("adt", path, variant, tuple(ops))
            if kind[0] == "tuple":
                return ("tup", tuple(ops))
            if kind[0] == "array":
                return ("arr", tuple(ops))
            if kind[0] == "closure" and self.own_state(kind[2]):
                # a closure that changes what it captured by value: kept in a cell
                cell = ("clo", fid, kind[2])
                st.cells[cell] = ("clo", kind[2], tuple(ops))
                return ("mref", cell, ())
            if kind[0] in ("closure", "coroutine"):
                return ("clo" if kind[0] == "closure" else "cor", kind[2], tuple(ops))
            return ("agg", tuple(ops))
        self.notes.add("rvalue " + str(r)[:80])
        return ("opaque", str(r)[:80])

    def own_state(self, key):
        """Whether a closure assigns to its own captures."""
        r = self.own.get(key)
        if r is None:
            r = False
            f = self.p.fns.get(key)

            def own(pl):
                # (*_1).field… without passing a captured reference
                return pl[0] == 1 and len(pl) > 2 and pl[1] == "*" and isinstance(pl[2], list) and pl[2][0] == "f" and "*" not in pl[3:]
            if f is not None:
                for sts, term, _ in f["blocks"]:
                    for s in sts:
                        if s[0] == "=" and own(s[1]) or s[0] == "setd" and own(s[1]):
                            r = True
                        if s[0] == "=" and s[2][0] == "ref" and s[2][1] == "mut" and own(s[2][2]):
                            r = True
                    if term[0] == "call" and len(term) > 3 and isinstance(term[3], list) and term[3] and own(term[3]):
                        r = True
            self.own[key] = r
        return r

    def bits(self, t):
        if t is None:
            return None
        if t.get("k") == "char":
            return 32
        if t.get("k") == "uint":
            return t.get("bits") or 64
        return None

    def cut(self, v, t):
        """A shifted number in its type."""
        bits = t.get("bits") or 64
        if v[0] == INT:
            n = v[1] & (1 << bits) - 1
            return (INT, n - (1 << bits) if t.get("k") == "int" and n >> bits - 1 else n)
        return ("cast", t["s"], v)

    def operand_ty(self, fid, o):
        if o[0] == "c":
            return self.p.ty(o[1]["ty"])
        if len(o[1]) == 1:
            return self.p.ty(self.p.fns[self.stack[-1]]["locals"][o[1][0]])
        return None

    def length(self, st, x):
        x = self.deref(st, x)
        n = vec_items(x)
        if n is not None:
            return (INT, len(n))
        if x[0] == "str":
            return (INT, len(x[1].encode()))
        if x[0] == "bytes":
            return (INT, len(x[1]))
        return ("len", x)

    # -- functions -----------------------------------------------------------------

    def run_entry(self, key, names=None):
        """All outcomes of a function for symbolic arguments."""
        f = self.p.fns[key]
        st = State()
        args = []
        dbg = {}
        for n, pl in f["names"]:
            if len(pl) == 1:
                dbg.setdefault(pl[0], n)
        for i in range(1, f["argc"] + 1):
            t = self.p.ty(f["locals"][i])
            name = dbg.get(i, "arg%d" % i)
            a = ("s", name)
            if t.get("k") == "ref" and t.get("mut"):
                st.cells[("arg", name)] = a
                a = ("mref", ("arg", name), ())
            args.append(a)
        outs = self.run_fn(key, args, st, ("entry", key))
        # An async fn: run its body.
        res = []
        for o in outs:
            if o.kind == "ret" and o.value[0] == "cor":
                res.extend(self.run_coroutine(o.value, o.state, ("entry", key, "co")))
            else:
                res.append(o)
        return res

    def run_coroutine(self, cor, st, site):
        if cor[1] not in self.p.fns:
            self.notes.add("coroutine without body")
            return [Outcome("ret", ("await", cor), st)]
        return self.run_fn(cor[1], [cor, ("s", "resume")], st, site)

    def run_fn(self, key, args, st, site):
        f = self.p.fns[key]
        if self.stack.count(key) >= 2 or len(self.stack) > 60:
            self.notes.add("recursion " + key[:60])
            return [Outcome("ret", ("call", key, tuple(args)), st)]
        fid = self.frames.setdefault(site, len(self.frames) + 1)
        # Re-entrant activation of the same frame id (recursion).
        self.followed.add(f["path"])
        self.stack.append(key)
        try:
            for i, a in enumerate(args):
                st.cells[(fid, i + 1)] = a
            st.cells.pop((fid, 0), None)
            ends, conts, exits = self.explore(key, fid, 0, st)
        finally:
            self.stack.pop()
        for o in ends:
            if o.kind == "ret":
                cells = o.state.cells
                o.value = cells.get((fid, 0), UNIT)
                for c in [c for c in cells if isinstance(c[0], int) and c[0] == fid]:
                    del cells[c]
        return ends

    def explore(self, key, fid, b0, st0, hdr=None, region=None):
        blocks = self.p.fns[key]["blocks"]
        loops = self.p.loops(key)
        ends, conts, exits = [], [], []
        work = [(b0, st0, True)]
        while work:
            b, st, first = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget(key)
            if hdr is not None and b == hdr and not first:
                conts.append(st)
                continue
            if region is not None and b not in region:
                exits.append((b, st))
                continue
            if b in loops and not loops[b][1] and not (b == hdr and first):
                e2, x2 = self.mir_loop(key, fid, b, st)
                ends.extend(e2)
                for b2, s2 in x2:
                    work.append((b2, s2, False))
                continue
            sts, term, _ = blocks[b]
            self.cur = (key, fid, b)
            for s in sts:
                if s[0] == "=":
                    v = self.rvalue(st, fid, s[2])
                    pl = s[1]
                    if len(pl) == 1:
                        st.cells[(fid, pl[0])] = v
                    else:
                        self.write(st, self.locate(st, fid, pl), v)
                elif s[0] == "setd":
                    loc = self.locate(st, fid, s[1])
                    old = self.read(st, loc)
                    self.write(st, loc, ("adt", "?", s[2], ()))
            for nb, ns in self.terminator(key, fid, b, st, term, ends):
                work.append((nb, ns, False))
        return ends, conts, exits

    def ranged(self, op, v, t):
        """Arithmetic of a type other than the 64-bit unsigned one: its range is part of the term."""
        if v[0] not in ("add", "sub", "mul"):
            return v
        bits = t.get("bits") or 64
        if t.get("k") == "int" or bits > 64:
            return ("wide", v)
        if op.endswith("WithOverflow") and bits < 64 and v[0] != "sub":
            return ("fits", (1 << bits) - 1, v)
        return v

    def terminator(self, key, fid, b, st, t, ends):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            ends.append(Outcome("ret", None, st, (key, b)))
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            return [(t[4], st)]
        if k == "unreachable":
            return []
        if k in ("unwind", "tailcall", "asm"):
            return []
        if k == "yield":
            # Futures are modelled as ready: suspension does not reach here.
            return [(t[2], st)]
        if k == "switch":
            return self.switch(st, fid, t)
        if k == "call":
            f = self.operand(st, fid, t[1])
            args = [self.operand(st, fid, a) for a in t[2]]
            site = (fid, b)
            outs = self.call(st, f, args, site, key, t)
            res = []
            for o in outs:
                if o.kind == "ret":
                    if t[4] is None:
                        ends.append(Outcome("panic", o.value, o.state, (key, b)))
                        continue
                    s2 = o.state
                    if len(t[3]) == 1:
                        s2.cells[(fid, t[3][0])] = o.value
                    else:
                        self.write(s2, self.locate(s2, fid, t[3]), o.value)
                    res.append((t[4], s2))
                else:
                    ends.append(o)
            return res
        self.notes.add("terminator " + k)
        return []

    def switch(self, st, fid, t):
        v = self.deref(st, self.operand(st, fid, t[1]))
        targets = [(int(n), b) for n, b in t[2]]
        other = t[3]
        ty = self.p.ty(t[4])
        if v[0] == "b" or (ty.get("k") == "bool" and v[0] != INT):
            out = []
            zero = dict(targets).get(0, other)
            one = dict(targets).get(1, other)
            for s, val in self.split(st, v):
                out.append((one if val else zero, s))
            return out
        if v[0] == INT:
            for n, b in targets:
                if n == v[1]:
                    return [(b, st)]
            return [(other, st)]
        if v[0] == "discr":
            term, adt = v[1], v[2]
            vs = self.p.variants(adt)
            if vs is None:
                if adt in (OPTION, RESULT):
                    names = {0: "None", 1: "Some"} if adt == OPTION else {0: "Ok", 1: "Err"}
                else:
                    names = None
            else:
                names = {int(x["discr"]): x["name"] for x in vs if x["discr"] is not None}
            if names is None:
                return self.switch_int(st, v, targets, other)
            if term[0] == "adt" and term[1] != "?" and term[1] != adt:
                self.notes.add("discr type mismatch %s %s" % (term[1], adt))
            out = []
            rest = set(names.values())
            for n, b in targets:
                if n not in names:
                    continue
                rest.discard(names[n])
                s = st.fork()
                if self.assume_variant(s, term, adt, [names[n]]):
                    out.append((b, s))
            if rest:
                s = st.fork()
                if self.assume_variant(s, term, adt, rest):
                    out.append((other, s))
            return out
        return self.switch_int(st, v, targets, other)

    def switch_int(self, st, v, targets, other):
        out = []
        s0 = st.fork()
        alive = True
        for n, b in targets:
            s = st.fork()
            if self.assume(s, eq_atom(v, (INT, n)), True):
                out.append((b, s))
            if alive and not self.assume(s0, eq_atom(v, (INT, n)), False):
                alive = False
        if alive:
            out.append((other, s0))
        return out

    # -- calls -----------------------------------------------------------------------

    def call(self, st, f, args, site, key=None, t=None):
        """Outcomes of calling the value f."""
        n = 0
        this = f
        while f[0] == "mref" and n < 9:
            f = self.deref(st, f)
            n += 1
        if f[0] == "clo":
            if f[1] in self.p.fns:
                return self.run_fn(f[1], [this] + list(args), st, site + ("clo",))
            self.notes.add("closure without body")
            return [Outcome("ret", ("call", "closure", tuple(args)), st)]
        if f[0] != "fn":
            self.notes.add("indirect call")
            return self.opaque_call(st, "indirect", [f] + list(args), site)
        _, rpath, fkey, path, info = f
        info = dict(info) if info else {}
        name = rpath
        # A constructor used as a function.
        if info.get("ikind") == "ctor" or info.get("ctor"):
            return [Outcome("ret", ("adt",) + self.ctor(path) + (tuple(args),), st)]
        if info.get("name") in ("clone", "eq", "ne") and path.startswith("std::") and path in self.models:
            r = self.models[path](self, st, args, site, info, t)
            if r is not None:
                return r
        m = self.models.get(name) or self.models.get(path)
        if path in ("std::future::Future::poll", "std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            r = self.models[path](self, st, args, site, info, t)
            if r is not None:
                return r
        isopaque = self.opaque(name, info)
        if isopaque:
            return self.opaque_call(st, name, args, site, info)
        if path.startswith("std::iter::") and args and m is not None and not info.get("local"):
            args = self.own_iterators(st, args, site, info)
        if m is not None and not (info.get("local") and fkey in self.p.fns and name not in self.models):
            r = m(self, st, args, site, info, t)
            if r is not None:
                return r
        if fkey and fkey in self.p.fns:
            body = self.p.fns[fkey]
            if body["local"] or self.descend(name, path):
                a = list(args)
                # rust-call ABI: the second argument is a tuple of arguments
                if body["spread"] is not None:
                    pass
                return self.run_fn(fkey, a, st, site)
        return self.opaque_call(st, name, args, site, info)

    def own_iterators(self, st, args, site, info):
        """Arguments that are iterators of the crate's own types, as chains."""
        out = []
        for i, a in enumerate(args):
            if isinstance(i, int) and i < 2 and i < len(info.get("targs") or ()) and isinstance(info["targs"][i], int):
                ty = self.p.ty(info["targs"][i])
                byref = ty.get("k") == "ref"
                while ty.get("k") == "ref":
                    ty = self.p.ty(ty["args"][0]) if ty.get("args") else {}
                path = ty.get("path")
                key = path in self.p.adts and self.p.impl(path, "std::iter::Iterator", "next")
                if key and self.deref(st, a)[0] != "it":
                    if info["name"] == "into_iter":
                        out.append(a)
                        continue
                    if a[0] == "mref":
                        loc = (a[1], a[2])
                        while self.read(st, loc)[0] == "mref":
                            loc = self.read(st, loc)[1:]
                    else:
                        loc = (("own", site, i), ())
                        st.cells[loc[0]] = a
                    a = ("it", ("local", loc[0], loc[1], key), ("#", 0))
            out.append(a)
        return out

    def ctor(self, path):
        """(type, variant) of a constructor."""
        last = path.split("::")[-1]
        if path in self.p.adts:
            return path, last
        if last in ("Some", "None"):
            return OPTION, last
        if last in ("Ok", "Err"):
            return RESULT, last
        return path.rsplit("::", 1)[0], last

    def descend(self, name, path):
        return True

    def opaque_call(self, st, name, args, site, info=None):
        self.calls.add(name)
        if name.startswith("core::str::<impl str>::"):
            import models
            args = [models.pattern(self, st, a) if g[0] in ("clo", "fn") else a
                    for a, g in ((a, self.deref(st, a)) for a in args)]
        vals = tuple(self.resolve_refs(st, a) for a in args)
        ret = ("call", name, vals)
        st.event("call", name, vals, ret, site)
        for i, a in enumerate(args):
            for m in _mrefs(a):
                old = self.read(st, (m[1], m[2]))
                self.write(st, (m[1], m[2]), ("upd", name, old, vals, i), log=False)
        return [Outcome("ret", ret, st)]

    # -- loops -----------------------------------------------------------------------

    def mir_loop(self, key, fid, h, st):
        region, _ = self.p.loops(key)[h]
        lid = (fid, h)
        if self.unroll:
            r = self.try_unroll(key, fid, h, st, region)
            if r is not None:
                return r

        def body(s):
            ends, conts, exits = self.explore(key, fid, h, s, hdr=h, region=region)
            return ends, conts, exits

        ends, exits = self.loop(st, lid, body)
        return ends, exits

    def try_unroll(self, key, fid, h, st, region):
        """Unrolls loops over finite known collections."""
        work, ends, exits = [st.fork()], [], []
        for _ in range(self.unroll):
            nxt = []
            for s in work:
                e, c, x = self.explore(key, fid, h, s, hdr=h, region=region)
                ends += e
                exits += x
                nxt += c
            if len(nxt) > 64:
                return None
            work = nxt
            if not work:
                return ends, exits
        return None

    def loop(self, st, lid, body):
        """Analyses a loop; returns (ends, exits).

        An iterator that moves by one step in every iteration, from its start, yields
        the element of that iteration; any other has a numeric position that is a loop
        variable.
        """
        self.numpos = {p for p in self.numpos if p[0] != lid}
        while True:
            redo, r = self.loop_pass(st, lid, body)
            if not redo:
                return r

    def loop_pass(self, st, lid, body):
        H = {}
        for _ in range(25):
            s = st.fork()
            for (cell, path) in sorted(H, key=repr):
                self.havoc(s, lid, cell, path)
            base = s.fork()
            mark = s.log
            old_skips = self.skips.get(lid)
            self.skips[lid] = []
            ends, conts, exits = body(s)
            conts = conts + self.skips[lid]
            self.skips[lid] = old_skips or []
            new = set()
            for c in conts:
                for cell in base.cells:
                    a, b = base.cells[cell], c.cells.get(cell)
                    if b is None or a == b:
                        continue
                    self.diff(cell, (), a, b, new)
            new = {p for p in new if not any(p[0] == q[0] and p[1][:len(q[1])] == q[1] for q in H)}
            if not new:
                break
            for p in sorted(new, key=lambda p: (len(p[1]), repr(p))):
                if any(p[0] == q[0] and p[1][:len(q[1])] == q[1] for q in H):
                    continue
                for q in [q for q in H if q[0] == p[0] and q[1][:len(p[1])] == p[1]]:
                    del H[q]
                H[p] = True
        else:
            self.notes.add("loop without fixpoint")
        init = {p: self.read(st, p) for p in H}
        redo = False
        for p, v0 in list(init.items()):
            if v0[0] != "it":
                continue
            vs = [self.read(c, p) for c in conts]
            if any(v[0] != "it" or v[1] != v0[1] for v in vs):
                self.notes.add("iterator replaced in a loop")
                for c in conts:
                    self.write(c, p, ("undef",), log=False)
            elif (lid,) + p in self.numpos:
                init[p[0], p[1] + (("pos",),)] = pos_term(v0[2])
            elif v0[2] != ("#", 0) or any(v[2] != ("*", lid, 1) for v in vs):
                self.numpos.add((lid,) + p)
                redo = True
        if redo:
            return True, None
        crec = []
        for c in conts:
            delta = {k: v for k, v in c.facts.items() if base.facts.get(k) != v}
            writes = {p: self.read(c, p) for p in H}
            for p in [p for p in init if p not in H]:
                w = self.read(c, (p[0], p[1][:-1]))
                writes[p] = pos_term(w[2]) if w[0] == "it" else ("undef",)
            crec.append((delta, writes, _log_since(c.log, mark)))
        eid = ("*", lid, 0)
        coll = None
        for fs in [d for d, _, _ in crec] + [x.facts for _, x in exits] + [o.state.facts for o in ends]:
            for k in fs:
                if k[0] == "next" and k[2] == eid and k not in base.facts:
                    coll = k[1]
        rec = LoopRec(lid, init, crec, base.facts, coll)
        self.recs.append(rec)
        rid = len(self.recs) - 1
        for o in ends:
            o.state.loops[lid] = rec
            if o.state.facts is not None:
                o.state.facts[("reach", rid, eid)] = True
                if any(log for _, _, log in crec):
                    pre = _log_list(o.state.log, mark)
                    o.state.log = mark
                    o.state.log = (o.state.log, ("loop", rid, None), o.state.facts)
                    for ev in pre:
                        o.state.log = (o.state.log,) + ev
        out = []
        for tag, x in exits:
            x.loops[lid] = rec
            if any(log for _, _, log in crec):
                pre = _log_list(x.log, mark)
                x.log = (mark, ("loop", rid, None), x.facts)
                for ev in pre:
                    x.log = (x.log,) + ev
                x.facts = dict(x.facts)
            out.extend((tag, y) for y in self.loop_exit(st, base, rec, rid, x))
        return False, (ends, out)

    def havoc(self, s, lid, cell, path):
        v = self.read(s, (cell, path))
        s.cells[cell] = setp(s.cells[cell], path, self.havoc_value(lid, cell, path, v))

    def havoc_value(self, lid, cell, path, v):
        if v[0] == "it":
            if (lid, cell, path) in self.numpos:
                return ("it", v[1], ("@", ("lv", lid, cell, path + (("pos",),))))
            return ("it", v[1], ("*", lid, 0))
        return ("lv", lid, cell, path)

    def diff(self, cell, path, a, b, out):
        if a == b:
            return
        if len(path) < 6:
            if a[0] == "adt" and b[0] == "adt" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
                for i in range(len(a[3])):
                    names = self.p.field_names(a[1], a[2]) if a[1] in self.p.adts else []
                    nm = names[i] if i < len(names) else str(i)
                    variants = self.p.variants(a[1])
                    var = a[2] if variants and len(variants) > 1 or a[1] in (OPTION, RESULT) else None
                    self.diff(cell, path + (("f", nm, i, var),), a[3][i], b[3][i], out)
                return
            if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
                for i in range(len(a[1])):
                    self.diff(cell, path + (("f", str(i), i, None),), a[1][i], b[1][i], out)
                return
            if a[0] == b[0] and a[0] in ("clo", "cor") and a[1] == b[1]:
                for i in range(len(a[2])):
                    self.diff(cell, path + (("f", str(i), i, None),), a[2][i], b[2][i], out)
                return
            ab = a[1] if a[0] == "with" else a
            bb = b[1] if b[0] == "with" else b
            if ab == bb and (a[0] == "with" or b[0] == "with"):
                da = dict(a[2]) if a[0] == "with" else {}
                db = dict(b[2]) if b[0] == "with" else {}
                for k in sorted(set(da) | set(db), key=repr):
                    fa = da.get(k)
                    fb = db.get(k)
                    nm = None
                    _, var, i = k
                    nm = self.field_name_of(fa, fb, i)
                    fa = fa if fa is not None else ("f", ab, var, i, nm)
                    fb = fb if fb is not None else ("f", ab, var, i, nm)
                    self.diff(cell, path + (("f", nm, i, var),), fa, fb, out)
                return
        if a[0] == b[0] == "it" and a[1] != b[1] and b[1] not in (("unknown",), ("back", a[1])):
            raise Unmodelled("an iterator replaced in a loop")
        out.add((cell, path))

    def field_name_of(self, fa, fb, i):
        return str(i)

    def loop_exit(self, st, base, rec, rid, x):
        """Facts that hold when leaving a loop."""
        eid = ("*", rec.lid, 0)
        if rec.coll is not None and x.facts.get(("next", rec.coll, eid)) is False:
            x.facts[("done", rid, None)] = True
            return self.finish_exhausted(rec, rid, x)
        x.facts[("reach", rid, eid)] = True
        return [x]

    def finish_exhausted(self, rec, rid, x):
        """Flags a loop may set are told apart; the rest stays a loop variable."""
        states = [x]
        for (cell, path), v0 in rec.init.items():
            lv = ("lv", rec.lid, cell, path)
            vals = {w[(cell, path)] for _, w, _ in rec.conts} | {v0}
            vals.discard(lv)
            if len(vals) > 6 or not all(d[0] == "b" or (d[0] == "adt" and not d[3]) for d in vals):
                continue
            out = []
            for s in states:
                for v in sorted(vals):
                    s2 = s.fork()
                    s2.cells[cell] = setp(s2.cells[cell], path, v)
                    s2.facts[("flag", rid, lv)] = v
                    out.append(s2)
            states = out
        return states

    # -- iterators ------------------------------------------------------------------

    def gen(self, st, chain, eid, site, lid=None):
        """One step of an iterator: [(state, status, value)]."""
        k = chain[0]
        if k == "iter":
            coll = chain[1]
            items = vec_items(coll)
            if items is not None and eid[0] == "#":
                if eid[1] < len(items):
                    return [(st, "some", items[eid[1]])]
                return [(st, "none", None)]
            if items is not None and len(items) == 0:
                return [(st, "none", None)]
            out = []
            for val in (True, False):
                s = st.fork()
                if self.assume(s, ("next", coll, eid), val):
                    out.append((s, "some" if val else "none", ("elem", coll, eid) if val else None))
            return out
        if k == "itermut":
            cell, path = chain[1], chain[2]
            coll = self.read(st, (cell, path))
            items = vec_items(coll)
            back = len(chain) > 3
            if items is not None and eid[0] == "#":
                if eid[1] < len(items):
                    i = len(items) - 1 - eid[1] if back else eid[1]
                    return [(st, "some", ("mref", cell, path + (("i", (INT, i)),)))]
                return [(st, "none", None)]
            if back:
                raise Unmodelled("reversed itermut")
            while coll[0] == "store":
                coll = coll[1]
            out = []
            for val in (True, False):
                s = st.fork()
                if self.assume(s, ("next", coll, eid), val):
                    r = ("mref", cell, path + (("i", pos_term(eid)),)) if val else None
                    out.append((s, "some" if val else "none", r))
            return out
        if k == "enumerate":
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status == "some":
                    if len(chain) > 2:
                        pos = s.cells.get(chain[2], ("undef",))
                        s.cells[chain[2]] = add(pos, (INT, 1))
                    elif eid[0] in ("#", "@"):
                        pos = pos_term(eid)
                    else:
                        pos = ("pos", chain_id(chain[1]), eid)
                    v = ("tup", (pos, v))
                out.append((s, status, v))
            return out
        if k == "enumdown":
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status == "some":
                    pos = pos_term(eid) if eid[0] in ("#", "@") else ("pos", chain_id(chain[1]), eid)
                    v = ("tup", (binop("Sub", binop("Sub", chain[2], (INT, 1)), pos), v))
                out.append((s, status, v))
            return out
        if k == "down":
            out = []
            coll = ("range", chain[1], chain[2])
            for s, status, v in self.gen(st, coll, eid, site):
                if status == "some":
                    pos = pos_term(eid) if eid[0] in ("#", "@") else ("pos", coll, eid)
                    v = binop("Sub", binop("Sub", chain[2], (INT, 1)), pos)
                out.append((s, status, v))
            return out
        if k in ("cloned", "copied", "peek", "fuse", "by_ref"):
            return self.gen(st, chain[1], eid, site)
        if k == "take":
            out = []
            n = st.cells.get(chain[3], ("undef",))
            for s, full in self.split(st, not_(lt_atom(n, chain[2]))):
                if full:
                    out.append((s, "none", None))
                    continue
                for s2, status, v in self.gen(s, chain[1], eid, site):
                    if status == "some":
                        s2.cells[chain[3]] = add(n, (INT, 1))
                    out.append((s2, status, v))
            return out
        if k in ("skip", "step_by"):
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status != "some":
                    out.append((s, status, v))
                    continue
                n = s.cells.get(chain[3], ("undef",))
                if k == "skip":
                    for s2, less in self.split(s, lt_atom(n, chain[2])):
                        if less:
                            s2.cells[chain[3]] = add(n, (INT, 1))
                        out.append((s2, "skip" if less else "some", v))
                else:
                    for s2, zero in self.split(s, eq_atom(n, (INT, 0))):
                        s2.cells[chain[3]] = binop("Sub", chain[2] if zero else n, (INT, 1))
                        out.append((s2, "some" if zero else "skip", v))
            return out
        if k == "skip_while":
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status != "some":
                    out.append((s, status, v))
                    continue
                for s1, skipping in self.split(s, s.cells.get(chain[3], ("undef",))):
                    if not skipping:
                        out.append((s1, "some", v))
                        continue
                    for o in self.call(s1, chain[2], [v], site + (k,)):
                        if o.kind != "ret":
                            out.append((o.state, "end", o))
                            continue
                        for s2, val in self.split(o.state, o.value):
                            if not val:
                                s2.cells[chain[3]] = FALSE
                            out.append((s2, "skip" if val else "some", v))
            return out
        if k == "scan":
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status != "some":
                    out.append((s, status, v))
                    continue
                for o in self.call(s, chain[2], [("mref", chain[3], ()), v], site + (k,)):
                    if o.kind != "ret":
                        out.append((o.state, "end", o))
                        continue
                    for s2, val in self.split(o.state, ("isv", o.value, OPTION, "Some")):
                        out.append((s2, "some" if val else "none", proj_field(o.value, "0", 0, "Some")))
            return out
        if k in ("map", "filter", "filter_map", "inspect", "take_while", "map_while"):
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status != "some":
                    out.append((s, status, v))
                    continue
                for o in self.call(s, chain[2], [v], site + (k,)):
                    if o.kind != "ret":
                        out.append((o.state, "end", o))
                        continue
                    if k == "map":
                        out.append((o.state, "some", o.value))
                    elif k == "inspect":
                        out.append((o.state, "some", v))
                    elif k == "filter":
                        for s2, val in self.split(o.state, o.value):
                            out.append((s2, "some" if val else "skip", v))
                    elif k == "take_while":
                        for s2, val in self.split(o.state, o.value):
                            out.append((s2, "some" if val else "none", v))
                    else:
                        for s2, val in self.split(o.state, ("isv", o.value, OPTION, "Some")):
                            x = proj_field(o.value, "0", 0, "Some")
                            out.append((s2, "some" if val else ("skip" if k == "filter_map" else "none"), x))
            return out
        if k == "chain":
            size = raw_size(chain[1])
            if size is None:
                raise Unmodelled("chain after a selection")
            out = []
            pos = pos_term(eid)
            for s, status, v in self.gen(st, chain[1], as_pos(pos), site):
                if status == "none":
                    out.extend(self.gen(s, chain[2], as_pos(binop("Sub", pos, size)), site))
                else:
                    out.append((s, status, v))
            return out
        if k == "zip":
            out = []
            for s, status, v in self.gen(st, chain[1], eid, site):
                if status != "some":
                    out.append((s, status, v))
                    continue
                for s2, st2, w in self.gen(s, chain[2], eid, site):
                    out.append((s2, st2, ("tup", (v, w)) if st2 == "some" else w))
            return out
        if k == "range":
            lo, hi = chain[1], chain[2]
            coll = ("range", lo, hi)
            if eid[0] == "#" and lo[0] == INT and hi[0] == INT:
                if lo[1] + eid[1] < hi[1]:
                    return [(st, "some", (INT, lo[1] + eid[1]))]
                return [(st, "none", None)]
            out = []
            for val in (True, False):
                s = st.fork()
                if self.assume(s, ("next", coll, eid), val):
                    out.append((s, "some" if val else "none", ("elem", coll, eid) if val else None))
            return out
        if k == "cycle":
            out = []
            pos = st.cells.get(chain[2], ("undef",))
            for s, status, v in self.gen(st, chain[1], as_pos(pos), site):
                if status == "some":
                    s.cells[chain[2]] = add(pos, (INT, 1))
                    out.append((s, status, v))
                elif status == "none" and pos != (INT, 0):
                    for s2, status, v in self.gen(s, chain[1], ("#", 0), site):
                        if status == "some":
                            s2.cells[chain[2]] = (INT, 1)
                        out.append((s2, status, v))
                else:
                    out.append((s, status, v))
            return out
        if k == "again":
            return [(st, "some", chain[1])]
        if k == "successors":
            out = []
            x = st.cells.get(chain[2], ("undef",))
            for s, some_ in self.split(st, ("isv", x, OPTION, "Some")):
                if not some_:
                    out.append((s, "none", None))
                    continue
                v = proj_field(x, "0", 0, "Some")
                for o in self.call(s, chain[1], [v], site + (k,)):
                    if o.kind != "ret":
                        out.append((o.state, "end", o))
                        continue
                    o.state.cells[chain[2]] = o.value
                    out.append((o.state, "some", v))
            return out
        if k in ("from_fn", "ref", "local"):
            out = []
            if k == "local":
                outs = self.run_fn(chain[3], [("mref", chain[1], chain[2])], st, site + (k,))
            elif k == "ref":
                from models import next_
                outs = next_(self, st, [("mref", chain[1], chain[2])], site + (k,), dict(name="next"), None)
                if outs is None:
                    raise Unmodelled("next of an iterator by reference")
            else:
                outs = self.call(st, chain[1], [], site + (k,))
            for o in outs:
                if o.kind != "ret":
                    out.append((o.state, "end", o))
                    continue
                for s2, val in self.split(o.state, ("isv", o.value, OPTION, "Some")):
                    out.append((s2, "some" if val else "none", proj_field(o.value, "0", 0, "Some")))
            return out
        self.notes.add("iterator " + str(k))
        raise Unmodelled("iterator " + str(k))

    def consume(self, st, chain, site, step):
        """Runs `step(state, value) -> (ends, conts, exits)` over an iterator.

        Returns (ends, exits); exits with tag "none" are exhaustion.
        """
        flat = chain
        while flat[0] in ("map", "filter", "filter_map", "inspect", "cloned", "copied", "peek", "fuse") or (
                flat[0] == "enumerate" and len(flat) > 2):
            flat = flat[1]
        if flat[0] == "flat_map":
            return self.nested(st, chain, flat, site, step)
        if flat[0] == "chain":
            def part(x, c):
                return c if x is flat else (x[0], part(x[1], c)) + x[2:]

            def first(s, v):
                self.eid = None     # no position in the whole
                return step(s, v)
            ends, exits = self.consume(st, part(chain, flat[1]), site + ("first",), first)
            out = [(tag, s) for tag, s in exits if tag != "none"]
            for tag, s in exits:
                if tag == "none":
                    e, x = self.consume(s, part(chain, flat[2]), site + ("second",), first)
                    ends = ends + e
                    out += x
            return ends, out
        items = finite_items(chain)
        if items is not None:
            work, ends, exits = [st], [], []
            n = 0
            while work:
                nxt = []
                for s in work:
                    for s2, status, v in self.gen(s, chain, ("#", n), site):
                        if status == "none":
                            exits.append(("none", s2))
                        elif status == "skip":
                            nxt.append(s2)
                        elif status == "end":
                            ends.append(v)
                        else:
                            self.eid = ("#", n)
                            e, c, x = step(s2, v)
                            ends += e
                            nxt += c
                            exits += x
                work = nxt
                n += 1
                if n > 200 or len(work) > 2000:
                    raise Budget("finite iteration")
            return ends, exits
        lid = ("c",) + site
        lid = (self.frames.setdefault(lid, len(self.frames) + 1), "c")

        def body(s):
            ends, conts, exits = [], [], []
            for s2, status, v in self.gen(s, chain, ("*", lid, 0), site):
                if status == "none":
                    exits.append(("none", s2))
                elif status == "skip":
                    conts.append(s2)
                elif status == "end":
                    ends.append(v)
                else:
                    self.eid = ("*", lid, 0)
                    e, c, x = step(s2, v)
                    ends += e
                    conts += c
                    exits += x
            return ends, conts, exits

        return self.loop(st, lid, body)

    def nested(self, st, chain, flat, site, step):
        """`consume` of what is within adapters of a flat_map: one loop in another."""
        def inner(s, v):
            ends, conts, exits = [], [], []
            outs = [Outcome("ret", v, s)] if flat[2] is None else self.call(s, flat[2], [v], site + ("flat",))
            for o in outs:
                if o.kind != "ret":
                    ends.append(o)
                    continue
                from models import as_it
                it, _ = as_it(self, o.state, o.value)
                c = rest(it[1], it[2])

                def wrap(x):
                    return c if x is flat else (x[0], wrap(x[1])) + x[2:]
                e, x = self.consume(o.state, wrap(chain), site + ("in",), step)
                ends += e
                for tag, s2 in x:
                    if tag == "none":
                        conts.append(s2)
                    else:
                        exits.append((tag, s2))
            return ends, conts, exits

        return self.consume(st, flat[1], site + ("out",), inner)


def pos_term(pos):
    """The position of an iterator as a number."""
    if pos[0] == "#":
        return (INT, pos[1])
    if pos[0] == "@":
        return pos[1]
    return ("at", pos)


def size_of(chain):
    """The number of items a plain chain yields."""
    coll = chain_id(chain)
    items = vec_items(coll)
    return (INT, len(items)) if items is not None else ("size", coll)


def raw_size(chain):
    """The number of steps a chain takes, those it skips included; None if unknown."""
    k = chain[0]
    if k in ("filter", "filter_map", "cloned", "copied", "map", "inspect", "enumerate", "peek", "fuse", "skip", "step_by", "skip_while"):
        return raw_size(chain[1])
    return size_of(chain) if k in ("iter", "itermut", "range", "down") else None


def as_pos(t):
    return ("#", t[1]) if t[0] == INT else ("@", t)


def pos_next(pos):
    if pos[0] == "#":
        return ("#", pos[1] + 1)
    if pos[0] == "@":
        return as_pos(add(pos[1], (INT, 1)))
    return ("*", pos[1], pos[2] + 1)


def rest(chain, pos):
    """What a moved iterator has still to yield."""
    if pos == ("#", 0):
        return chain
    k = chain[0]
    t = pos_term(pos)
    if k == "back":
        return drop_last(chain[1], t)
    if k == "iter":
        items = vec_items(chain[1])
        if items is not None and t[0] == INT:
            return ("iter", (chain[1][0], items[t[1]:]))
        return ("iter", ("skip", chain[1], t))
    if k == "range":
        return ("range", add(chain[1], t), chain[2])
    if k in ("from_fn", "ref", "again", "cycle", "successors", "local"):
        return chain
    if k in ("map", "cloned", "copied", "inspect", "peek", "fuse"):
        return (k, rest(chain[1], pos)) + chain[2:]
    if k == "enumerate" and len(chain) > 2:
        return (k, rest(chain[1], pos)) + chain[2:]
    if k == "zip":
        return (k, rest(chain[1], pos), rest(chain[2], pos))
    raise Unmodelled("rest of " + k)


def drop_last(chain, n):
    """A chain without its last n items."""
    k = chain[0]
    if k == "iter":
        items = vec_items(chain[1])
        if items is not None and n[0] == INT:
            return ("iter", (chain[1][0], items[:max(0, len(items) - n[1])]))
        return ("iter", ("take", chain[1], ("sat_sub", ("size", chain[1]), n)))
    if k in ("cloned", "copied", "map", "inspect", "fuse") or k == "enumerate" and len(chain) == 2:
        return (k, drop_last(chain[1], n)) + chain[2:]
    if k == "range":
        return ("range", chain[1], binop("Sub", chain[2], n))
    raise Unmodelled("end of " + k)


def finite_items(chain):
    k = chain[0]
    if k == "iter":
        return vec_items(chain[1])
    if k in ("range", "down") and chain[1][0] == INT and chain[2][0] == INT and chain[2][1] - chain[1][1] <= 64:
        return chain
    if k in ("map", "filter", "filter_map", "enumerate", "enumdown", "cloned", "copied", "inspect", "take_while", "map_while"):
        return finite_items(chain[1])
    return None


def is_plain(chain):
    """Whether the chain yields one item per element of its collection."""
    k = chain[0]
    if k in ("iter", "itermut", "range", "down"):
        return True
    if k == "zip":
        return is_plain(chain[1]) and is_plain(chain[2])
    return k in ("cloned", "copied", "map", "inspect", "enumerate", "enumdown", "peek", "fuse") and is_plain(chain[1])


def rev_chain(chain):
    """The reversed chain, or None."""
    k = chain[0]
    if k == "iter":
        c = chain[1]
        it = vec_items(c)
        if it is not None:
            return ("iter", (c[0], tuple(reversed(it))))
        if c[0] == "repeat":
            return chain
        return ("iter", c[1] if c[0] == "rev" else ("rev", c))
    if k in ("cloned", "copied", "map", "filter", "filter_map", "inspect"):
        r = rev_chain(chain[1])
        return None if r is None else (k, r) + chain[2:]
    if k == "enumerate" and len(chain) == 2 and is_plain(chain[1]):
        r = rev_chain(chain[1])
        return None if r is None else ("enumdown", r, size_of(chain[1]))
    if k == "range" and chain[2] != (INT, INF):
        return ("down", chain[1], chain[2])
    if k == "itermut":
        return ("itermut", chain[1], chain[2], "back") if len(chain) == 3 else chain[:3]
    if k == "chain":
        a, b = rev_chain(chain[1]), rev_chain(chain[2])
        return None if a is None or b is None else (k, b, a)
    return None


def chain_id(chain):
    """The collection an iterator chain draws from, with its selectors."""
    k = chain[0]
    if k == "iter":
        return chain[1]
    if k in ("map", "enumerate", "cloned", "copied", "inspect", "peek", "fuse", "by_ref"):
        return chain_id(chain[1])
    if k == "itermut":
        return ("cell", chain[1], chain[2])
    if k in ("range", "down"):
        return ("range", chain[1], chain[2])
    if k == "enumdown":
        return chain_id(chain[1])
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        return (k, chain_id(chain[1]))
    if k in ("take", "skip"):
        return (k, chain_id(chain[1]), chain[2])
    if k == "rev":
        return ("rev", chain_id(chain[1]))
    return chain


def _mrefs(v, depth=0):
    if not isinstance(v, tuple) or depth > 6:
        return
    if v and v[0] == "mref":
        yield v
        return
    for x in v:
        if isinstance(x, tuple):
            yield from _mrefs(x, depth + 1)


def _log_list(log, mark):
    out = []
    while log is not None and log is not mark:
        out.append((log[1], log[2]))
        log = log[0]
    return out[::-1]


def _log_since(log, mark):
    out = []
    while log is not None and log is not mark:
        out.append((log[1], log[2]))
        log = log[0]
    return out[::-1]


def _freeze(d):
    if isinstance(d, dict):
        return tuple((k, _freeze(v)) for k, v in sorted(d.items()))
    if isinstance(d, list):
        return tuple(_freeze(x) for x in d)
    return d
