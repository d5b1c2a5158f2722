"""Compositional tables: calls of the crate's own functions stay atoms, and are
evaluated with the callee's own table, extracted once when first needed."""

from engine import Engine, walk
from fn import Fn, TypedEngine, Undecided, argnames
from table import Case, Free, Infeasible, Panics, Unknown, V, Opaque, freeze
import refs
import table

MARK = "fn "
PANICS = []      # (function, span) of the panics met, innermost first


def cut(s):
    return s if len(s) < 300 else s[:150] + " … " + s[-140:]


class CalleePanics(Panics):
    pass


class SumEngine(TypedEngine):
    root = None

    def call(self, st, f, args, site, key=None, t=None):
        g, n = f, 0
        while g[0] == "mref" and n < 9:
            g = self.deref(st, g)
            n += 1
        if g[0] == "fn":
            _, rpath, fkey, path, info = g
            info = dict(info) if info else {}
            if self.lib.opaque(rpath, info):
                return self.opaque_call(st, rpath, args, site, info)
            if fkey and fkey in self.p.fns and site[:1] != ("pattern",) and self.lib.summarised(fkey) and not any(
                    y[0] in ("clo", "cor", "fn") for a in args for y in walk(self.resolve_refs(st, a))):
                return self.opaque_call(st, MARK + fkey, args, site, None)
        return super().call(st, f, args, site, key, t)


class Lib:
    """Tables of the functions of a program, each evaluated with those it calls.

    opaque: predicate (name, info) for calls given by `oracle` instead.
    """

    def __init__(self, prog, opaque=None, oracle=None, eqs=None, follow=None):
        self.p = prog
        self.opaque = opaque or (lambda n, i: False)
        self.oracle_ = oracle
        self.eqs = self.own_eqs() if eqs is None else eqs
        self.follow = follow or (lambda k: False)
        self.fns = {}
        self.memo = {}
        self.ok = {}
        self.depth = 0
        self.panics = []
        self.causes = set()

    def own_eqs(self):
        """The crate's own equality functions (those not derived)."""
        def eq(key):
            def f(a, b):
                v = self.apply(key, [a, b])[0]
                if not isinstance(v, bool):
                    raise Unknown("equality")
                return v
            return f
        out = {}
        for it in self.p.items:
            if it.get("trait") == "std::cmp::PartialEq" and not it["derived"] and it["name"] == "eq" and it["key"] in self.p.fns \
                    and it["pretty"].endswith("PartialEq>::eq"):
                out[it["self"]] = eq(it["key"])
        return out

    def summarised(self, key):
        r = self.ok.get(key)
        if r is None:
            r = self.ok[key] = self.summarised_(key)
        return r

    def summarised_(self, key):
        f = self.p.fns[key]
        if not f["local"] or f["coroutine"] or self.follow(key) or f.get("spread") is not None:
            return False
        if f.get("parent") and "{closure" in f["path"]:
            return False
        bad = lambda t: t.get("k") == "ref" and " mut " in t["s"][:40].replace("&mut", "& mut") or t.get("k") in ("alias", "closure", "coroutine", "dyn") or "Formatter" in t["s"] or "impl Iterator" in t["s"]
        if refs.contains(self.p, f["locals"][0], bad):
            return False
        for i in range(1, f["argc"] + 1):
            t = self.p.ty(f["locals"][i])
            if "Formatter" in t["s"] or t.get("k") in ("closure", "coroutine"):
                return False
            if t.get("k") == "param" or (t.get("k") == "ref" and "fmt::" in t["s"]):
                pass
        return True

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            item = self.p.item_by_key.get(key) or dict(key=key, pretty=self.p.fns[key]["pretty"], span=self.p.fns[key]["span"])
            lib = self

            class E(SumEngine):
                pass
            E.lib = lib
            f = Fn(self.p, item, cls=E)
            f.names = argnames(self.p, f)
            self.fns[key] = f
        return f

    def oracle(self, name, args):
        if name.startswith(MARK):
            return self.apply(name[len(MARK):], args)[0]
        if name.startswith("upd " + MARK):
            return self.apply(name[4 + len(MARK):], args[1:-1])[1][args[-1]]
        if self.oracle_ is not None:
            try:
                return self.oracle_(name, args)
            except Free:
                pass
        if name == "disp" and isinstance(args[0], table.V):
            return self.display(args[0])
        last = table._last(name)
        if last in ("as_ref", "borrow", "as_mut") and len(args) == 1 and isinstance(args[0], (str, bytes, list)):
            return args[0]
        if last in ("into", "from") and len(args) == 1 and isinstance(args[0], (str, bytes, list)):
            return args[0]
        raise Free(name)

    def display(self, v):
        """The text of a value of a local type."""
        key = self.p.impl(v.path, "std::fmt::Display", "fmt")
        if key is None:
            raise Free("disp")
        if self.depth > 40:
            raise Unknown("depth")
        self.depth += 1
        try:
            f = self.fn(key)
            return f.text({f.names[0]: v}, self.oracle)
        except Undecided as u:
            raise Unknown("text: %s" % u)
        finally:
            self.depth -= 1

    def apply(self, key, args):
        """(value, {i: final value of the i-th argument}) of a call."""
        try:
            mk = (key, tuple(freeze(a) for a in args))
            hash(mk)
        except TypeError:
            mk = None
        r = self.memo.get(mk) if mk is not None else None
        if r is None:
            r = self.apply_(key, args)
            if mk is not None:
                self.memo[mk] = r
        if isinstance(r, Exception):
            if isinstance(r, CalleePanics) and r.args:
                PANICS.append(r.args[0])
            raise r
        return r

    def apply_(self, key, args):
        f = self.fn(key)
        if self.depth > 40:
            return Unknown("depth")
        self.depth += 1
        try:
            base = dict(zip(f.names, args))
            before = len(self.panics)
            ev = Case(f.engine, base, self.oracle, self.eqs)
            try:
                o, env = f.only(ev)
            except Undecided as u:
                if len(self.panics) > before:
                    return CalleePanics(*PANICS[:1])
                return self.cause(f, ev.unknown)
            except Panics:
                self.panics.append(f.item["pretty"])
                return CalleePanics((f.item["pretty"], f.where))
            if o.kind != "ret":
                self.panics.append(f.item["pretty"])
                return CalleePanics((f.item["pretty"], f.where))
            try:
                v = ev.val(o.value, env)
                fin = {}
                for i, n in enumerate(f.names):
                    c = o.state.cells.get(("arg", n))
                    if c is not None:
                        fin[i] = ev.val(c, env)
                return v, fin
            except CalleePanics as x:
                return x
            except (Unknown, Infeasible, Panics) as x:
                return x if isinstance(x, Panics) else self.cause(f, {("value", str(x))})
        finally:
            self.depth -= 1

    def cause(self, f, unknown):
        """An Unknown naming the innermost things without a meaning."""
        leaves = [u for u in unknown if "in " not in u[1] and u[1] not in ("loop: iteration", "loop variable")]
        for u in leaves:
            if len(self.causes) < 20:
                self.causes.add("%s: %s" % (f.item["pretty"], cut(u[1])))
        return Unknown("in " + f.item["pretty"])

    def value(self, pretty, *args):
        """Value of a function, "panic", or Undecided raised."""
        return self.step(pretty, *args)[0]

    def step(self, pretty, *args):
        key = pretty if pretty in self.p.fns else self.p.find(pretty)["key"]
        try:
            return self.apply(key, list(args))
        except Panics:
            return "panic", {}
        except Unknown as u:
            raise Undecided("%s (%s)" % (u, "; ".join(sorted(self.causes)[:3])))
