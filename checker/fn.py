"""Decision table of one function, evaluated cell by cell."""

import re

from engine import Engine, walk
from table import Case, Env, Free, Infeasible, Opaque, Panics, Unknown, V
import table


class Undecided(Exception):
    pass


def hash_type(s):
    m = re.findall(r"\b(Sha1|Sha256|Sha224|Sha384|Sha512|Md5)(?:VarCore|Core)?\b", s)
    return m[0] if m else s


class TypedEngine(Engine):
    """Names of opaque calls carry the hash or key types they are instantiated with."""

    def opaque_call(self, st, name, args, site, info=None):
        ts = []
        for t in (info or {}).get("targs") or []:
            if isinstance(t, int):
                s = self.p.ty(t)["s"]
                if "sha" in s.lower() or "RsaPublicKey" in s or "VerifyingKey" in s or "RsaPrivateKey" in s or "SigningKey" in s or "PrivateKeyInfo" in s:
                    ts.append(hash_type(s) if "sha" in s.lower() else s.split("::")[-1].split("<")[0])
        return super().opaque_call(st, name + ("<%s>" % ",".join(ts) if ts else ""), args, site, info)


def base_name(n):
    """Last component of a call name, without type arguments."""
    n = re.sub(r"<[^<>]*>$", "", n)
    return n.split("::")[-1]


def targ(n):
    m = re.search(r"<([^<>]*)>$", n)
    return m.group(1).split(",")[0] if m else ""


def argnames(p, f):
    """Names of the parameters, as the engine calls them."""
    b = p.fns[f.item["key"]]
    d = {}
    for n, pl in b["names"]:
        if len(pl) == 1:
            d.setdefault(pl[0], n)
    return [d.get(i, "arg%d" % i) for i in range(1, b["argc"] + 1)]


class Fn:
    def __init__(self, prog, item, names=None, opaque=None, cls=Engine):
        self.p = prog
        self.item = item
        self.engine = cls(prog, opaque=opaque) if opaque else cls(prog)
        self.outs = self.engine.run_entry(item["key"], names=names)

    @property
    def where(self):
        f = self.p.fns.get(self.item["key"])
        return "%s %s" % ((f or self.item)["span"], self.item["pretty"])

    def literals(self):
        """String literals the outcomes compare something with."""
        out = set()
        for o in self.outs:
            for k in o.state.facts:
                for y in walk(k):
                    if y[0] == "str":
                        out.add(y[1])
        return out

    def run(self, base, oracle=None, eqs=None):
        """(outcome, env, case) of the only outcome in a cell; raises Undecided or Panics."""
        ev = Case(self.engine, base, oracle, eqs)
        o, env = self.only(ev)
        return o, env, ev

    def only(self, ev):
        res = ev.outcomes(self.outs)
        if len({id(o) for o, _, _ in res}) == 1 and any(c for _, _, c in res):
            return next((o, e) for o, e, c in res if c)
        if not res and ev.panicked and not any(u[0] == "unknown" for u in ev.unknown):
            raise Panics()      # the only way through is one whose conditions panic
        sure = [r for r in res if r[2]]
        raise Undecided("%d outcomes (%d certain): %s" % (len(res), len(sure), sorted(map(str, ev.unknown))[:4]))

    def value(self, base, oracle=None, eqs=None):
        """The returned value, or ("panic",)."""
        try:
            o, env, ev = self.run(base, oracle, eqs)
        except Panics:
            return ("panic",)
        if o.kind != "ret":
            return ("panic",)
        try:
            return ev.val(o.value, env)
        except Unknown as u:
            raise Undecided("value: %s" % u)

    def text(self, base, oracle=None):
        """What is appended to the formatter argument."""
        o, env, ev = self.run(base, oracle)
        out = ""
        for it, e in ev.trace(o.state.log, env):
            if it[0] == "append":
                v = ev.val(it[2], e)
                if not isinstance(v, str):
                    raise Undecided("text %r" % (v,))
                out += v
        return out

    def calls(self, base, oracle=None):
        """The opaque calls made, as [(name, argument values)]."""
        o, env, ev = self.run(base, oracle)
        out = []
        for it, e in ev.trace(o.state.log, env):
            if it[0] == "call":
                out.append((it[1], tuple(ev.val_or(x, e) for x in it[2])))
        return out

    def step(self, base, arg, oracle=None, eqs=None):
        """(returned value or ("panic",), final value of the &mut argument)."""
        try:
            o, env, ev = self.run(base, oracle, eqs)
        except Panics:
            return ("panic",), None
        if o.kind != "ret":
            return ("panic",), None
        try:
            r = ev.val(o.value, env)
            c = o.state.cells.get(("arg", arg))
            return r, (base[arg] if c is None else ev.val(c, env))
        except Unknown as u:
            raise Undecided("value: %s" % u)
