# properties: C08 C09
"""Parsing of signatures and key records: decision tables against reference parsers, tag by tag and in combination."""

from itertools import combinations

from fn import Undecided
from main import Missing
from table import V, Unknown
from checks.taglist import reference as tag_list
import specs
import texts
import words

SIG = "<signature::DkimSignature as std::str::FromStr>::from_str"
REC = "<record::DkimKeyRecord as std::str::FromStr>::from_str"
RAW = dict(algorithm_str="a", signature_data_str="b", domain_str="d", identity_str="i", selector_str="s")


def flat(v):
    """A field's value without the types' own structure."""
    if isinstance(v, V):
        if v.path == "std::option::Option":
            return flat(v.vals[0]) if v.vals else None
        if v.path.endswith("::Identity"):
            d = dict(zip(v.names, v.vals))
            return (flat(d["local_part"]), flat(d["domain"]))
        if v.path.endswith("::Canonicalization"):
            d = dict(zip(v.names, v.vals))
            return (flat(d["header"]), flat(d["body"]))
        if not v.vals:
            return v.variant
        if len(v.vals) == 1:
            return flat(v.vals[0])
        raise Unknown("value %r" % (v,))
    if isinstance(v, (tuple, list)):
        r = [flat(x) for x in v]
        return tuple(r) if isinstance(v, tuple) else r
    return v


def norm(v):
    """Byte strings as lists, sequences as lists."""
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


class ErrorIn:
    """Expected: an error with any of the kinds, and these raw strings."""

    def __init__(self, kinds, raws):
        self.kinds, self.raws = kinds, raws

    def __eq__(self, o):
        return isinstance(o, tuple) and o[0] == "error" and o[1] in self.kinds and o[2] == self.raws

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "error %s with %r" % ("/".join(sorted(self.kinds)), self.raws)


def read(lib, fn, s):
    v = lib.value(fn, s)
    if not isinstance(v, V) or v.variant not in ("Ok", "Err"):
        return v
    x = v.vals[0]
    if words.unknown(x):
        raise Undecided("partly open")
    if v.variant == "Ok":
        return norm({n: flat(y) for n, y in zip(x.names, x.vals)})
    if x.vals and x.names and "kind" in x.names:
        d = dict(zip(x.names, x.vals))
        return ("error", d.pop("kind").variant, {k: flat(y) for k, y in d.items()})
    return ("error", x.variant, {})


def expect(fn, s, sha1):
    tags = tag_list(s)
    raws = {k: None for k in RAW} if fn == SIG else {}
    if isinstance(tags, str):
        return ErrorIn({"TagListFormat"}, raws)
    r = (specs.signature if fn == SIG else specs.record)(tags, sha1)
    if isinstance(r, specs.Bad):
        d = dict(tags)
        return ErrorIn(r, {k: d.get(t) for k, t in RAW.items()} if fn == SIG else {})
    return norm(r)


BASE = [("v", "1"), ("a", "rsa-sha256"), ("b", "YWJj"), ("bh", "eHl6"), ("d", "example.com"), ("h", "From:to"), ("s", "sel")]
W = ["", " ", "\t", "\r\n ", " \r\n\t"]
B64 = ["", "YQ==", "YWI=", "YWJj", "Y Q = =", "YW\r\n Jj", "YQ=", "YQ", "YR==", "Y*==", "====", "=", "YWJjZA==", "YWJj=", "+/+/", "-_-_", "YWJj YWJj"]
NUMS = ["", "0", "1", "12", "00012", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "1 2", "1.0", "0x1", "a", "1a", "\u0661"]
VALUES = {
    "v": ["", "1", "2", "01", "1.0", "DKIM1", "1 1", "one", "0"],
    "a": ["", "rsa-sha256", "RSA-Sha256", "ed25519-sha256", "Ed25519-SHA256", "rsa-sha1", "RSA-SHA1", "ed25519-sha1", "rsa", "sha256", "rsa-sha512", "rsa-sha2567", "rsa -sha256"],
    "b": B64, "bh": B64,
    "c": ["", "simple", "relaxed", "simple/simple", "relaxed/relaxed", "relaxed/simple", "simple/relaxed", "Relaxed/SIMPLE", "/", "simple/", "/simple", "simple/x",
          "x/simple", "x", "simple/simple/simple", "simple / simple", "nowsp"],
    "d": ["", "com", "example.com", "Example.COM", "mail.example.com", "example.com.", ".com", "a..b", "-a.b", "a-.b", "a_b.c", "1.2", "b\u00fccher.de", "a b", "\ufffd.de", "x\u0130.de", "a" * 64 + ".b"],
    "h": ["", "From", "from", "to", "FROM:to", "to:From", "to : from", "to:\r\n from", "from:", ":from", "from::to", "fr om", "fro\u00e9:from", "from:from", "from:to:to", "from:x=y",
          "from:DKIM-Signature", "Fromm", "xFrom", "a:b:c:d:from", "to:subject"],
    "i": ["", "@", "@example.com", "a@example.com", "@mail.example.com", "a@MAIL.example.com", "a@badexample.com", "a@com", "a@example.org", "=20@example.com", "\"a=20b\"@example.com",
          "=22a=3Bb=22@example.com", "a=40b@example.com", "=61@example.com", "=C3=A9@example.com", "=C3@example.com", "\u00e9@example.com", "a b@example.com", "a@\r\n example.com", "=4", "a", "a@b@example.com", "a.@example.com"],
    "l": NUMS, "t": NUMS, "x": NUMS,
    "q": ["", "dns/txt", "DNS/Txt", "dns", "dns/txt:x", "x:dns/txt", "x : dns/txt", "dns/txt:", ":dns/txt", "x", "x:y", "dns/txtx", "x::dns/txt", "dns /txt"],
    "s": ["", "sel", "SEL", "a.b", "1", "a.1", "a..b", "-", "a b", "a_b", "\u00e9", "\ufffd", "a" * 64],
    "z": ["", "|", "a", "From:a", "From:a|To:b", "From:=20a=20|\r\n To:b", "From:a|", "|From:a", "From :a", "=46rom:a", "From=3Aa:b", "F=20:a", ":a", "From:", "\u00e9:a", "From:=FF", "From:=7Cx", "=FF:a", "From:a:b",
          "From:a b", "From:=0D=0A=20a", "From:=", "From:a |To:b"],
    "u": ["", "x", "x y", "a=b"],
}
RBASE = [("v", "DKIM1"), ("p", "YWJj")]
RVALUES = {
    "v": ["", "DKIM1", "dkim1", "DKIM2", "1", "DKIM1 ", "DKIM 1"],
    "h": ["", "sha256", "SHA256", "sha1", "sha1:sha256", "sha256:sha1", "SHA1", "sha512", "sha512:sha256", "sha256:", ":sha256", "sha256::x", "sha256 : sha1", "sha256:\r\n x", "sha 256", "sha256:sha256", "x:y", "sha2566"],
    "k": ["", "rsa", "RSA", "ed25519", "Ed25519", "rs a", "dsa", "ed448", "rsa:ed25519", "rsaa"],
    "n": ["", "x", "a b", "a=20b", "=C3=A9", "=c3=a9", "=C3", "\u00e9", "=", "=2", "=2G", "=3Bx", "a  b", "a\r\n b", "=\u00e9x"],
    "p": B64,
    "s": ["", "*", "email", "EMAIL", "*:email", "email:*", "x", "x:*", "*:", ":*", "email : x", "x:y", "e mail", "**", "emails", "email::x"],
    "t": ["", "y", "s", "Y", "S", "y:s", "s:y", "y:", ":s", "x", "x:y", "y : s", "s:\r\n y", "y:y", "ys", "y::s"],
    "g": ["", "*", "x y"],
}


def text(tags, sep=";"):
    return sep.join("%s=%s" % t for t in tags)


def with_(tags, name, value, at=None):
    r = [t for t in tags if t[0] != name]
    if value is None:
        return r
    i = next((i for i, t in enumerate(tags) if t[0] == name), len(r)) if at is None else at
    return r[:i] + [(name, value)] + r[i:]


def cells(base, values, quick):
    out = []

    def add(tags, sep=";", end=""):
        out.append(text(tags, sep) + end)
    names = [n for n, _ in base]
    for n, vs in values.items():
        for v in vs:
            add(with_(base, n, v))
    # places and omissions
    for k in range(0, len(names) + 1):
        for drop in combinations(names, k):
            add([t for t in base if t[0] not in drop])
    for n, vs in values.items():
        for at in range(len(base) + 1):
            for v in (vs[1], vs[-1]):
                add(with_(base, n, v, at))
    add(base[::-1])
    for i in range(len(base)):
        add(base[i:] + base[:i])
    add(base, " ;\r\n ", ";")
    add(base, ";", ";;")
    for n in list(values) + ["V", "B", "xx", "b_h", "bhx", "vv", "y", "r"]:
        add(base + [(n.upper(), "x")])
        add(base + [("x" + n, "q"), (n + "0", "r")])
        add(base + [(n, "1"), (n, "1")])
    add(base + [("zz", "1"), ("aa", "2"), ("zy", "")])
    # pairs of values
    ns = list(values)
    for a, b in combinations(ns, 2):
        va, vb = values[a], values[b]
        if quick:
            va, vb = va[:3] + va[-1:], vb[:3] + vb[-1:]
        for x in va:
            for y in vb:
                add(with_(with_(base, a, x), b, y))
    # pairs of related values
    return out


def related():
    out = []
    for t in ("0", "1", "5", "18446744073709551615", "x"):
        for x in ("0", "1", "4", "5", "6", "18446744073709551615", ""):
            out.append(text(with_(with_(BASE, "t", t), "x", x)))
            out.append(text(with_(with_(BASE, "x", x, 0), "t", t)))
    for i in ("@example.com", "a@EXAMPLE.com", "a@x.example.com", "a@xexample.com", "a@com", "a@b\u00fccher.de", "a@x.xn--bcher-kva.de", "a@xn--bcher-kva.de"):
        for d in ("example.com", "Example.Com", "com", "b\u00fccher.de", "xn--bcher-kva.de", "x.example.com"):
            for order in (0, 1):
                ts = with_(with_(BASE, "d", d), "i", i, 0 if order else None)
                out.append(text(ts))
    full = with_(with_(with_(with_(with_(with_(with_(BASE, "c", "relaxed/simple"), "i", "a@x.example.com"), "l", "3"), "q", "dns/txt"), "t", "4"), "x", "5"), "z", "From:a|to:b")
    out.append(text(full + [("u", "v")]))
    names = [n for n, _ in full]
    for n in names:
        out.append(text(with_(full, n, None)))
        out.append(text(with_(full, n, "")))
    for i, n in enumerate(names):
        for m in names[i + 1:]:
            out.append(text(with_(with_(full, n, None), m, None)))
    out.append(text(full[::-1]))
    return out


def check(prop, ctx):
    quick = ctx.tier == "quick"
    fn = SIG if prop == "C08" else REC
    ctx.rule("the parser's decision table, composed of those of the functions it calls, gives the fields the reference parser reads, or an error of a kind the reference finds (and the raw strings available), for every value of every tag in turn over the grammar's cases, every set of absent mandatory tags, every position, and pairs of tags")
    for config in ("default", "pre-rfc8301"):
        p = ctx.program(config)
        if p.find(fn) is None:
            raise Missing(fn)
        lib = texts.lib(p)
        sha1 = config != "default"
        cs = cells(BASE, VALUES, quick) + related() if prop == "C08" else cells(RBASE, RVALUES, False)
        if sha1 and prop == "C08":
            cs = [c for i, c in enumerate(cs) if "sha" in c and (i % 5 == 0 or i < 250)]
        cs = list(dict.fromkeys(cs))
        for c in cs[:60]:
            try:
                read(lib, fn, c)
            except (Undecided, Unknown):
                pass
        chars = [chr(c) for c in words.representatives(lib)]
        for n, v in ((("h", "from:%s"), ("i", "%s@example.com"), ("d", "a%s.b"), ("s", "%s"), ("z", "%s:a"), ("u%s", "a"), ("l", "%s")) if prop == "C08" else
                     (("n", "%s"), ("t", "%s"), ("k", "%s"), ("s", "%s:*"), ("p", "%s"))):
            base = BASE if prop == "C08" else RBASE
            for ch in chars if not sha1 else ():
                cs.append(text(with_(base, n.replace("%s", ch), v.replace("%s", ch))))
        where = "%s %s" % (p.fns[p.find(fn)["key"]]["span"], fn)
        words.compare(ctx, "%s (%s)" % (fn.split("::")[1].split(" ")[0], config), cs, lambda s: read(lib, fn, s), lambda s: expect(fn, s, sha1), where)
        ctx.count("functions analysed", len(lib.fns))
    ctx.floor("cells compared", 2000)
    ex = text(with_(BASE, "i", "a@xexample.com")) if prop == "C08" else "v=DKIM1;p=;t=s:y"
    ctx.sample(dict(text=ex, expected=repr(expect(fn, ex, False))))
