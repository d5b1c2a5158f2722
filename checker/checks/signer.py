# properties: C02 C04 C16 C17 C18 C23 C25 C27 C28 C33
"""Signing: the composed tables of `prepare_signing` and `sign` against the specification in signing.py."""

import random
import re

from fn import Fn, Undecided, argnames
from main import Missing
from table import Opaque, Unknown
import signing
import specs
import words
from signing import CLOCK, REQUEST, U64, expected, refusals

FROM = (("From", b" a"),)
H = (("From", b" a  b"), ("To", b" x"), ("TO", b" y\r\n z"), ("X", b"q"))
LONG = tuple((n, b" %d" % i) for i, n in enumerate(["Received", "list-archive", "Subject", "DATE", "Resent-From", "from", "Comments", "Cc", "cC"]))
SPECIAL = (("x|y", b" a|b;c=d:e =41\r\n\tz"), ("To", b""), ("From", b" \xc3\xa9 \xff~"), ("=q", b"x" * 40), ("X:".strip(":"), b" " * 9))
SELF = (("DKIM-Signature", b" v=1; b=1"), ("From", b" a"), ("Dkim-signature", b" b=2"), ("To", b"t"))
VALUES = (("To", b""), ("from", b""), ("To", b" "), ("cc", b" \t"), ("From", b"\tb"), ("To", b""), ("Subject", b"\xff"), ("To", b" \r\n x"), ("Cc", b"a" * 90), ("Date", b"\r\n x"))
ED = dict(key=("Ed25519", 64, True), alg="Ed25519Sha256")
SHA1 = dict(alg="RsaSha1")


def cell(hs, *reqs):
    return (hs, tuple(reqs))


def shown(c):
    hs, rs = c
    return ", ".join("%s:%s" % (n, v.decode("latin-1")) for n, v in hs) + " / " + "; ".join(
        ", ".join("%s=%r" % kv for kv in r.items()) or "default" for r in rs)


class Cell(tuple):
    def __repr__(self):
        return "<%s>" % shown(self)


def check(prop, ctx):
    s = signing.Signing(ctx.program("default"))
    {"C16": c16, "C17": emitted, "C18": emitted, "C28": emitted, "C33": emitted, "C27": c27, "C23": c23, "C25": c25, "C02": hashed, "C04": hashed}[prop](prop, ctx, s)
    ctx.count("functions analysed", len(s.lib.fns))


def sha1(ctx):
    return signing.Signing(ctx.program("pre-rfc8301"))


def judge(ctx, what, s, cells, f, unit="cells compared"):
    """f(headers, requests, results) gives a complaint or None."""
    cells = [Cell(c) for c in cells]

    def got(c):
        hs, rs = c
        body = next((r["body"] for r in rs if "body" in r), 100)
        if signing.BODY != body:
            signing.BODY = body
            s.lib.memo.clear()
        o = s.run(hs, list(rs))
        if words.unknown(o):
            raise Undecided("partly open")
        if not isinstance(o, list) or len(o) != len(rs):
            return "%s for %d requests" % (str(o)[:80] if not isinstance(o, list) else "%d results" % len(o), len(rs))
        return f(hs, rs, o) or "as specified"

    if cells:
        try:
            got(cells[0])
        except (Undecided, Unknown):
            pass
    words.compare(ctx, what, cells, got, lambda c: "as specified", s.where, unit=unit)


# -- C16 -----------------------------------------------------------------------------

def c16(prop, ctx, s):
    ctx.rule("the composed table of prepare_signing refuses exactly the headers and requests that have a defect, with an error of one of the defects, on all pairs of request options, alone and in sets of one to twelve requests")
    quick = ctx.tier == "quick"
    opts = [dict(), ED, dict(key=("Ed25519", 64, True)), dict(alg="Ed25519Sha256"), dict(key=("Rsa", 48, False))]
    opts += [dict(select=x) for x in ((), ("From",), ("from",), ("X", "fRoM"), ("X", "Y"), ("Froms",), ("Resent-From",), ("Fro",), ("From", "a;b"),
                                      (";", "From"), ("From;",), ("From", "x", ";y"), ("a:".strip(":"), "From", "From"), ("x;",))]
    opts += [dict(ident=(l, d)) for l in (None, "x") for d in ("example.com", "EXAMPLE.com", "a.example.com", "a.b.Example.com", "com", "xexample.com", "example.org", "example.com.org", "ample.com")]
    opts += [dict(ident=(None, "mail.é.com"), domain="xn--9ca.com"), dict(ident=(None, "xn--9ca.com"), domain="É.com"), dict(ident=("a", "e.com"), domain="é.com"),
             dict(ident=("a", "a.example.com"), domain="b.example.com"), dict(ident=("a", "example.com"), domain="a.example.com")]
    opts += [dict(valid=v) for v in (None, 0, 0.5, 0.999999999, 1, 1.5, 2, 86400, U64)]
    opts += [dict(ts=t, valid=v) for t in (None, "now", 0, U64) for v in (0, 0.1, 1)]
    tagn = ["a1", "A", "z9_", "q", "1a", "_a", "", "a-b", "a b", "é", "aé", "a=", "bhx", "V", "B", "Bh", "X_"] + list(signing.TAGS)
    opts += [dict(ext=((n, "x"),)) for n in tagn]
    opts += [dict(ext=(("q", v),)) for v in ("", "a b", "a\r\n b", "a\r\n\tb", " a", "a ", "\ta", "a;b", ";", "é", "\x7f", "\x00", "a\nb", "a\rb", "a\r\nb", "a\r\n\r\n b", "a\r\n \r\n b", "a  \t b", "a=b", "a\r\n", "\r\n a")]
    opts += [dict(ext=tuple((n, "x") for n in ns)) for ns in (("q", "q"), ("q", "Q"), ("q", "r", "q"), ("r", "q", "q"), ("q", "r"), ("q", "r", "v"), ("q", "r", "1"))]
    opts += [dict(ext=(("q", "x"), ("r", ";"))), dict(ext=(("q", "x"), ("q", "y")))]
    opts += [dict(name=n) for n in ("dkim-signature", "DKIM-SIGNATURE", "Dkim-Signaturf", "", "DKIM-Signature ", " DKIM-Signature", "X-DKIM-Signature", "DKIM_Signature", "DKIM-Signature:", "DKIM-Signatur", "D\u212aIM-Signature", "From")]
    opts += [dict(indent=i) for i in ("", " ", "\t", "  \t ", "x", " x", "x ", "\n", "\r\n ", " \r", "\x0b", "\xa0", " \u2003", "\t\x0c", "é")]
    opts += [dict(length=n) for n in ("content", 0, 1, BIG, U64)]
    opts += [dict(width=1), dict(copy=True), dict(ascii=True), dict(order="rev"), dict(hc="Simple"), dict(bc="Relaxed"), dict(sel="é")]
    good = [o for o in opts if not signing.errors(o)]
    bad = [o for o in opts if signing.errors(o)]
    heads = [(), FROM, H, LONG, (("from", b""),), (("FROM", b"x"), ("From", b"y")), (("X", b""),), (("Fro", b""), ("Froms", b""), ("Resent-From", b"")), (("X", b""), ("y", b""), ("froM", b""))]
    cells = [cell(h, *[{}] * n) for h in heads for n in (0, 1, 2, 9, 10, 11, 12)]
    cells += [cell(FROM, o) for o in opts]
    cells += [cell(h, o) for h in heads for o in opts[::9]]
    rng = random.Random(16)
    pairs = [(a, b) for i, a in enumerate(opts) for b in opts[:i] if not set(a) & set(b)]
    for a, b in rng.sample(pairs, min(len(pairs), 1200 if quick else 8000)):
        cells.append(cell(FROM, {**a, **b}))
    for n in (2, 3, 10, 11):
        for i in range(n):
            for o in rng.sample(bad, 8 if quick else len(bad)):
                rs = [rng.choice(good) for _ in range(n)]
                rs[i] = o
                cells.append(cell(H, *rs))
        for _ in range(12 if quick else 60):
            cells.append(cell(H, *[rng.choice(good) for _ in range(n)]))

    def got(c):
        return s.refuse(c[0], list(c[1]))

    def want(c):
        bad = refusals(c[0], c[1])
        return words.OneOf(("refused", e) for e in sorted(bad)) if bad else "accepted"

    cells = [Cell(c) for c in cells]
    got(cells[-1])
    words.compare(ctx, "prepare_signing", cells, got, want, "%s prepare_signing" % s.p.fns[s.prepare]["span"])
    s1 = sha1(ctx)
    one = [Cell(cell(FROM, dict(key=(k, 64, True), alg=a, bc=b))) for k in ("Rsa", "Ed25519") for a in signing.KEY for b in ("Simple", "Relaxed")]
    words.compare(ctx, "pre-rfc8301/prepare_signing", one, lambda c: s1.refuse(c[0], list(c[1])), want, "%s prepare_signing" % s1.p.fns[s1.prepare]["span"])
    ctx.floor("cells compared", 1000)


BIG = 2 ** 40


# -- the emitted header: C17 C18 C28 ---------------------------------------------------

WIDTHS = (1, 2, 5, 10, 17, 23, 30, 40, 64, 76, 77, 78, 79, 100, 200, 1000)
NAMES = ("DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE", "Dkim-Signature")
SELECTS = (None, None, None, ("From",), ("from", "To", "x", "to"), ("X", "X", "From", "FROM", "Absent"), ("From",) * 12, ("Averyveryverylongheadername-" * 3, "From"),
           ("From", "x|y", "=q", "a=b", "X-'&\"(),"), tuple("From Reply-To Subject Date To Cc Resent-Date Resent-From".split()))
EXTS = ((), (), (), (("q", "dns/txt"),), (("zz", "a b"), ("A", "")), (("xb", "b=1"), ("B", "b=")), (("r", "a\r\n  b=c"), ("y1", "!~<>")), (("l1", "x" * 60), ("n_", "1")),
        (("p", "x"), ("P", "y"), ("pp", "z"), ("PP", "zz")))
IDENTS = (None, None, (None, "example.com"), ("joe", "EXAMPLE.com"), ("a;b=c d\u00e9\t", "x.Example.com"), ("\u00e9" * 30, "example.com"), ("\"a@b|;c\\\" \"", "example.com"), ("a{b|c}=41/_", "a.example.com"),
          ("=41:x", "mail.example.com"), ("~\x7f\x00", "example.com"))
DOMAINS = (("example.com", None), ("Example.COM", None), ("é.com", ("u", "a.é.com")), ("xn--9ca.eXample.com", ("é", "xn--9ca.example.com")), ("bücher.example", (None, "xn--bcher-kva.example")), ("mail.xn--bcher-kva.example", None))
SELS = ("sel", "s.T.u", "é", "xn--9ca.a", "dkim-2023_a".replace("_", "-"))


def options(rng):
    r = {}
    def some(k, vals, p):
        if rng.random() < p:
            r[k] = rng.choice(vals)
    some("width", WIDTHS + tuple(range(8, 90)), .75)
    some("indent", ("\t", " ", "  ", " \t ", "\t\t\t\t", " " * 12), .5)
    some("hc", ("Simple", "Relaxed"), .6)
    some("bc", ("Simple", "Relaxed"), .6)
    some("select", SELECTS, .5)
    some("length", (None, "content", 0, 1, 99, 100, 42), .5)
    some("ts", (None, "now", 0, 1, 4999, 5000, 10 ** 12), .6)
    some("valid", (None, 1, 1.999999999, 100, 10 ** 9), .6)
    some("copy", (True,), .4)
    some("ext", EXTS, .6)
    some("name", NAMES, .4)
    some("order", tuple(signing.ORDERS), .5)
    some("ascii", (True,), .4)
    some("sel", SELS, .4)
    if rng.random() < .4:
        r["domain"], r["ident"] = rng.choice(DOMAINS)
    else:
        some("ident", IDENTS, .6)
    if rng.random() < .4:
        r.update(ED)
    else:
        some("key", tuple(("Rsa", n, True) for n in (1, 2, 3, 20, 48, 64, 65)), .6)
    return r


HEADS = (FROM, H, H, LONG, SPECIAL, SELF, VALUES)


def combos(n, seed, heads=HEADS):
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        hs = rng.choice(heads)
        r = options(rng)
        r = {k: v for k, v in r.items() if v != REQUEST[k]}
        if "from" not in {specs.lower(x) for x in signing.signed_names(hs, {**REQUEST, **r})}:
            continue
        if refusals(hs, [r]):
            continue
        out.append(cell(hs, r))
    return out


def single():
    """One option at a time."""
    out = [cell(h, dict(select=x, copy=True, ascii=a)) for h in HEADS for x in SELECTS[2:] for a in (False, True)]
    out += [cell(h, dict(copy=True, width=w, indent=i)) for h in (H, SPECIAL) for w in WIDTHS for i in ("\t", "   ")]
    out += [cell(H, dict(order=o, ext=e, **k)) for o in signing.ORDERS for e in EXTS[2:] for k in ({}, ED)]
    out += [cell(H, dict(ident=i, ascii=a)) for i in IDENTS[1:] for a in (False, True)]
    out += [cell(H, dict(domain=d, ident=i, ascii=a, sel=x)) for d, i in DOMAINS for a in (False, True) for x in SELS]
    out += [cell(H, dict(ts=t, valid=v, length=n)) for t in (None, "now", 0, 7) for v in (None, 1, 60.5) for n in (None, "content", 0, 100)]
    out += [cell(H, dict(hc=a, bc=b, order=o)) for a in ("Simple", "Relaxed") for b in ("Simple", "Relaxed") for o in (None, "rev")]
    return out


def emitted(prop, ctx, s):
    f, rule = JUDGES[prop]
    ctx.rule("the composed tables of prepare_signing and sign give, for every accepted request tried, " + rule)
    quick = ctx.tier == "quick"
    cells = single() + combos(600 if quick else 6000, int(prop[1:]))
    if prop in ("C28", "C33"):
        cells += [cell(h, dict(width=w, copy=h is not FROM, **k)) for h in (FROM, SPECIAL) for w in range(1, 101, 3 if quick else 1) for k in (dict(order="b last"), dict(domain="é.com", sel="é", indent="  "))]
        cells += [cell(FROM, dict(width=w, order="b first", key=("Rsa", n, True))) for w in range(14, 40) for n in (3, 12)]
    if quick:
        rng = random.Random(1)
        rng.shuffle(cells)
        cells = cells[:1150]
    judge(ctx, "sign", s, cells, each(f))
    if prop == "C28":
        judge(ctx, "format_header", s, cells[::20], each(Rendered(ctx, s)), unit="headers rendered")
    s1 = sha1(ctx)
    one = [cell(H, dict(hc=a, bc=b, **SHA1)) for a in ("Simple", "Relaxed") for b in ("Simple", "Relaxed")]
    judge(ctx, "pre-rfc8301/sign", s1, one, each(f))
    ctx.floor("cells compared", 800)


def each(f):
    def g(hs, rs, out):
        for i, (r, o) in enumerate(zip(rs, out)):
            r = {**REQUEST, **r}
            e = expected(hs, r)
            if isinstance(e, tuple) or isinstance(o, tuple):
                if e != o:
                    return "request %d gives %s, must give %s" % (i, o if isinstance(o, tuple) else "a signature", e if isinstance(e, tuple) else "a signature")
                continue
            x = f(hs, r, e, o)
            if x:
                return ("request %d: " % i if len(rs) > 1 else "") + x
    return g


def same_domain(a, b):
    a, b = specs.to_ascii(a), specs.to_ascii(b)
    return a is not None and b is not None and specs.lower(a) == specs.lower(b)


def squeeze(v):
    return re.sub("[ \t\r\n]", "", v)


def tag_set(hs, r, e, o):
    for k in e:
        if k != "name" and o[k] != e[k]:
            return "returned signature has %s %r, must be %r" % (k, o[k], e[k])
    t = signing.tags(o["value"])
    if t is None:
        return "emitted value is no tag list: %r" % o["value"]
    names = [n for n, _ in t]
    d = dict(t)
    want = {"v", "d", "s", "a", "h", "bh", "b"} | {k for k, _ in r["ext"]}
    want |= {n for n, k in (("i", "identity"), ("l", "body_length"), ("t", "timestamp"), ("x", "expiration")) if e[k] is not None}
    if e["copied_headers"]:
        want.add("z")
    if e["canonicalization"] != ("Simple", "Simple") or "c" in d:
        want.add("c")
    if len(names) != len(d) or set(names) != want:
        return "emitted tags are %s, must be %s" % (" ".join(names), " ".join(sorted(want)))
    if d["v"] != "1" or d["a"] != signing.NAME[r["alg"]]:
        return "v=%s a=%s for %s" % (d["v"], d["a"], r["alg"])
    c = d.get("c", "simple").lower().split("/") + ["simple"]
    if (c[0].capitalize(), c[1].capitalize()) != e["canonicalization"] or len(c) > 3:
        return "c=%s for %s/%s" % (d.get("c"), *e["canonicalization"])
    if specs.b64(squeeze(d["bh"])) != e["body_hash"]:
        return "bh=%s for %s" % (d["bh"], e["body_hash"].hex())
    if specs.b64(squeeze(d["b"])) != o["signature_data"]:
        return "b=%s is not the returned signature" % d["b"]
    if not same_domain(d["d"], e["domain"]):
        return "d=%s for %s" % (d["d"], e["domain"])
    if not same_domain(d["s"], e["selector"]):
        return "s=%s for %s" % (d["s"], e["selector"])
    if [squeeze(x) for x in d["h"].split(":")] != e["signed_headers"]:
        return "h=%s for %s" % (d["h"], e["signed_headers"])
    if e["identity"] is not None:
        i = specs.qp_loose(d["i"])
        l, at, dom = (i or b"").decode().rpartition("@")
        if not at or l != (e["identity"][0] or "") or not same_domain(dom, e["identity"][1]):
            return "i=%s for %s" % (d["i"], e["identity"])
    for n, k in (("l", "body_length"), ("t", "timestamp"), ("x", "expiration")):
        if e[k] is not None and d[n] != str(e[k]):
            return "%s=%s for %d" % (n, d[n], e[k])
    if e["copied_headers"]:
        z = [x.partition(":") for x in squeeze(d["z"]).split("|")]
        z = [[specs.qp_loose(n), specs.qp_loose(v)] for n, _, v in z]
        if z != [[n.encode(), v] for n, v in e["copied_headers"]]:
            return "z=%s for %s" % (d["z"], e["copied_headers"])
    for k, v in r["ext"]:
        if d[k] != v:
            return "%s=%s for %s" % (k, d[k], v)
    # as the parser reads it (decided for the parser by C08)
    p = specs.signature(t, r["alg"] == "RsaSha1")
    if isinstance(p, specs.Bad):
        if e["expiration"] == U64 or odd_identity(e["identity"]):
            return None
        return "the emitted value is not a valid signature (%s): %s" % (sorted(p), o["value"])


def odd_identity(i):
    """A local part no parser or constructor makes."""
    return i is not None and i[0] is not None and specs.identity("%s@%s" % i) != i


def signed_text(hs, r, e, o):
    v = o["value"]
    t = signing.tags(v)
    d = dict(t or [])
    if "b" not in d:
        return "no b= in %r" % v
    if o["name"] != e["name"]:
        return "name %s, requested %s" % (o["name"], e["name"])
    if specs.b64(squeeze(d["b"])) != o["signature_data"]:
        return "b=%s is not the returned signature" % d["b"]
    w = signing.data_signature(hs, r, e, o["name"], specs.without_b(v))
    if o["signature_data"] != w:
        return "signature is not that of the emitted header without b= (%r)" % specs.without_b(v)


def folding(hs, r, e, o):
    v = o["value"]
    if not specs.field_body(v.encode()):
        return "not a header field value: %r" % v
    if r["ascii"] and not v.isascii():
        return "not ASCII: %r" % v
    ext = {k: x for k, x in r["ext"]}
    body = v
    for k, x in ext.items():
        body = body.replace("%s=%s" % (k, x), "%s=%s" % (k, re.sub("[\r\n]", "", x)))
    parts = body.split("\r\n")
    if "\r" in "".join(parts) or "\n" in "".join(parts):
        return "bare line break: %r" % v
    for x in parts[1:]:
        if not x.startswith(r["indent"]) or x[len(r["indent"]):][:1] in (" ", "\t", ""):
            return "continuation line %r, indentation %r" % (x, r["indent"])
    t = v.split(";")
    if not all(re.fullmatch(r"[ \t\r\n]*[A-Za-z][A-Za-z0-9_]*=[^;]*", x) for x in t):
        return "tags are not separated by single semicolons with none at the end: %r" % v
    if signing.tags(v) is None:
        return "not a tag list: %r" % v


class Rendered:
    """format_header and to_header_field of a result."""

    def __init__(self, ctx, s):
        self.s = s
        self.keys = []
        for m in ("format_header", "to_header_field"):
            it = s.p.find("signer::SigningOutput::" + m)
            if it is None:
                raise Missing("public function SigningOutput::" + m)
            self.keys.append(it["key"])
        self.fmts = {}

    def display(self, v):
        f = self.fmts.get(v.path)
        if f is None:
            last = v.path.split("::")[-1]
            its = [x for x in self.s.p.items if x.get("trait") == "std::fmt::Display" and x["name"] == "fmt" and x["key"] in self.s.p.fns
                   and x["self"].split("<")[0].split("::")[-1] == last]
            if len(its) != 1:
                raise Undecided("Display of " + v.path)
            f = self.fmts[v.path] = Fn(self.s.p, its[0])
        return f.text(dict(zip(argnames(self.s.p, f), [v])))

    def __call__(self, hs, r, e, o):
        t = self.s.lib.value(self.keys[0], o["raw"])
        t = t if isinstance(t, str) else self.display(t)
        if t != o["name"] + ":" + o["value"]:
            return "format_header gives %r for name %r and value %r" % (t, o["name"], o["value"])
        h = self.s.lib.value(self.keys[1], o["raw"])
        if h == "panic":
            return "to_header_field panics on %r" % t
        if [signing.plain(x) for x in h] not in ([o["name"], o["value"]], [o["name"], o["value"].encode()]):
            return "to_header_field gives %r for %r" % (h, t)


def widths(hs, r, e, o):
    v = o["value"]
    if signing.tags(v) is None:
        return "not a tag list: %r" % v
    at = 0
    for n, x in enumerate(v.split("\r\n")):
        start, at = at, at + len(x) + 2
        got = len(x) + (len(o["name"]) + 1 if n == 0 else 0)
        c = x[len(r["indent"]):] if n else x
        if got <= r["width"] or not c:
            continue
        # the tag in which the line ends: a semicolon that closes one of these values is not moved to another line
        last = re.match("[ \t\r\n]*([^= \t\r\n]*)", (v[:start] + x).rstrip(";").rpartition(";")[2]).group(1)
        if got == r["width"] + 1 and c.endswith(";") and last in ("b", "bh", "z"):
            continue
        if c.count(";") > 1 or ";" in c[:-1]:
            return "line of %d characters at width %d with several tags: %r" % (got, r["width"], x)
        begun = v[:start].rpartition(";")[2]
        tag = re.match("[ \t\r\n]*([^= \t\r\n]*)", begun + c).group(1)
        c = c.rstrip(";")
        if tag == "h":
            ok = re.fullmatch("[ ]?(h=)?[^:]*:?", c)
        elif tag in ("b", "bh"):
            ok = c in ("b=", "bh=") or len(c) == 1
        elif tag == "z":
            name = ":" not in begun.rpartition("|")[2] if "=" in begun else True
            ok = len(c) == 1 or name and re.fullmatch("(z=|[|])?[^:|]*:", c)
        else:
            ok = True
        if not ok:
            return "line of %d characters at width %d that could be broken in %s=: %r" % (got, r["width"], tag, x)


JUDGES = {
    "C33": (widths, "no line longer than the requested width, but for a closing semicolon, unless it holds a single token that cannot be broken"),
    "C17": (tag_set, "a value that is a tag list with each generated tag once, each decoding to the datum of that tag, and a returned signature with the same data"),
    "C18": (signed_text, "a signature over exactly the emitted header without its b= value, with the request's name, key and algorithm"),
    "C28": (folding, "a value folded only with CRLF and the requested indentation before text, ASCII where asked for, single semicolons between tags, well-formed as a field body"),
}


# -- C27 -----------------------------------------------------------------------------

def outcome(hs, r, e, o):
    for k in ("timestamp", "expiration", "body_length", "signed_headers", "copied_headers", "body_hash", "selector", "domain"):
        if o[k] != e[k]:
            return "%s %r, must be %r" % (k, o[k], e[k])


def c27(prop, ctx, s):
    ctx.rule("the composed tables of prepare_signing and sign give one result per request, in order, each as for that request alone, with time, expiration, length and header lists by the rules, on all combinations of time and length options and on sets of up to ten requests some of which fail")
    quick = ctx.tier == "quick"
    cells = [cell(h, dict(ts=t, valid=v, length=n)) for h in (FROM,) for t in (None, "now", 0, 1, 4999, 5000, 5001, U64 - 1, U64)
             for v in (None, 1, 1.5, 100, U64) for n in (None, "content", 0, 1, 99, 100, 101, BIG)]
    cells += [cell(FROM, dict(length=n, body=b, bc=c, **k)) for b in (0, 1, 2, BIG) for n in (None, "content", 0, 1, 2, 3, BIG, U64)
              for c in ("Simple", "Relaxed") for k in ({}, ED)]
    names = [x for x in signing.DEFAULT_SIGNED] + ["Return-Path", "Received", "Comments", "Keywords", "Sender", "Resent-Sender", "DKIM-Signature", "X", "Bcc", "Message-ID", "MIME-Version", "Fro", "Froms", "Resent", "List-"]
    allh = tuple((n, b" %d" % i) for i, n in enumerate(names))
    sets = [allh, allh[::-1], tuple((specs.lower(n), v) for n, v in allh), tuple((n.upper(), v) for n, v in allh[::2] + allh[::3])] + [(("From", b"1"), (n, b"2"), (n.swapcase(), b"3")) for n in names]
    cells += [cell(h, dict(copy=c)) for h in sets for c in (False, True) if h[0][0].lower() == "from" or len(h) > 3]
    cells += [cell(h, dict(select=x, copy=c)) for h in dict.fromkeys(HEADS) for x in SELECTS[2:] for c in (False, True)]
    bad = [dict(key=("Rsa", 48, False)), dict(length=101), dict(length=BIG, bc="Relaxed")]
    rng = random.Random(27)
    for n in (1, 2, 3, 4, 10):
        for k in range((6 if n < 10 else 4) if quick else 40):
            rs = []
            for i in range(n):
                r = options(rng) if rng.random() < .6 else dict(rng.choice(bad))
                r["domain"], r["ident"], r["sel"] = "d%d.example.com" % i, None, "s%d" % i
                if refusals(H, [r]):
                    r = dict(domain="d%d.example.com" % i, sel="s%d" % i)
                rs.append(r)
            cells.append(cell(H, *rs))
    for i in range(3):
        for b in bad:
            rs = [dict(sel="s%d" % k, domain="d%d.com" % k) for k in range(3)]
            rs[i].update(b)
            cells.append(cell(H, *rs))
    judge(ctx, "sign", s, cells, each(outcome))
    ctx.floor("cells compared", 350)


# -- the signing sides of C02 C04 C23 C25 ---------------------------------------------

def hashed(prop, ctx, s):
    ctx.rule("the signature a request gets is over the header hash of RFC 6376 3.7 with the request's header canonicalization, hash and list")
    if prop == "C02":
        hs = HEADS + (LONG + LONG, SELF + H)
        cells = [cell(h, dict(select=x, hc=c, **k)) for h in hs for x in SELECTS[2:] for c in ("Simple", "Relaxed") for k in ({}, ED)]
        cells += [cell(H, *[dict(select=x, hc=c) for x in (SELECTS[4], None) for c in ("Simple", "Relaxed")])]
    else:
        cells = [cell(h, dict(hc=c, bc=b, name=n)) for h in HEADS for c in ("Simple", "Relaxed") for b in ("Simple", "Relaxed") for n in NAMES[:2]]
        cells += [cell(H, dict(hc=a, bc=b), dict(hc=b, bc=a, sel="t")) for a in ("Simple", "Relaxed") for b in ("Simple", "Relaxed")]
    cells = [c for c in cells if not refusals(*c) and all("from" in map(specs.lower, signing.signed_names(c[0], {**REQUEST, **r})) for r in c[1])]
    judge(ctx, "sign", s, cells, each(signed_text))


def c23(prop, ctx, s):
    ctx.rule("prepare_signing accepts an identity exactly if its domain equals the signing domain or lies below it at a label boundary")
    ds = ["example.com", "EXAMPLE.com", "a.example.com", "a.b.example.com", "xexample.com", "com", "xn--9ca.com", "é.com", "É.com", "a.é.com", "a.xn--9ca.COM", "e.com", "a-example.com", "le.com"]
    cells = [Cell(cell(FROM, dict(domain=d, ident=(l, i)))) for d in ds for i in ds for l in (None, "x")]

    def want(c):
        r = c[1][0]
        return "accepted" if specs.within(r["ident"][1], r["domain"]) else ("refused", "DomainMismatch")
    words.compare(ctx, "prepare_signing", cells, lambda c: s.refuse(c[0], list(c[1])), want, "%s prepare_signing" % s.p.fns[s.prepare]["span"])


def c25(prop, ctx, s):
    ctx.rule("each signature is made by the request's key with its own algorithm over the digest by the hash of the request's algorithm; a key that cannot sign gives an error")
    keys = [dict(key=("Rsa", n, g)) for n in (20, 48, 64) for g in (True, False)] + [dict(ED, key=("Ed25519", 64, True))]
    cells = [cell(h, dict(k, hc=c)) for h in (FROM, H) for k in keys for c in ("Simple", "Relaxed")]
    cells += [cell(H, a, b) for a in keys for b in keys]
    judge(ctx, "sign", s, cells, each(signed_text))
    s1 = sha1(ctx)
    judge(ctx, "pre-rfc8301/sign", s1, [cell(H, dict(k, **a)) for k in keys[:4] for a in ({}, SHA1)] + [cell(H, SHA1, {}, ED)], each(signed_text))
