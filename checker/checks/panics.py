# properties: C29
"""No panic for any message, DNS answer or text given to the parsers and the verifier."""

import collections
import random

import refs
import signing
import specs
import texts
import verifying
import words
from checks import body, formats, header, quoted, tables, taglist, validated
from checks.signer import Cell, ED, FROM, H, LONG, cell
from fn import Undecided
from signing import REQUEST, U64
from table import Panics, Unknown

ENTRIES = ("verifier::Verifier::verify_header", "verifier::Verifier::process_body_chunk", "verifier::Verifier::finish")


def panics(g):
    """Whether a result contains a panic."""
    if isinstance(g, str):
        return g == "panic"
    if isinstance(g, (list, tuple)):
        return any(panics(x) for x in g)
    return isinstance(g, Panics)


class Only:
    """A Ctx that keeps of the reports of another property's check only the panics."""

    def __init__(self, ctx, prop):
        self.__dict__.update(ctx=ctx, prop=prop, only=panics, violations={})

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def violation(self, key, msg, where=None, detail=None):
        self.violations[key] = msg      # the other check stops at its own deviations
        if "panic" in msg:
            self.ctx.violation("%s/%s" % (self.prop, key), msg, where, detail)

    def undecided(self, key, why):
        self.ctx.undecided("%s/%s" % (self.prop, key), why)

    def count(self, what, n=1):
        self.ctx.count(what, n)

    def floor(self, what, n):
        pass

    def rule(self, text):
        pass

    def sample(self, x, cap=0):
        pass


def check(prop, ctx):
    ctx.rule("no outcome of the decision tables of the parsers, canonicalizers and body hashing (over the cells of C02-C05, C08-C10, C19, C21, C22) and of the composed tables of verify_header and finish (over malformed, mutated and extreme signatures, key records, answers and settings) is a panic; every outcome of a reachable function that ends in a panic is listed with whether its guard is met by any cell")
    p = ctx.program("default")
    sites(ctx, p)
    parsers(ctx, p)
    whole(ctx, p)
    for q, f in (("C08", formats.check), ("C09", formats.check), ("C10", taglist.check), ("C22", quoted.check), ("C21", validated.check),
                 ("C19", tables.check), ("C03", body.check), ("C05", body.check), ("C04", header.check), ("C02", header.check)):
        f(q, Only(ctx, q))
    ctx.floor("cells compared", 50000)
    ctx.floor("messages verified", 500)
    ctx.floor("functions reachable from the verifier", 100)


# -- the sites -----------------------------------------------------------------------

def reach(p, roots):
    kids = collections.defaultdict(list)
    for k, f in p.fns.items():
        if f.get("parent"):
            kids[f["parent"]].append(k)
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen or k not in p.fns:
            continue
        seen.add(k)
        todo += [i["key"] for i, _ in refs.fn_refs(p, k) if i.get("key")]
        todo += kids[k.split("[")[0].split("@")[0]]
    return {k for k in seen if p.fns[k]["local"]}


def sites(ctx, p):
    """The outcomes that are panics, of the functions reachable from the verifier."""
    keys = reach(p, [ctx.anchor("default", n)["key"] for n in ENTRIES])
    ctx.count("functions reachable from the verifier", len(keys))
    lib = texts.lib(p, signing.oracle, opaque=signing.opaque)
    found = {}
    for k in sorted(keys):
        if not lib.summarised(k):
            continue
        try:
            f = lib.fn(k)
        except Exception as x:
            ctx.notes.setdefault("functions without a table", []).append("%s: %s" % (p.fns[k]["pretty"], str(x)[:80]))
            continue
        n = [o for o in f.outs if o.kind != "ret"]
        if n:
            found[p.fns[k]["pretty"]] = len(n)
    ctx.count("functions with a guarded panic", len(found))
    ctx.count("guarded panics", sum(found.values()))
    ctx.notes["functions with a guarded panic (none of the cells meets the guard)"] = found


# -- the verifier as a whole -----------------------------------------------------------

NUMBERS = ("0", "1", "299", "300", "301", "4999", "5000", "5001", str(U64 - 1), str(U64), str(U64 + 1), str(2 ** 63), str(10 ** 40), "-1", "", " ", "1 2", "+1", "\u0661", "0x1", "1.5")
WORDS = ("", " ", "a", "=", "==", ":", "::", "@", "@a", "a@", ".", "..", "a..b", "*", "/", "//", "simple/", "/simple", "simple/simple/simple", "\"", "\"@\"", "\\", "=3", "=3D", "=ZZ", "=\u00e9", "=\u0661\u0661", "=\u00c90", "=\u06610", "=0\u0661", "=E\u00c9", "\u00e9", "\u20ac" * 3, "\U0001f600", "xn--", "xn--a", "xn--\u00e9", "a" * 70, "a" * 300, ("a" * 60 + ".") * 6, "-", "_", "\ufb00.com", "\u200d", "YQ", "YQ=", "YQ==", "Y Q = =", "YQ===", "====", "from", "from:", ":from", "from: :to", "f\u00fcr", "a:b|c", "|", "a|", "a:=|b:==", "sha256", "rsa-sha256", "RSA-SHA1", "\r\n ", "a\r\n b", "\t", "\x7f", "\x00")
TAGS = ("v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z", "X", "\u00e9", "a b", "")


class Case(tuple):
    """(fields, answers, settings, body truncated)"""

    def __repr__(self):
        fs, an, cfg = self
        return "header %s, answers %s%s" % (show(fs), show(an), ", " + show(cfg) if cfg else "")


def show(x):
    r = repr(x)
    return r if len(r) < 400 else r[:400] + "…"


SIG = "v=1; a=rsa-sha256; d=x.example; s=s; h=from; bh=YWJj; b=YWJj"
REC = "v=DKIM1; p=YWJj"
FROM_STR = "<%s as std::str::FromStr>::from_str"
PARSERS = ("quoted_printable::decode", "quoted_printable::decode_qp_section", "util::decode_base64", "header::FieldName::new", "signature::DomainName::new",
           "signature::Selector::new", "signature::Identity::new") + tuple(FROM_STR % t for t in (
               "header::HeaderFields", "signature::DomainName", "signature::Selector", "signature::Identity", "signature::SigningAlgorithm",
               "signature::CanonicalizationAlgorithm", "signature::Canonicalization"))
# text of several bytes a character, at every offset: a cut at a fixed length panics
LONG_WORDS = tuple("a" * k + c * (400 // len(c.encode())) for c in "\u00e9\u20ac\U0001f600" for k in range(len(c.encode())))


def parsers(ctx, p):
    """The parsers, each for itself, on the words in every tag."""
    lib = texts.lib(p, signing.oracle, opaque=signing.opaque)
    quick = ctx.tier == "quick"
    rng = random.Random(30)
    sig, rec = FROM_STR % "signature::DkimSignature", FROM_STR % "record::DkimKeyRecord"
    cases = []
    for n, base in ((sig, SIG), (rec, REC)):
        for tag in TAGS + (("n", "k") if n == rec else ()):
            for x in WORDS + NUMBERS[:4] + (LONG_WORDS if not quick else LONG_WORDS[::3]):
                ts = [t for t in base.split("; ") if t.split("=")[0] != tag] + ["%s=%s" % (tag, x)]
                cases.append((n, "; ".join(ts)))
        for _ in range(300 if quick else 6000):
            b = base
            for _ in range(rng.choice((1, 1, 2, 4))):
                i, k = rng.randrange(len(b) + 1), rng.choice((0, 0, 1, 1, 5))
                b = b[:i] + rng.choice((";", "=", ":", " ", "\r\n ", "\u00e9", "\U0001f600", "/", "@", "", "A", "0", "=A", "\u0661")) + b[i + k:]
            cases.append((n, b))
    for n in PARSERS:
        if p.find(n) is None:
            ctx.notes.setdefault("parsers not found", []).append(n)
            continue
        for x in WORDS + NUMBERS + LONG_WORDS + tuple("a@" + w for w in WORDS) + tuple(w + "a." for w in WORDS):
            cases.append((n, x))
            if n.endswith("HeaderFields as std::str::FromStr>::from_str"):
                cases += [(n, "From:%s" % x), (n, "From:%s\r\n" % x), (n, "%s:\r\n a\r\nTo: %s\r\n\r\n" % (x, x))]
    try:
        for c in {c[0]: c for c in cases}.values():
            lib.value(*c)
    except Undecided:
        pass
    c2 = type("C", (), dict(only=staticmethod(panics), parallel=staticmethod(ctx.parallel), count=ctx.count, undecided=ctx.undecided, violation=ctx.violation))
    words.compare(c2, "parsers", list(dict.fromkeys(cases)), lambda c: lib.value(*c), lambda c: None, "src", unit="texts parsed")
    ctx.floor("texts parsed", 3000)


def whole(ctx, p):
    quick = ctx.tier == "quick"
    rng = random.Random(29)
    s, v = signing.Signing(p), verifying.Verifying(p)
    good = []
    for hs, r in ((FROM, dict()), (H, dict(hc="Simple", length=50, ident=("u", "a.example.com"))), (LONG, dict(copy=True, **ED)), (H, dict(select=("To", "From", "x"), length="content", ts=None))):
        o = s.run(hs, [r])
        if not isinstance(o, list) or isinstance(o[0], tuple):
            raise Undecided("signing gives %s" % str(o)[:80])
        good.append((hs, o[0]["value"], REQUEST["key"] if "key" not in r else r["key"]))
    NAME = "DKIM-Signature"
    key = lambda k, more="": verifying.key_record(k, more)
    ask = lambda d, sel="sel": "%s._domainkey.%s." % (sel, d)
    std = lambda k: {ask("example.com"): [key(k)]}
    cases = []

    def add(fs, answers, **cfg):
        if all(specs.field_name(n) and specs.field_body(b) for n, b in fs):
            cases.append(Case((tuple(fs), answers, cfg)))

    def parts(val):
        return [t for t in val.split(";") if t.strip()]

    def put(val, tag, x):
        ts = [t for t in parts(val) if t.split("=", 1)[0].strip() != tag]
        return ";".join(ts + [" %s=%s" % (tag, x)])

    # one tag replaced, and one removed
    values = []
    for tag in TAGS:
        for x in WORDS + (NUMBERS if tag in ("l", "t", "x") else NUMBERS[:2]):
            values.append((put, tag, x))
    rng.shuffle(values)
    for f, tag, x in values if not quick else values[:260]:
        hs, val, k = rng.choice(good)
        add(((NAME, put(val, tag, x).encode()),) + hs, std(k))
    long = list(LONG_WORDS)
    for tag in TAGS:
        for x in long if not quick or tag in ("i", "d", "s") else rng.sample(long, 2):
            hs, val, k = good[0]
            add(((NAME, put(val, tag, x).encode()),) + hs, std(k))
            add(((NAME, put("b=YQ==;i=x;d=x;s=x;a=x", tag, x).encode()),) + hs, std(k))
    # pairs of numbers
    for t in NUMBERS[:11]:
        for x in (NUMBERS[:11] if not quick else rng.sample(NUMBERS[:11], 3)):
            hs, val, k = good[0]
            add(((NAME, put(put(val, "t", t), "x", x).encode()),) + hs, std(k), now=rng.choice((None, 0, 1, 5000, U64)), time_tolerance=rng.choice((0, 1, 300, U64)))
    # one change of a token, and bytes that are not UTF-8
    tokens = [b";", b"=", b":", b"@", b".", b" ", b"\r\n ", b"\"", b"\\", b"\xff", b"\xc3", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\x00", b"\x7f", b"/", b"|", b"A"]
    for _ in range(200 if quick else 4000):
        hs, val, k = rng.choice(good)
        b = val.encode()
        for _ in range(rng.choice((1, 1, 2, 4))):
            i, n = rng.randrange(len(b) + 1), rng.choice((0, 0, 1, 1, 5))
            b = b[:i] + rng.choice(tokens + [b""]) + b[i + n:]
        add(((NAME, b),) + hs, std(k))
    # whole values
    for w in (b"", b";", b"=", b"v=1", b"v=1;", b" ", b"\xff", b"v=1;\xff=1", b"d=\xff", b"a=rsa-sha256;d=" + b"a" * 300, b";" * 50, b"=" * 50, b"v=1; v=1", b"\r\n\t"):
        add(((NAME, w),) + FROM, {})
        add(((NAME.lower(), w), (NAME.upper(), w)) + FROM, {}, max_signatures=1)
    # answers
    hs, val, k = good[1]
    records = [b"", b";", b"=", b"p=", b"p", b"v=DKIM1", b"v=DKIM1;p=", b"v=DKIM1;p=A", b"v=DKIM1;p=AA", b"v=DKIM1;p=AAA=", b"v=DKIM1;p=!", b"v=DKIM2;p=YQ==", b"\xff", b"v=DKIM1;p=\xff", b"v=DKIM1;n=\xff;p=YQ==",
               b"v=DKIM1;n==;p=YQ==", b"v=DKIM1;n==A;p=YQ==", b"v=DKIM1;n==\xc3\xa9;p=YQ==", b"v=DKIM1;k=;p=YQ==", b"v=DKIM1;h=;p=YQ==", b"v=DKIM1;h=sha1;p=YQ==", b"v=DKIM1;t=;p=YQ==", b"v=DKIM1;s=;p=YQ==", b"v=DKIM1;s=tlsrpt;p=YQ==", b" v = DKIM1 ;", b"a" * 600,
               b"v=DKIM1;k=ed25519;p=YQ==", b"v=DKIM1;" * 3, b"v=spf1 -all", key(k), key(k, "t=s;"), key(k, "t=y;"), key(k, "h=sha256:sha1;"), key(k, "n=a=20b;"), key(ED["key"]), key(k) + b";", key(k) + b"\xff", key(k, "\u00e9=1;"), key(k, "n=\u00e9;")]
    records += [("v=DKIM1;%s=%s;p=YQ==" % (tag, x)).encode() for tag in ("h", "k", "n", "p", "s", "t", "x") for x in (long if not quick else rng.sample(long, 2))]
    records += [b"v=DKIM1;p=YQ==;n=" + x.encode() for x in long]
    for r in records:
        add(((NAME, val.encode()),) + hs, {ask("example.com"): [r]})
    kinds = ("NotFound", "TimedOut", "InvalidInput", "Other", "ConnectionRefused", "PermissionDenied")
    for kind in kinds:
        add(((NAME, val.encode()),) + hs, {ask("example.com"): ("io", kind)})
        add(((NAME, val.encode()),) + hs, {ask("example.com"): [("io", kind)]})
        add(((NAME, val.encode()),) + hs, {ask("example.com"): [("io", kind), key(k), ("io", kind)]})
    for n in (0, 1, 2, 3, 4, 5, 9):
        for _ in range(3 if quick else 40):
            rs = [rng.choice(records + [("io", rng.choice(kinds))]) for _ in range(n)]
            add(((NAME, val.encode()),) + hs, {ask("example.com"): rs})
    # settings, lengths and several signatures
    for n in (0, 1, 2, 3):
        for m in (0, 1, 2, U64):
            for _ in range(2 if quick else 10):
                fs = [(NAME, rng.choice(good)[1].encode()) for _ in range(n)] + [(NAME, rng.choice((b"", b"v=1", b"\xff")))] * (n % 2)
                rng.shuffle(fs)
                add(tuple(fs) + H, std(k), max_signatures=m, lookup_timeout=rng.choice((0, 10, U64)), min_key_bits=rng.choice((0, 1024, U64)),
                    required=rng.choice(((), ("From",), ("To", "x", "To"))), forbidden=rng.choice(((), ("From",), ("x", "X", "From"))),
                    allow_sha1=rng.random() < .5, forbid_unsigned_content=rng.random() < .5, allow_expired=rng.random() < .5,
                    allow_timestamp_in_future=rng.random() < .5, time_tolerance=rng.choice((0, 1, 300, U64)), now=rng.choice((None, 0, 1, 1099, 1400, 5000, U64)))
    # what can be signed may not be there
    for hx in (FROM, H[:1], H[1:], LONG[::-1], tuple((n, b"") for n, _ in H), tuple((n, b"\r\n ") for n, _ in H), tuple((n, b"\xff\r\n\t\xff ") for n, _ in H)):
        for h_, val, k in good:
            add(((NAME, val.encode()),) + tuple(hx), std(k))
            add(tuple(hx) + ((NAME, val.encode()),), std(k))
    cases = list({repr(c): c for c in cases}.values())
    try:
        v.run(*cases[0])
    except (Undecided, Unknown):
        pass
    c2 = type("C", (), dict(only=staticmethod(panics), parallel=staticmethod(ctx.parallel), count=ctx.count, undecided=ctx.undecided, violation=ctx.violation))
    words.compare(c2, "verify_header and finish", cases, lambda c: v.run(*c), lambda c: None, v.where, unit="messages verified")
    ctx.count("functions analysed", len(v.lib.fns) + len(s.lib.fns))
