# properties: C14 C19 C20
"""Total functions over finite types, and comparison types: every cell is evaluated."""

from itertools import product

from fn import Fn, Undecided
from main import Missing
from table import Err, Ok, Opaque, Unknown, V, enum, struct

CONFIGS = ("default", "pre-rfc8301")

# -- C14: statuses and their RFC 8601 result ------------------------------------

SIG_NEUTRAL = """Utf8Encoding TagListFormat IncompatibleVersion UnsupportedAlgorithm InvalidBase64
UnsupportedCanonicalization InvalidDomain InvalidSignedHeaderName InvalidIdentity InvalidBodyLength InvalidQueryMethod
NoSupportedQueryMethods InvalidSelector InvalidTimestamp InvalidExpiration InvalidCopiedHeaderField""".split()
SIG_PERM = """HistoricAlgorithm EmptySignatureTag EmptyBodyHashTag EmptySignedHeadersTag FromHeaderNotSigned
MissingVersionTag MissingAlgorithmTag MissingSignatureTag MissingBodyHashTag MissingDomainTag MissingSignedHeadersTag
MissingSelectorTag DomainMismatch ExpirationNotAfterTimestamp""".split()
REC_NEUTRAL = """RecordFormat TagListFormat IncompatibleVersion InvalidHashAlgorithm NoSupportedHashAlgorithms
UnsupportedKeyType InvalidQuotedPrintable InvalidBase64 InvalidServiceType NoSupportedServiceTypes InvalidFlag""".split()
REC_PERM = "MisplacedVersionTag MissingKeyTag".split()
FLAT = dict(Overflow="Neutral", NoKeyFound="Permerror", InvalidKeyDomain="Permerror", WrongKeyType="Permerror",
            KeyRevoked="Permerror", DisallowedHashAlgorithm="Permerror", DomainMismatch="Permerror",
            InsufficientContent="Permerror", Timeout="Temperror", KeyLookup="Temperror", BodyHashMismatch="Fail")
CRYPTO = dict(InvalidKey="Permerror", InsufficientKeySize="Permerror", VerificationFailure="Fail")
RESULTS = ["None", "Pass", "Fail", "Policy", "Neutral", "Temperror", "Permerror"]
VE = "verifier::VerificationError"


def statuses(p):
    """[(label, value, expected result or None when the variant is not in the table)]"""
    st = "verifier::VerificationStatus"
    yield "Success", enum(st, "Success"), "Pass"
    fail = lambda e: enum(st, "Failure", e)

    def nested(outer, adt, table, mk):
        for v in p.adts[adt]["variants"]:
            vals = [Opaque("payload")] * len(v["fields"])
            yield "Failure(%s(%s))" % (outer, v["name"]), fail(enum(VE, outer, mk(enum(adt, v["name"], *vals)))), table.get(v["name"])
    sig = {**{k: "Neutral" for k in SIG_NEUTRAL}, **{k: "Permerror" for k in SIG_PERM}}
    rec = {**{k: "Neutral" for k in REC_NEUTRAL}, **{k: "Permerror" for k in REC_PERM}}
    for v in p.adts[VE]["variants"]:
        n = v["name"]
        if n == "DkimSignatureFormat":
            yield from nested(n, "signature::DkimSignatureErrorKind", sig, lambda k: struct("signature::DkimSignatureError", kind=k))
        elif n == "KeyRecordFormat":
            yield from nested(n, "record::DkimKeyRecordError", rec, lambda k: k)
        elif n == "VerificationFailure":
            yield from nested(n, "crypto::VerificationError", CRYPTO, lambda k: k)
        elif n == "Policy":
            yield from nested(n, "verifier::PolicyError", {x["name"]: "Policy" for x in p.adts["verifier::PolicyError"]["variants"]}, lambda k: k)
        elif not v["fields"]:
            yield "Failure(%s)" % n, fail(enum(VE, n)), FLAT.get(n)


def c14(ctx):
    ctx.rule("VerificationStatus::to_dkim_result is evaluated on every value of the status type; DkimResult's text on every variant")
    for config in CONFIGS:
        p = ctx.program(config)
        f = Fn(p, ctx.anchor(config, "verifier::VerificationStatus::to_dkim_result"), names=["self"])
        ctx.count("outcomes extracted", len(f.outs))
        for label, val, want in statuses(p):
            ctx.count("status values")
            key = "%s/%s" % (config, label)
            try:
                got = f.value({"self": val})
            except Undecided as u:
                ctx.undecided(key, u)
                continue
            got = got.variant if isinstance(got, V) else str(got)
            if want is None:
                ctx.notes.setdefault("variants without a documented result", []).append(label)
            elif got != want:
                ctx.violation(key, "%s is classified as %s, documented is %s" % (label, got, want), f.where)
        for tr in ("util::CanonicalStr", "std::fmt::Display"):
            names_of(ctx, p, config, "verifier::DkimResult", {r: r.lower() for r in RESULTS}, tr)
    ctx.floor("status values", 2 * 50)


def enum_val(p, adt, spec):
    """Value for a variant name or a tuple of field variants."""
    if isinstance(spec, str):
        return enum(adt, spec)
    sub = "signature::CanonicalizationAlgorithm"
    return struct(adt, header=enum(sub, spec[0]), body=enum(sub, spec[1]))


def names_of(ctx, p, config, adt, names, tr):
    meth = "canonical_str" if tr.endswith("CanonicalStr") else "fmt"
    it = p.find("<%s as %s>::%s" % (adt, tr, meth))
    if it is None or it["key"] not in p.fns:
        raise Missing("%s of %s" % (tr, adt))
    f = Fn(p, it, names=["self"] if meth == "canonical_str" else ["self", "f"])
    for spec, want in names.items():
        key = "%s/%s/%s/%s" % (config, adt, meth, spec)
        ctx.count("names compared")
        try:
            base = {"self": enum_val(p, adt, spec)}
            got = f.value(base) if meth == "canonical_str" else f.text(base)
        except (Undecided, Unknown) as u:
            ctx.undecided(key, u)
            continue
        if got != want:
            ctx.violation(key, "%s of %s %s is %r, must be %r" % (meth, adt, spec, got, want), f.where)


# -- C19 -------------------------------------------------------------------------

def enums(config):
    pre = config != "default"
    sha1 = {"RsaSha1": "rsa-sha1"} if pre else {}
    ca = {"Simple": "simple", "Relaxed": "relaxed"}
    yield "signature::SigningAlgorithm", {"RsaSha256": "rsa-sha256", "Ed25519Sha256": "ed25519-sha256", **sha1}, True
    yield "signature::CanonicalizationAlgorithm", ca, True
    yield "signature::Canonicalization", {(a, b): ca[a] + "/" + ca[b] for a, b in product(ca, repeat=2)}, True
    yield "crypto::KeyType", {"Rsa": "rsa", "Ed25519": "ed25519"}, False
    yield "crypto::HashAlgorithm", {"Sha256": "sha256", **({"Sha1": "sha1"} if pre else {})}, False
    yield "record::ServiceType", {"Any": "*", "Email": "email"}, False
    yield "record::SelectorFlag", {"Testing": "y", "NoSubdomains": "s"}, False


def spellings(s):
    yield s
    yield s.upper()
    yield s.title()
    yield s[:1].swapcase() + s[1:]
    yield s[:-1] + s[-1:].swapcase()


def near(s):
    yield s + " "
    yield " " + s
    yield s[:-1]
    yield s[1:]
    yield s + "x"
    yield s + s[-1:]
    yield s.replace("-", "_") if "-" in s else s + "-"
    yield s.replace("s", "ſ") if "s" in s else s + "\u212a"
    yield s + "/"
    yield "/" + s
    yield s + "\0"


def split_once(s, c):
    c = chr(c) if isinstance(c, int) else c
    a, m, b = s.partition(c)
    return enum("std::option::Option", "Some", (a, b)) if m else enum("std::option::Option", "None")


def rsplit_once(s, c):
    c = chr(c) if isinstance(c, int) else c
    a, m, b = s.rpartition(c)
    return enum("std::option::Option", "Some", (a, b)) if m else enum("std::option::Option", "None")


def find(s, c):
    c = chr(c) if isinstance(c, int) else c
    i = s.find(c)
    return enum("std::option::Option", "Some", len(s[:i].encode())) if i >= 0 else enum("std::option::Option", "None")


STR = {"split_once": split_once, "rsplit_once": rsplit_once, "find": find}


def str_oracle(n, a):
    if n in STR and all(isinstance(x, (str, int)) for x in a):
        return STR[n](*a)
    raise Unknown("call " + n)


def c19(ctx):
    ctx.rule("canonical_str, Display and FromStr tables are evaluated on every variant, on every literal the code compares with, in several spellings, and on strings near them")
    for config in CONFIGS:
        p = ctx.program(config)
        for adt, names, parses in enums(config):
            have = p.variants(adt)
            if have is None:
                raise Missing(adt)
            if isinstance(next(iter(names)), str):
                extra = {v["name"] for v in have} ^ set(names)
                if extra:
                    ctx.violation("%s/%s/variants" % (config, adt), "%s has not exactly the variants of the RFC: %s" % (adt, sorted(extra)), adt)
            for tr in ("util::CanonicalStr", "std::fmt::Display"):
                names_of(ctx, p, config, adt, {k: v for k, v in names.items() if not isinstance(k, str) or k in {x["name"] for x in have}}, tr)
            if not parses:
                continue
            it = p.find("<%s as std::str::FromStr>::from_str" % adt)
            if it is None:
                raise Missing("FromStr of " + adt)
            f = Fn(p, it, names=["s"])
            accept = {v: k for k, v in names.items()}
            if adt.endswith("::Canonicalization"):
                accept.update({"simple": ("Simple", "Simple"), "relaxed": ("Relaxed", "Simple")})
            strings = set()
            lits = set(accept) | f.literals() | {"simple", "relaxed", "rsa-sha1", "rsa-sha256", "rsa", "sha256"}
            if adt.endswith("::Canonicalization"):
                lits |= {a + "/" + b for a, b in product(("simple", "relaxed", "", "simple/relaxed", "nofws"), repeat=2)}
            for w in lits:
                strings |= set(spellings(w)) | set(near(w))
            strings |= {"", "/", "x", "\u212a"}
            for s in sorted(strings):
                want = accept.get("".join(c.lower() if c.isascii() else c for c in s))
                key = "%s/%s/parse %r" % (config, adt, s)
                ctx.count("strings parsed")
                try:
                    got = f.value({"s": s}, str_oracle)
                except Undecided as u:
                    ctx.undecided(key, u)
                    continue
                if not isinstance(got, V):
                    ctx.violation(key, "parsing %r panics" % s, f.where)
                    continue
                g = None
                if got.variant == "Ok":
                    x = got.vals[0]
                    g = x.variant if not x.vals else tuple(y.variant for y in x.vals)
                if g != want:
                    ctx.violation(key, "%r parses as %s, must be %s" % (s, g or "an error", want or "an error"), f.where)
    ctx.floor("names compared", 60)
    ctx.floor("strings parsed", 300)


# -- C20 -------------------------------------------------------------------------

TEXTS = ["a", "A", "b", "ab", "Ab", "aB", "AB", "a-b", "a_b", "é", "É", "aé", "Aé", "[", "{", "@", "`", "k", "\u212a", "ß", "SS", "xn--a", "XN--A", "1"]
INSENSITIVE = ["header::FieldName", "signature::DomainName", "signature::Selector"]


def ascii_lower(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def c20(ctx):
    ctx.rule("eq and hash of the case-insensitive types are evaluated on all pairs of representative texts; every other type with Hash must derive both")
    for config in CONFIGS:
        p = ctx.program(config)
        for adt in INSENSITIVE:
            eq = p.find("<%s as std::cmp::PartialEq>::eq" % adt)
            hs = p.find("<%s as std::hash::Hash>::hash" % adt)
            if eq is None or hs is None or adt not in p.adts:
                raise Missing("equality or hashing of " + adt)
            fe = Fn(p, eq, names=["self", "other"])
            fh = Fn(p, hs, names=["self", "state"])
            mk = lambda s: enum(adt, adt.split("::")[-1], s)
            fed = {}
            for s in TEXTS:
                try:
                    fed[s] = fh.calls({"self": mk(s), "state": Opaque("state")})
                    if not fed[s]:
                        raise Undecided("nothing is hashed")
                    if any(isinstance(x, Opaque) and x.name.startswith("?") for c in fed[s] for x in c[1]):
                        raise Undecided("unknown hash input")
                except (Undecided, Unknown) as u:
                    ctx.undecided("%s/%s/hash %r" % (config, adt, s), u)
            for a, b in product(TEXTS, repeat=2):
                ctx.count("pairs compared")
                key = "%s/%s/%r %r" % (config, adt, a, b)
                try:
                    r = fe.value({"self": mk(a), "other": mk(b)})
                except Undecided as u:
                    ctx.undecided(key, u)
                    continue
                if r is not (ascii_lower(a) == ascii_lower(b)):
                    ctx.violation(key, "%r == %r gives %s" % (a, b, r), fe.where)
                if r is True and a in fed and b in fed and fed[a] != fed[b]:
                    ctx.violation(key + "/hash", "%r and %r are equal but hash %s and %s" % (a, b, fed[a], fed[b]), fh.where)
        it = p.find("<header::FieldName as std::cmp::PartialEq<&str>>::eq")
        if it is not None:
            f = Fn(p, it, names=["self", "other"])
            for a, b in product(TEXTS, repeat=2):
                ctx.count("pairs compared")
                key = "%s/FieldName == &str/%r %r" % (config, a, b)
                try:
                    r = f.value({"self": enum("header::FieldName", "FieldName", a), "other": b})
                except Undecided as u:
                    ctx.undecided(key, u)
                    continue
                if r is not (ascii_lower(a) == ascii_lower(b)):
                    ctx.violation(key, "FieldName %r == %r gives %s" % (a, b, r), f.where)
        # structural everywhere else
        impls = {}
        for it in p.items:
            if it["trait"] in ("std::cmp::PartialEq", "std::hash::Hash") and it["name"] in ("eq", "hash"):
                impls.setdefault(it["self"], {})[it["name"]] = it
        for adt, d in sorted(impls.items()):
            if adt in INSENSITIVE or "hash" not in d:
                continue
            ctx.count("types with derived equality and hash")
            if "eq" in d and d["hash"]["derived"] and not d["eq"]["derived"]:
                ctx.undecided("%s/%s" % (config, adt), "manual equality with derived hash")
            if "eq" in d and not d["hash"]["derived"]:
                ctx.undecided("%s/%s" % (config, adt), "manual hash")
    ctx.floor("pairs compared", 2000)
    ctx.floor("types with derived equality and hash", 30)


def check(prop, ctx):
    {"C14": c14, "C19": c19, "C20": c20}[prop](ctx)
