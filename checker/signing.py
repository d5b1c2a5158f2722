"""Signing, from `Signer::prepare_signing` to the results of `Signer::sign`, in abstract cases.

The primitives are ideal functions: a digest is a symbol made of its algorithm
and the bytes, a signature a fixed function of key, algorithm and digest, and
the body hasher answers, for what was registered, as for a body of BODY
canonical bytes.  `expected` is the specification.
"""

import base64
import hashlib

from fn import Undecided, base_name
from main import Missing
from table import Err, Free, NONE, Ok, Opaque, Panics, Some, Unknown, V, enum, freeze, opt, struct
import specs
import texts

CA = "signature::CanonicalizationAlgorithm"
BODY = 100
CLOCK = 5000
U64 = 2 ** 64 - 1
TAGS = ("v", "a", "b", "bh", "c", "d", "h", "i", "l", "s", "t", "x", "z")
DEFAULT_SIGNED = """From Reply-To Subject Date To Cc Resent-Date Resent-From Resent-To Resent-Cc In-Reply-To References
List-Id List-Help List-Unsubscribe List-Subscribe List-Post List-Owner List-Archive""".split()

REQUEST = dict(key=("Rsa", 48, True), alg="RsaSha256", hc="Relaxed", bc="Simple", domain="example.com", sel="sel", select=None, ident=None,
               length=None, ts=1000, valid=100, copy=False, ext=(), name="DKIM-Signature", width=78, indent="\t", order=None, ascii=False)

HASH = {"RsaSha256": "Sha256", "Ed25519Sha256": "Sha256", "RsaSha1": "Sha1"}
KEY = {"RsaSha256": "Rsa", "Ed25519Sha256": "Ed25519", "RsaSha1": "Rsa"}
NAME = {"RsaSha256": "rsa-sha256", "Ed25519Sha256": "ed25519-sha256", "RsaSha1": "rsa-sha1"}


def fname(x):
    return enum("header::FieldName", "FieldName", x)


def fields(hs):
    return enum("header::HeaderFields", "HeaderFields", [(fname(n), enum("header::FieldBody", "FieldBody", v)) for n, v in hs])


def dname(d):
    return enum("signature::DomainName", "DomainName", d)


def body_hash(key, changed=None):
    """(length limit, hash algorithm, canonicalization) of the ideal body hasher; of the body with the given byte changed."""
    n, alg, canon = key
    n = BODY if n is None else n
    return hashlib.sha256(repr((n, alg, canon, changed if changed is not None and changed < n else None)).encode()).digest()[:20]


def digest_of(h, data):
    return Opaque("digest", enum("crypto::HashAlgorithm", h), bytes(data))


def signature_of(kind, key, alg, digest):
    """`key` is the abstract key value, `digest` the symbol signed."""
    s = hashlib.sha512(repr((kind, key, alg, digest)).encode()).digest()
    return (s * (key[1] // len(s) + 1))[:key[1]]


def oracle(n, a):
    b = base_name(n)
    if b == "as_ref" and len(a) == 1 and isinstance(a[0], V) and a[0].path.endswith("SigningKey"):
        return a[0]
    if b == "digest" and len(a) == 2:
        return Opaque("digest", freeze(a[0]), bytes(a[1]))
    if b == "sign_rsa":
        k = a[1].args
        if not k[2]:
            return Err(enum("crypto::SigningError", "SigningFailure"))
        return Ok(list(signature_of("Rsa", k, a[0].variant, a[2])))
    if b == "sign_ed25519":
        return list(signature_of("Ed25519", a[0].args, None, a[1]))
    if n.endswith("BodyHasher::finish"):
        return Opaque("results", a[0])
    if n.endswith("BodyHashResults::get"):
        reg = a[0].args[0].get("hashers")
        reg = list(reg) if isinstance(reg, (dict, frozenset)) else [k for k, _ in reg]
        key = freeze(a[1])
        if key not in [freeze(k) for k in reg]:
            return NONE
        length, alg, canon = key
        n = length.vals[0] if length.vals else None
        if n is not None and n > BODY:
            return Some(Err(enum("message_hash::BodyHashError", "InsufficientInput")))
        return Some(Ok((body_hash((n, alg.variant, canon.variant)), BODY if n is None else n)))
    if b == "size":
        return a[0].args[1]
    if b == "now":
        return CLOCK
    if b in ("call", "call_mut") and isinstance(a[0], Opaque) and a[0].name == "order":
        return ordering(a[0].args[0], *a[1])
    raise Free(n)


ORDERS = {
    "rev": lambda x: tuple(-ord(c) for c in x),
    "abc": lambda x: x,
    "b first": lambda x: x != "b",
    "b last": lambda x: x == "b",
    "same": lambda x: 0,
    "z a": lambda x: "zvbhx".find(x[0]) * -1,
}


def ordering(o, a, b):
    a, b = ORDERS[o](a), ORDERS[o](b)
    return enum("std::cmp::Ordering", "Less" if a < b else "Greater" if a > b else "Equal")


OPAQUE = ("message_hash::BodyHasher::finish", "message_hash::BodyHashResults::get")


def opaque(n, info):
    last = n.split("::")[-1]
    return n in OPAQUE or n in ("crypto::hash::digest", "crypto::digest") or n.startswith("crypto::") and last in ("sign_rsa", "sign_ed25519")


class Signing:
    def __init__(self, prog):
        self.p = prog
        self.lib = texts.lib(prog, oracle, opaque=opaque)
        self.prepare = self.find("signer::Signer::<T>::prepare_signing")
        self.sign = self.find("signer::Signer::<T>::sign")

    def find(self, pretty):
        it = self.p.find(pretty)
        if it is None or not it["public"]:
            raise Missing("public function " + pretty)
        return it["key"]

    @property
    def where(self):
        return "%s signer::Signer::sign" % self.p.fns[self.sign]["span"]

    def request(self, r):
        r = {**REQUEST, **r}
        kind, size, good = r["key"]
        sel = enum("signer::HeaderSelection", "Auto") if r["select"] is None else enum("signer::HeaderSelection", "Manual", [fname(x) for x in r["select"]])
        ident = NONE if r["ident"] is None else Some(struct("signature::Identity", local_part=opt(r["ident"][0]), domain=dname(r["ident"][1])))
        bl, ts = "signer::BodyLength", "signer::Timestamp"
        length = enum(bl, "NoLimit") if r["length"] is None else enum(bl, "MessageContent") if r["length"] == "content" else enum(bl, "Exact", r["length"])
        stamp = enum(ts, "None") if r["ts"] is None else enum(ts, "Now") if r["ts"] == "now" else enum(ts, "Exact", r["ts"])
        return struct(
            "signer::SignRequest", signing_key=enum("crypto::SigningKey", kind, Opaque("key", kind, size, good)),
            algorithm=enum("signature::SigningAlgorithm", r["alg"]),
            canonicalization=struct("signature::Canonicalization", header=enum(CA, r["hc"]), body=enum(CA, r["bc"])),
            domain=dname(r["domain"]), header_selection=sel, identity=ident, body_length=length,
            selector=enum("signature::Selector", "Selector", r["sel"]), timestamp=stamp,
            valid_duration=NONE if r["valid"] is None else Some(("secs", r["valid"])), copy_headers=r["copy"],
            ext_tags=[tuple(x) for x in r["ext"]],
            format=struct("signer::OutputFormat", header_name=r["name"], line_width=r["width"], indentation=r["indent"],
                          tag_order=NONE if r["order"] is None else Some(Opaque("order", r["order"])), ascii_only=r["ascii"]))

    def run(self, headers, reqs):
        """("refused", error) | "panic" | [("err", name) | output dict]; raises Undecided."""
        v = self.lib.value(self.prepare, fields(headers), [self.request(r) for r in reqs])
        if v == "panic":
            return "panic"
        if not isinstance(v, V):
            raise Undecided("result of prepare_signing")
        if v.variant == "Err":
            return ("refused", v.vals[0].variant)
        rs = self.lib.value(self.sign, v.vals[0])
        if rs == "panic":
            return "panic"
        if not isinstance(rs, list):
            raise Undecided("results of sign")
        return [self.output(x) for x in rs]

    def refuse(self, headers, reqs):
        """("refused", error) | "accepted" | "panic", from prepare_signing alone."""
        v = self.lib.value(self.prepare, fields(headers), [self.request(r) for r in reqs])
        if v == "panic":
            return "panic"
        if not isinstance(v, V):
            raise Undecided("result of prepare_signing")
        return ("refused", v.vals[0].variant) if v.variant == "Err" else "accepted"

    def output(self, x):
        if not isinstance(x, V):
            raise Undecided("result of sign")
        if x.variant == "Err":
            return ("err", x.vals[0].variant)
        o = x.vals[0]
        s = o.get("signature")
        out = dict(name=plain(o.get("header_name")), value=plain(o.get("header_value")), raw=o)
        for k in s.names:
            out[k] = plain(s.get(k))
        return out


def plain(v):
    if isinstance(v, V):
        last = v.path.split("::")[-1]
        if last in ("FieldName", "FieldBody", "DomainName", "Selector", "Box"):
            return plain(v.vals[0])
        if v.variant == "None" and not v.vals:
            return None
        if v.variant == "Some":
            return plain(v.vals[0])
        if last == "Identity":
            return (plain(v.get("local_part")), plain(v.get("domain")))
        if last == "Canonicalization":
            return (v.get("header").variant, v.get("body").variant)
        if not v.vals:
            return v.variant
        raise Undecided("value %r" % (v,))
    if isinstance(v, bytes):
        return v
    if isinstance(v, (list, tuple)):
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            return bytes(v)
        return [plain(x) for x in v]
    if isinstance(v, (str, int)) or v is None:
        return v
    raise Undecided("value %r" % (v,))


# -- specification -------------------------------------------------------------------

def errors(r):
    """The kinds of refusal a request calls for."""
    r = {**REQUEST, **r}
    bad = set()
    if r["key"][0] != KEY[r["alg"]]:
        bad.add("IncompatibleKeyType")
    if r["select"] is not None:
        if "from" not in map(specs.lower, r["select"]):
            bad.add("FromHeaderNotSigned")
        if any(";" in x for x in r["select"]):
            bad.add("InvalidSignedFieldName")
    if r["ident"] is not None and not specs.within(r["ident"][1], r["domain"]):
        bad.add("DomainMismatch")
    if r["valid"] is not None and r["valid"] < 1:
        bad.add("ZeroExpirationDuration")
    names = [k for k, _ in r["ext"]]
    if len(set(names)) < len(names) or any(not tag_name(k) or not tag_value(v) or k in TAGS for k, v in r["ext"]):
        bad.add("InvalidExtTags")
    if specs.lower(r["name"]) != "dkim-signature":
        bad.add("InvalidDkimSignatureHeaderName")
    if not r["indent"] or r["indent"].strip(" \t"):
        bad.add("InvalidIndentationWhitespace")
    return bad


def tag_name(s):
    import re
    from checks.taglist import NAME
    return re.fullmatch(NAME, s) is not None


def tag_value(s):
    import re
    from checks.taglist import VALUE
    return re.fullmatch(VALUE, s) is not None


def refusals(headers, reqs):
    bad = set()
    if "from" not in [specs.lower(n) for n, _ in headers]:
        bad.add("MissingFromHeader")
    if not reqs:
        bad.add("EmptyRequests")
    if len(reqs) > 10:
        bad.add("TooManyRequests")
    for r in reqs:
        bad |= errors(r)
    return bad


def signed_names(headers, r):
    if r["select"] is not None:
        return list(r["select"])
    d = [x.lower() for x in DEFAULT_SIGNED]
    return [n for n, _ in reversed(headers) if specs.lower(n) in d]


def expected(headers, r):
    """What the result for an accepted request must be: ("err", name), or the signature's fields."""
    r = {**REQUEST, **r}
    n = r["length"] if isinstance(r["length"], int) else None
    if n is not None and n > BODY:
        return ("err", "InsufficientContent")
    kind, size, good = r["key"]
    if not good:
        return ("err", "SigningFailure")
    names = signed_names(headers, r)
    ts = CLOCK if r["ts"] == "now" else r["ts"]
    exp = None if r["valid"] is None else min(U64, (CLOCK if ts is None else ts) + int(r["valid"]))
    low = [specs.lower(x) for x in names]
    return dict(
        algorithm=r["alg"], body_hash=body_hash((n, HASH[r["alg"]], r["bc"])), canonicalization=(r["hc"], r["bc"]), domain=r["domain"],
        signed_headers=names, identity=r["ident"], body_length=BODY if r["length"] == "content" else n, selector=r["sel"],
        timestamp=ts, expiration=exp, copied_headers=[[n, v] for n, v in headers if specs.lower(n) in low] if r["copy"] else [],
        ext_tags=[list(x) for x in r["ext"]], name=r["name"])


def data_signature(headers, r, e, name, value):
    """The signature that belongs to an emitted field, given its value without the b= content."""
    r = {**REQUEST, **r}
    d = specs.header_hash_data(r["hc"], headers, e["signed_headers"], name, value.encode())
    h = HASH[r["alg"]]
    kind = r["key"][0]
    dg = digest_of(h, d)
    return signature_of(kind, r["key"], h if kind == "Rsa" else None, dg)


def tags(value):
    """(name, value without surrounding white space) pairs of a tag list, or None."""
    from checks.taglist import reference
    t = reference(value)
    return t if isinstance(t, list) else None
