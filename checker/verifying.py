"""Verification from header text and key record text to the results, in abstract cases.

As signing.py: digests are symbols, a signature verifies if it is the one
`signing.signature_of` gives for key, algorithm and digest, and the body
hasher answers, for what was registered, as for a body of BODY canonical bytes.
"""

import base64

from fn import Undecided, base_name
from main import Missing
from pipe import IoErr, shape
from table import Err, Free, NONE, Ok, Opaque, Panics, Some, Unknown, V, enum, freeze, opt, struct
import signing
import specs
import texts

CONFIG = dict(lookup_timeout=10, max_signatures=10, required=(), forbidden=("From",), min_key_bits=1024, allow_sha1=False,
              forbid_unsigned_content=False, allow_expired=False, allow_timestamp_in_future=False, time_tolerance=300, now=None)
BITS = 2048


def key_data(key):
    """The public key data of an abstract key."""
    return repr(key).encode()


def key_record(key, more=""):
    return ("v=DKIM1; k=%s; %sp=%s" % (key[0].lower(), more, base64.b64encode(key_data(key)).decode())).encode()


def key_of(data, kind):
    import ast
    try:
        k = ast.literal_eval(bytes(data).decode())
    except (ValueError, SyntaxError, UnicodeDecodeError):
        return None
    return k if isinstance(k, tuple) and len(k) == 3 and k[0] == kind else None


def config(c):
    c = {**CONFIG, **c}
    names = lambda xs: [signing.fname(x) for x in xs]
    return struct(
        "verifier::Config", lookup_timeout=("secs", c["lookup_timeout"]), max_signatures=c["max_signatures"],
        headers_required_in_signature=names(c["required"]), headers_forbidden_to_be_unsigned=names(c["forbidden"]),
        min_key_bits=c["min_key_bits"], allow_sha1=c["allow_sha1"], forbid_unsigned_content=c["forbid_unsigned_content"],
        allow_expired=c["allow_expired"], allow_timestamp_in_future=c["allow_timestamp_in_future"],
        time_tolerance=("secs", c["time_tolerance"]), fixed_system_time=opt(c["now"]))


OPAQUE = ("message_hash::BodyHasher::finish", "message_hash::BodyHashResults::get")


def opaque(n, info):
    last = n.split("::")[-1]
    return n in OPAQUE or n in ("crypto::hash::digest", "crypto::digest") or n.startswith("crypto::") and last in ("verify_rsa", "verify_ed25519", "from_key_data")


class Verifying:
    """answers: {query name: [record bytes | ("io", kind)] | ("io", kind)}."""

    def __init__(self, prog):
        self.p = prog
        self.lib = texts.lib(prog, self.oracle, opaque=opaque)
        self.header = self.find("verifier::Verifier::verify_header")
        self.finish = self.find("verifier::Verifier::finish")
        self.clock = signing.CLOCK
        self.truncated = False
        self.changed = None

    def find(self, pretty):
        it = self.p.find(pretty)
        if it is None or not it["public"]:
            raise Missing("public function " + pretty)
        return it["key"]

    @property
    def where(self):
        return "%s verifier::Verifier::verify_header" % self.p.fns[self.header]["span"]

    def oracle(self, n, a):
        b = base_name(n)
        if b == "digest" and len(a) == 2:
            return Opaque("digest", freeze(a[0]), bytes(a[1]))
        if b == "from_key_data":
            k = key_of(a[1], a[0].variant)
            return Err(Opaque("KeyError")) if k is None else Ok(enum("crypto::VerifyingKey", k[0], Opaque("public", *k)))
        if b == "verify_rsa":
            k = a[0].args
            ok = bytes(a[3]) == signing.signature_of("Rsa", k, a[1].variant, a[2])
            return Ok(()) if ok else Err(enum("crypto::VerificationError", "VerificationFailure"))
        if b == "verify_ed25519":
            k = a[0].args
            ok = bytes(a[2]) == signing.signature_of("Ed25519", k, None, a[1])
            return Ok(()) if ok else Err(enum("crypto::VerificationError", "VerificationFailure"))
        if b == "size" and isinstance(a[0], Opaque) and a[0].name == "public":
            return BITS // 8
        if b == "n" and isinstance(a[0], Opaque) and a[0].name == "public":
            return Opaque("modulus")
        if b == "bits" and isinstance(a[0], Opaque) and a[0].name == "modulus":
            return BITS
        if n.endswith("BodyHasher::finish"):
            return Opaque("results", a[0])
        if n.endswith("BodyHashResults::get") or n == "HashMap::get" and isinstance(a[0], Opaque):
            return self.body(a[0].args[0], a[1])
        if b == "lookup_txt":
            if not (isinstance(a[0], Opaque) and a[0].name == "resolver"):
                raise Unknown("resolver %r" % (a[0],))
            return Opaque("query", a[0].args[0], a[1])
        if n == "await":
            known, q = a[0].args
            q = specs.lower(q)
            x = next((x for k, x in known if k == q), None)
            if x is None:
                return Err(IoErr("io", "NotFound"))
            if x[0] == "io":
                return Err(IoErr("io", x[1]))
            return Ok([Err(IoErr("io", t[1])) if isinstance(t, tuple) else Ok(t) for t in x])
        if n == "expired":
            return False
        if n == "kind":
            if isinstance(a[0], IoErr):
                return enum("std::io::ErrorKind", a[0].args[0])
            if isinstance(a[0], V) and a[0].path == "std::io::ErrorKind":
                return a[0]
            raise Unknown("kind of %r" % (a[0],))
        if b == "now":
            return self.clock
        if n == "from_utf8":
            if isinstance(a[0], str):
                return Ok(a[0])
            try:
                return Ok(bytes(a[0]).decode())
            except UnicodeDecodeError:
                return Err(Opaque("Utf8Error"))
        raise Free(n)

    def body(self, hasher, key):
        reg = hasher.get("hashers")
        reg = list(reg) if isinstance(reg, (dict, frozenset)) else [k for k, _ in reg]
        key = freeze(key)
        if key not in [freeze(k) for k in reg]:
            return NONE
        length, alg, canon = key
        n = length.vals[0] if length.vals else None
        e = "message_hash::BodyHashError"
        if n is not None and n > signing.BODY:
            return Some(Err(enum(e, "InsufficientInput")))
        if n is not None and n < signing.BODY and self.truncated:
            return Some(Err(enum(e, "InputTruncated")))
        return Some(Ok((signing.body_hash((n, alg.variant, canon.variant), self.changed), signing.BODY if n is None else n)))

    def run(self, headers, answers, cfg=None):
        """None (no signature) | "panic" | [(index, status)]; raises Undecided."""
        cfg = {**CONFIG, **(cfg or {})}
        known = tuple((specs.lower(k), tuple(x)) for k, x in sorted(answers.items()))
        if self.truncated != cfg["forbid_unsigned_content"]:
            self.truncated = cfg["forbid_unsigned_content"]
            self.lib.memo.clear()
        v = self.lib.value(self.header, Opaque("resolver", known), signing.fields(headers), config(cfg))
        if v == "panic":
            return "panic"
        if not isinstance(v, V):
            raise Undecided("result of verify_header")
        if v.variant == "None":
            return None
        rs = self.lib.value(self.finish, v.vals[0])
        if rs == "panic":
            return "panic"
        if not isinstance(rs, list):
            raise Undecided("results of finish")
        return [(r.get("index"), shape(r.get("status"))) for r in rs]
