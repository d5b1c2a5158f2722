"""The verification pipeline, from `Verifier::verify_header` to `finish`.

`Pipeline` extracts the guarded tables of both functions once, everything in
between followed into (signature search, policy, lookups, key records, the
cryptographic check, the choice among records, body hash comparison).  `run`
evaluates the tables in one abstract case, and `expected` is the specification.
"""

from engine import Engine, OPTION, RESULT, walk
from table import (Case, Env, Err, Free, Infeasible, NONE, Ok, Opaque, Panics, Some, Unknown, V,
                   enum, opt, struct)
import specs
import table

FN = "header::FieldName"
FB = "header::FieldBody"
SIG = "signature::DkimSignature"
REC = "record::DkimKeyRecord"
ENTRY = "verifier::Verifier::verify_header"
FINISH = "verifier::Verifier::finish"

OPAQUE = (
    "<signature::DkimSignature as std::str::FromStr>::from_str",
    "<record::DkimKeyRecord as std::str::FromStr>::from_str",
    "message_hash::compute_data_hash",
    "crypto::VerifyingKey::from_key_data",
    "crypto::rsa::verify_rsa",
    "crypto::ed25519::verify_ed25519",
    "verifier::verify::make_original_dkim_sig",
    "message_hash::BodyHasher::finish",
)


def name(x):
    return enum(FN, "FieldName", x)


def body(x):
    return enum(FB, "FieldBody", x)


def names(xs):
    return [name(x) for x in xs]


def shape(v):
    """Variant skeleton of a value: Failure(Policy(SignatureExpired))."""
    if isinstance(v, V):
        fs = [shape(x) for x in v.vals if isinstance(x, (V, Opaque))]
        if v.path.endswith("DkimSignatureError") and "kind" in v.names:
            return shape(v.get("kind"))
        if v.path.endswith("::Box") or v.path.endswith("Arc"):
            return fs[0] if fs else "?"
        return v.variant + ("(" + ",".join(fs) + ")" if fs else "")
    if isinstance(v, Opaque):
        return v.name
    return "?"


class IoErr(Opaque):
    pass


DEFAULT_CFG = dict(
    lookup_timeout=10, max_signatures=10, required=["From"], forbidden=[], min_key_bits=1024,
    allow_sha1=False, forbid_unsigned_content=False, allow_expired=False,
    allow_timestamp_in_future=False, time_tolerance=300, now=1000,
)

DEFAULT_SIG = dict(
    alg="RsaSha256", data=b"SIG", body_hash=b"BH", hc="Relaxed", bc="Simple", domain="example.com",
    signed=["From"], ident=None, length=None, selector="sel", t=None, x=None,
)

DEFAULT_REC = dict(hashes=["Sha256"], key="Rsa", data=b"KEY", flags=[])

HASH_OF = {"RsaSha256": "Sha256", "Ed25519Sha256": "Sha256", "RsaSha1": "Sha1"}
KEY_OF = {"RsaSha256": "Rsa", "Ed25519Sha256": "Ed25519", "RsaSha1": "Rsa"}


class PCase:
    """One abstract case.

    headers: [(name, value)]; a value "s…" refers to `sigs`
    sigs: {value: dict | error name}
    answers: {query name: [record text | ("io", kind)] | ("io", kind)}; records: {text: dict | error}
    keys: {key data: ("Rsa", bits) | ("Ed25519",) | "bad"}; verifies: {(sig value, key data)}
    bodies: {(length, hash, canonicalization): digest | "short" | "cut"}
    slow: query names that are never answered
    """

    def __init__(self, headers, sigs, answers=None, records=None, keys=None, verifies=None, bodies=None, cfg=None, slow=(), floor=1024, clock=None):
        self.headers = headers
        self.sigs = {k: (v if isinstance(v, str) else {**DEFAULT_SIG, **v}) for k, v in sigs.items()}
        self.answers = answers if answers is not None else {}
        self.records = {k: (v if isinstance(v, str) else {**DEFAULT_REC, **v}) for k, v in (records or {"rec": {}}).items()}
        self.keys = keys if keys is not None else {b"KEY": ("Rsa", 2048)}
        self.verifies = verifies
        self.bodies = bodies or {}
        self.cfg = {**DEFAULT_CFG, **(cfg or {})}
        self.slow = set(slow)
        self.floor = floor
        self.clock = clock

    def answer(self, q):
        return self.answers.get(q, ["rec"])

    def digest(self, key):
        return self.bodies.get(key, b"BH")

    def sig_ok(self, value, keydata):
        return self.verifies is None or (value, keydata) in self.verifies

    # -- abstract values ----------------------------------------------------------

    def sigval(self, value):
        s = self.sigs[value]
        ca = "signature::CanonicalizationAlgorithm"
        dn = lambda d: enum("signature::DomainName", "DomainName", d)
        ident = NONE
        if s["ident"] is not None:
            lp, d = s["ident"]
            ident = Some(struct("signature::Identity", local_part=opt(lp), domain=dn(d)))
        return struct(
            SIG,
            algorithm=enum("signature::SignatureAlgorithm", s["alg"]),
            signature_data=s["data"], body_hash=s["body_hash"],
            canonicalization=struct("signature::Canonicalization", header=enum(ca, s["hc"]), body=enum(ca, s["bc"])),
            domain=dn(s["domain"]), signed_headers=names(s["signed"]), identity=ident,
            body_length=opt(s["length"]), selector=enum("signature::Selector", "Selector", s["selector"]),
            timestamp=opt(s["t"]), expiration=opt(s["x"]), tag=value,
        )

    def recval(self, text):
        r = self.records[text]
        return struct(
            REC,
            hash_algorithms=[enum("crypto::HashAlgorithm", h) for h in r["hashes"]],
            key_type=enum("crypto::KeyType", r["key"]), key_data=r["data"],
            flags=[enum("record::SelectorFlag", f) for f in r["flags"]], tag=text,
        )

    def headers_val(self):
        return enum("header::HeaderFields", "HeaderFields",
                    [(name(n), body(v if isinstance(v, bytes) else v.encode())) for n, v in self.headers])

    def config_val(self):
        c = self.cfg
        return struct(
            "verifier::Config", lookup_timeout=("secs", c["lookup_timeout"]), max_signatures=c["max_signatures"],
            headers_required_in_signature=names(c["required"]), headers_forbidden_to_be_unsigned=names(c["forbidden"]),
            min_key_bits=c["min_key_bits"], allow_sha1=c["allow_sha1"],
            forbid_unsigned_content=c["forbid_unsigned_content"], allow_expired=c["allow_expired"],
            allow_timestamp_in_future=c["allow_timestamp_in_future"],
            time_tolerance=("secs", c["time_tolerance"]), fixed_system_time=opt(c["now"]),
        )

    # -- specification ---------------------------------------------------------------

    def candidates(self):
        out = [(i, v) for i, (n, v) in enumerate(self.headers) if n.lower() == "dkim-signature"]
        return out[:self.cfg["max_signatures"]]

    def policies(self, s):
        """The policies a signature violates, in order of evaluation."""
        c = self.cfg
        out = []
        now = c["now"] if c["now"] is not None else self.clock
        low = [h.lower() for h in s["signed"]]
        if any(r.lower() not in low for r in c["required"]):
            out.append("Policy(RequiredHeaderNotSigned)")
        for r in c["forbidden"]:
            have = sum(1 for n, _ in self.headers if n.lower() == r.lower())
            if low.count(r.lower()) < have:
                out.append("Policy(UnsignedHeaderOccurrence)")
                break
        if s["x"] is not None and not c["allow_expired"] and now >= min(s["x"] + c["time_tolerance"], table.U64):
            out.append("Policy(SignatureExpired)")
        if s["t"] is not None and not c["allow_timestamp_in_future"] and max(0, s["t"] - c["time_tolerance"]) > now:
            out.append("Policy(TimestampInFuture)")
        if s["alg"] == "RsaSha1" and not c["allow_sha1"]:
            out.append("Policy(Sha1HashAlgorithm)")
        return out

    def policy(self, s):
        return (self.policies(s) or [None])[0]

    def query(self, s):
        return "%s._domainkey.%s." % (to_ascii(s["selector"]), to_ascii(s["domain"]))

    def with_record(self, value, text):
        """Status and recorded key record of trying one key record."""
        s = self.sigs[value]
        if isinstance(text, tuple):
            return "KeyRecordFormat(RecordFormat)", None
        if isinstance(text, bytes):
            return "KeyRecordFormat(RecordFormat)", None
        r = self.records[text]
        if isinstance(r, str):
            return "KeyRecordFormat(%s)" % r, None
        if r["key"] != KEY_OF[s["alg"]]:
            return "WrongKeyType", text
        if not r["data"]:
            return "KeyRevoked", text
        if HASH_OF[s["alg"]] not in r["hashes"]:
            return "DisallowedHashAlgorithm", text
        if "NoSubdomains" in r["flags"] and s["ident"] is not None and to_ascii(s["ident"][1]) != to_ascii(s["domain"]):
            return "DomainMismatch", text
        k = self.keys[r["data"]]
        if k == "bad" or k[0] != r["key"]:
            return "VerificationFailure(InvalidKey)", text
        if k[0] == "Rsa":
            if k[1] < self.floor:
                return "VerificationFailure(InsufficientKeySize)", text
            if k[1] < self.cfg["min_key_bits"]:
                return "Policy(KeyTooSmall)", text
        if not self.sig_ok(value, r["data"]):
            return "VerificationFailure(VerificationFailure)", text
        return None, text

    def expected(self):
        """[(index, status, signature present, key record)] or None."""
        c = self.candidates()
        if not c:
            return None
        out = []
        for i, value in c:
            if isinstance(value, bytes):
                out.append((i, "Failure(DkimSignatureFormat(Utf8Encoding))", None, None))
                continue
            s = self.sigs[value]
            if isinstance(s, str):
                out.append((i, "Failure(DkimSignatureFormat(%s))" % s, None, None))
                continue
            e = self.policy(s)
            if e is not None:
                out.append((i, "Failure(%s)" % e, value, None))
                continue
            a = self.answer(self.query(s))
            if self.query(s) in self.slow:
                out.append((i, "Failure(Timeout)", value, None))
                continue
            if isinstance(a, tuple):
                e = {"NotFound": "NoKeyFound", "InvalidInput": "InvalidKeyDomain", "TimedOut": "Timeout"}.get(a[1], "KeyLookup")
                out.append((i, "Failure(%s)" % e, value, None))
                continue
            if not a:
                out.append((i, "Failure(NoKeyFound)", value, None))
                continue
            sel = a if len(a) <= 3 else a[:2] + a[-1:]
            for t in sel:
                e, kr = self.with_record(value, t)
                if e is None:
                    break
            if e is not None:
                out.append((i, "Failure(%s)" % e, value, kr))
                continue
            b = self.digest((s["length"], HASH_OF[s["alg"]], s["bc"]))
            if b == "short":
                st = "Failure(InsufficientContent)"
            elif b == "cut":
                st = "Failure(Policy(UnsignedContent))"
            else:
                st = "Success" if b == s["body_hash"] else "Failure(BodyHashMismatch)"
            out.append((i, st, value, kr))
        return out


def to_ascii(d):
    """Abstract A-label form: lowercase, and `ü` has one."""
    return d.lower().replace("ü", "xn--u")


def slow_match(q, fut):
    """Whether an abstract future is the lookup of a name."""
    xs = []

    def go(x):
        if isinstance(x, str):
            xs.append(x)
        elif isinstance(x, Opaque):
            for y in x.args:
                go(y)
        elif isinstance(x, V):
            for y in x.vals:
                go(y)
    go(fut)
    return q in xs or any("%s._domainkey.%s." % (a, b) == q for a in xs for b in xs)


def fieldname_eq(a, b):
    return a.vals[0].lower() == b.vals[0].lower()


def domain_eq(a, b):
    return a.vals[0].lower() == b.vals[0].lower()


EQS = {FN: fieldname_eq}


class Undecided(Exception):
    pass


class Pipeline:
    def __init__(self, prog, extra_opaque=()):
        self.p = prog
        op = OPAQUE + tuple(extra_opaque)
        self.e1 = Engine(prog, opaque=lambda n, i: any(o in n for o in op))
        self.o1 = self.e1.run_entry(prog.find(ENTRY)["key"], names=["resolver", "headers", "config"])
        self.e2 = Engine(prog, opaque=lambda n, i: any(o in n for o in op))
        self.o2 = self.e2.run_entry(prog.find(FINISH)["key"], names=["self"])

    def literals(self):
        """(numbers, strings) the code compares something with, for further cells."""
        ints, strs = set(), set()
        seen = set()

        def term(x):
            for y in walk(x):
                if y[0] == "int" and isinstance(y[1], int):
                    ints.add(y[1])
                elif y[0] == "str" and isinstance(y[1], str):
                    strs.add(y[1])

        def facts(fs):
            for k, v in fs.items():
                if (id(k), id(v)) in seen:
                    continue
                seen.add((id(k), id(v)))
                if k[0] == "rng":
                    for lo, hi in v:
                        ints.update((lo, hi))
                elif k[0] not in ("is", "next", "reach", "done", "flag", "all", "limit"):
                    term(k)
                    if isinstance(v, tuple):
                        term(v)
        for e, outs in ((self.e1, self.o1), (self.e2, self.o2)):
            for o in outs:
                facts(o.state.facts)
            for r in e.recs:
                for d, _, _ in r.conts:
                    facts(d)
        return (sorted(n for n in ints if 0 <= n <= table.U64), sorted(x for x in strs if 0 < len(x) < 40))

    def stats(self):
        fns = self.e1.followed | self.e2.followed
        return dict(functions_followed=len(fns), outcomes=len(self.o1) + len(self.o2),
                    loops=len(self.e1.recs) + len(self.e2.recs),
                    unmodelled=sorted(map(str, self.e1.notes | self.e2.notes)))

    # -- evaluation ---------------------------------------------------------------

    def oracle(self, c, queried):
        hdr = c.headers_val()
        hashes = {}
        good = set()
        for v, s in c.sigs.items():
            if isinstance(s, str):
                continue
            for i, (n, hv) in enumerate(c.headers):
                if hv != v:
                    continue
                h = self.data_hash(c, s, hdr, n, v)
                for kd, k in c.keys.items():
                    if k != "bad" and c.sig_ok(v, kd):
                        good.add((kd, HASH_OF[s["alg"]] if k[0] == "Rsa" else None, h, s["data"]))

        def f(n, a):
            if n.startswith("<signature::DkimSignature as"):
                s = c.sigs.get(a[0])
                if s is None:
                    raise Unknown("signature text")
                if isinstance(s, str):
                    return Err(struct("signature::DkimSignatureError", kind=enum("signature::DkimSignatureErrorKind", s)))
                return Ok(c.sigval(a[0]))
            if n == "from_utf8":
                if not isinstance(a[0], bytes):
                    raise Unknown("utf8")
                try:
                    return Ok(a[0].decode())
                except UnicodeDecodeError:
                    return Err(Opaque("Utf8Error"))
            if n == "domain_to_ascii":
                return Ok(to_ascii(a[0]))
            if n.endswith("::lookup_txt"):
                queried.append(a[1])
                return Opaque("query", a[1])
            if n == "await":
                q = a[0].args[0]
                if q in c.slow:
                    self.hang = q
                    raise Panics()
                ans = c.answer(q)
                if isinstance(ans, tuple):
                    return Err(IoErr("io", ans[1]))
                return Ok([Err(IoErr("io", t[1])) if isinstance(t, tuple) else Ok(t if isinstance(t, bytes) else t.encode())
                           for t in ans])
            if n == "expired":
                self.durations.add(a[0])
                return any(slow_match(q, a[1]) for q in c.slow)
            if n == "kind":
                if isinstance(a[0], IoErr):
                    return enum("std::io::ErrorKind", a[0].args[0])
                if isinstance(a[0], V) and a[0].path == "std::io::ErrorKind":
                    return a[0]
                if isinstance(a[0], V) and a[0].variant == "Elapsed":
                    return enum("std::io::ErrorKind", "TimedOut")   # tokio: From<Elapsed> for io::Error
                raise Unknown("kind of %r" % (a[0],))
            if n.startswith("<record::DkimKeyRecord as"):
                r = c.records.get(a[0])
                if r is None:
                    raise Unknown("record text")
                return Err(enum("record::DkimKeyRecordError", r)) if isinstance(r, str) else Ok(c.recval(a[0]))
            if n.endswith("from_key_data"):
                k = c.keys.get(bytes(a[1]))
                if k is None:
                    raise Unknown("key data")
                if k == "bad" or k[0] != a[0].variant:
                    return Err(Opaque("KeyError"))
                return Ok(enum("crypto::VerifyingKey", k[0], Opaque("key", bytes(a[1]))))
            if n.endswith("::size") and isinstance(a[0], Opaque) and a[0].name == "key":
                return (c.keys[a[0].args[0]][1] + 7) // 8
            if n.endswith("::n") and isinstance(a[0], Opaque) and a[0].name == "key":
                return Opaque("modulus", a[0].args[0])
            if n.endswith("::bits") and isinstance(a[0], Opaque) and a[0].name == "modulus":
                return c.keys[a[0].args[0]][1]
            if n.endswith("compute_data_hash") and len(a) == 6 and isinstance(a[5], str):
                # the b= value is removed in place rather than by that helper
                v = [v for _, v in c.headers if isinstance(v, str) and specs.without_b(v) == a[5]]
                a = list(a[:5]) + [Opaque("make_original_dkim_sig", v[0] if v else "?")]
            if n.endswith("compute_data_hash") or n.endswith("make_original_dkim_sig"):
                return Opaque(n.split("::")[-1], *map(table.freeze, a))
            if n.endswith("verify_rsa"):
                return Ok(()) if (a[0].args[0], a[1].variant, a[2], a[3]) in good else Err(enum("crypto::VerificationError", "VerificationFailure"))
            if n.endswith("verify_ed25519"):
                return Ok(()) if (a[0].args[0], None, a[1], a[2]) in good else Err(enum("crypto::VerificationError", "VerificationFailure"))
            if n == "eq":
                return False
            raise Free(n)
        return f

    def data_hash(self, c, s, hdr, n, v):
        ca = "signature::CanonicalizationAlgorithm"
        return Opaque("compute_data_hash", enum("crypto::HashAlgorithm", HASH_OF[s["alg"]]), enum(ca, s["hc"]), hdr,
                      tuple(names(s["signed"])), n, Opaque("make_original_dkim_sig", v))

    def runs(self, c):
        """[(results or None or "panic…", queries, lookup time limits)]: one item for each way
        in which the table can go on in the case (one way, unless it depends on something the
        case leaves open); raises Undecided."""
        self.hang = None
        self.durations = set()
        base = {"headers": c.headers_val(), "config": c.config_val(), "resolver": Opaque("resolver")}
        if c.clock is not None:
            base["now"] = c.clock
        ev = Case(self.e1, base, self.oracle(c, []), EQS)
        out = []
        try:
            for o, env in self.ways(ev, self.o1):
                queried = []
                for item, e in ev.trace(o.state.log, env):
                    if item[0] == "call" and item[1].endswith("lookup_txt"):
                        queried.append(ev.val(item[2][1], e))
                if o.kind != "ret":
                    out.append((self.panic(o), queried, self.durations))
                    continue
                v = ev.val(o.value, env)
                if v.variant == "None":
                    out.append((None, queried, self.durations))
                    continue
                for r in self.second(c, v.vals[0]):
                    out.append((r, queried, self.durations))
        except Unknown as u:
            raise Undecided("value or events: %s" % u)
        return out

    def second(self, c, ver):
        def oracle2(n, a):
            if n.endswith("BodyHasher::finish"):
                return Opaque("results", a[0])
            if n == "HashMap::get" and isinstance(a[0], Opaque):
                return self.body_result(c, a[0].args[0], a[1])
            if n == "eq":
                return False
            raise Free(n)

        ev2 = Case(self.e2, {"self": ver}, oracle2, EQS)
        ev2.field_of_opaque = lambda b, variant, idx, name: b if b.name == "results" else (_ for _ in ()).throw(Free(name))
        for o2, env2 in self.ways(ev2, self.o2):
            if o2.kind != "ret":
                yield self.panic(o2)
                continue
            yield [(r.get("index"), shape(r.get("status")), self.tag(r.get("signature")), self.tag(r.get("key_record")))
                   for r in ev2.val(o2.value, env2)]

    def panic(self, o):
        last = [e for e, _ in o.state.events() if e[0] == "call"]
        return "panic in %s" % (last[-1][1] if last else "?",)

    def tag(self, v):
        if v.variant == "None":
            return None
        x = v.vals[0]
        while isinstance(x, V) and "tag" not in x.names and len(x.vals) == 1:
            x = x.vals[0]
        return x.get("tag")

    def body_result(self, c, hasher, key):
        """What the body hasher gives for a key: what was registered, only."""
        reg = hasher.get("hashers")
        ks = reg if isinstance(reg, (dict, frozenset)) else [k for k, _ in reg]
        if table.freeze(key) not in [table.freeze(k) for k in ks]:
            return NONE
        length, alg, canon = key
        b = c.digest((length.vals[0] if length.vals else None, alg.variant, canon.variant))
        if isinstance(b, bytes):
            return Some(Ok((b, 7)))
        return Some(Err(enum("message_hash::BodyHashError", {"short": "InsufficientInput", "cut": "InputTruncated"}[b])))

    def ways(self, ev, outs):
        res = ev.outcomes(outs)
        if not res:
            raise Undecided("no outcome: %s" % sorted(ev.unknown)[:5])
        if len({id(o) for o, _, _ in res}) == 1 and any(c for _, _, c in res):
            # several solutions of the same outcome
            return [next((o, env) for o, env, c in res if c)]
        if len(res) > 12:
            raise Undecided("%d outcomes: %s" % (len(res), sorted(ev.unknown)[:5]))
        return [(o, env) for o, env, _ in res]
