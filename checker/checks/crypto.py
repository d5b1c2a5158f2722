# properties: C25 C15
"""Use of the cryptographic primitives, and what the build makes available."""

import re

import refs
from fn import Fn, TypedEngine, Undecided, argnames, base_name, targ
from main import Missing
from table import Err, Free, NONE, Ok, Opaque, Some, Unknown, V, enum, struct

CONFIGS = ("default", "pre-rfc8301")
HA = "crypto::HashAlgorithm"
HASHES = {"default": ["Sha256"], "pre-rfc8301": ["Sha256", "Sha1"]}


class Prim:
    """Ideal primitives: `good` are the argument tuples for which they succeed."""

    def __init__(self, good=()):
        self.good = set(good)
        self.asked = []

    def __call__(self, n, a):
        b = base_name(n)
        if b == "new" and "Pkcs1v15Sign" in n:
            return Opaque("pkcs1v15", targ(n))
        if b in ("new_unprefixed",) or (b.startswith("new") and ("Pss" in n or "Oaep" in n)):
            return Opaque("scheme", n)
        if b in ("verify", "verify_strict", "sign", "try_sign", "sign_with_rng", "verify_prehashed", "sign_prehashed"):
            a = a[1:] if b == "sign_with_rng" else a
            args = tuple(x for x in a)
            kind = "verify" if b.startswith("verify") else "sign"
            if b.endswith("prehashed"):
                kind += "_prehashed"
            self.asked.append((kind,) + args)
            if kind == "sign" and len(args) == 2:
                return Opaque("signed", *args) if b == "sign" else Ok(Opaque("signed", *args))
            if (kind,) + args in self.good:
                return Ok(()) if kind == "verify" else Ok(Opaque("signed", *args))
            return Err(Opaque("PrimitiveError"))
        if b in ("from_slice", "try_from", "from_bytes", "from_public_key_der", "from_pkcs1_der", "from_pem", "validate_pem_label", "from_pkcs8_pem", "from_pkcs8_der"):
            owner = targ(n) or re.sub(r".*?(\w+)( as .*)?>?::%s.*" % b, r"\1", n)
            if b == "try_from":
                m = re.search(r"<([\w:]+)(<[^<>]*>)? as |for ([\w:]+)>", n)
                owner = (m.group(1) or m.group(3)).split("::")[-1] if m else owner
            if b == "validate_pem_label":
                b = "label"
            k = (b, owner) + tuple(a)
            self.asked.append(k)
            if ("read", b, owner) in self.good:
                return Ok((Opaque("label"), Opaque("document"))) if b == "from_pem" else Ok(Opaque(b, owner, *a))
            return Err(Opaque("ReadError", b, owner))
        if b in ("to_bytes", "to_vec", "into", "as_bytes", "clone", "deref", "into_boxed_slice", "as_slice", "to_owned"):
            return a[0]
        if b == "size":
            return Opaque("size", a[0])
        if b == "digest":
            return Opaque("digest", targ(n), *a)
        if b == "default" and targ(n):
            return Opaque("hasher", targ(n))
        raise Free(n)


class Exact(Prim):
    """Ideal reading: {(operation, type): bytes} succeed for exactly those bytes."""

    def __init__(self, reads, good=()):
        super().__init__(good)
        self.reads = reads

    def __call__(self, n, a):
        b = base_name(n)
        if b in ("try_from", "try_into") and ("[u8; " in n or "array" in n or "; N]" in n) and a and isinstance(a[0], (bytes, list)):
            m = re.search(r"; (\d+)", n)
            size = int(m.group(1)) if m else 32
            return Ok(bytes(a[0])) if len(a[0]) == size else Err(Opaque("TryFromSliceError"))
        r = super().__call__(n, a)
        if isinstance(r, V) and r.vals and isinstance(r.vals[0], Opaque) and r.vals[0].name == "ReadError":
            op, owner = r.vals[0].args
            if isinstance(a[0], (bytes, list)) and bytes(a[0]) in self.reads.get((op, owner), ()):
                return Ok(Opaque(op, owner, bytes(a[0])))
        return r


RAW, SPKI, DER1 = bytes(range(100, 132)), b"0*SPKI" + bytes(range(38)), b"0\x82PKCS1" + bytes(range(60))


def near(b):
    """Data like b, but not b."""
    return [b"", b[:-1], b[1:], b + b"\0", b + b[-1:], b"\0" + b, b + b, b"\x04" + b, b + b"\r\n", b[:-1] + bytes([b[-1] ^ 1]), bytes([b[0] ^ 1]) + b[1:], b[::-1], b[:len(b) // 2], b + bytes(32)]


def exact(ctx, config, key, msg):
    """Keys and signatures are read from all of the data, and nothing but the data."""
    p = ctx.program(config)
    reads = {"Rsa": {("from_public_key_der", "RsaPublicKey"): [SPKI], ("from_pkcs1_der", "RsaPublicKey"): [DER1]},
             "Ed25519": {("try_from", "VerifyingKey"): [RAW], ("from_bytes", "VerifyingKey"): [RAW], ("from_public_key_der", "VerifyingKey"): [SPKI]}}
    fd = fn(ctx, config, "crypto::VerifyingKey::from_key_data", None)
    for kt, fname in (("Rsa", "crypto::rsa::read_rsa_public_key"), ("Ed25519", "crypto::ed25519::read_ed25519_verifying_key")):
        f = fn(ctx, config, fname, None)
        real = sorted({b for v in reads[kt].values() for b in v})
        for data in real + [x for b in real for x in near(b)] + [RAW, DER1]:
            want = data in real
            for g, base, label in ((f, dict(zip(argnames(p, f), [data])), fname), (fd, dict(zip(argnames(p, fd), [enum("crypto::KeyType", kt), data])), "from_key_data " + kt)):
                ask_(ctx, "%s/%s/data %r" % (config, label, data), g, base, Exact(reads[kt]),
                     (lambda v: is_ok(v) and reads_of(v) == data) if want else is_err,
                     "%s of %s" % (label, "exactly the data of a key must be that key" if want else "data that is not that of a key must be an error"))
    f = fn(ctx, config, "crypto::ed25519::verify_ed25519", None)
    sig = bytes(range(64))
    ops = [(b, "Signature") for b in ("from_slice", "try_from", "from_bytes")]
    for data in [sig] + near(sig):
        prim = Exact({o: [sig] for o in ops}, [("verify", key, msg, Opaque(b, o, sig)) for b, o in ops])
        ask_(ctx, "%s/verify_ed25519/data %r" % (config, data), f, dict(zip(argnames(p, f), [key, msg, data])), prim,
             is_ok if data == sig else is_err, "verify_ed25519 with signature data %r" % data)


def reads_of(v):
    while isinstance(v, V) and v.vals:
        v = v.vals[0]
    return v.args[-1] if isinstance(v, Opaque) and v.args else None


def ask_(ctx, key, f, base, prim, want, what):
    ctx.count("cells compared")
    try:
        got = f.value(base, prim)
    except (Undecided, Unknown) as u:
        return ctx.undecided(key, u)
    if not want(got):
        ctx.violation(key, "%s; the result here is %r" % (what, got), f.where, dict(asked=prim.asked))


def fn(ctx, config, pretty, names):
    p = ctx.program(config)
    it = p.find(pretty)
    if it is None:
        last = pretty.split("::")[-1]
        c = [i for i in p.items if i["name"] == last and i["pretty"].startswith("crypto::") and i["key"] in p.fns]
        if len(c) != 1:
            raise Missing("public function " + pretty)
        it = c[0]
    ctx.count("functions analysed")
    return Fn(p, it, names=names, cls=TypedEngine)


def ask(ctx, key, f, base, good, want, what):
    """`want`: predicate on the returned value (or its description)."""
    ctx.count("cells compared")
    prim = Prim(good)
    try:
        got = f.value(base, prim)
    except (Undecided, Unknown) as u:
        ctx.undecided(key, u)
        return None
    if not want(got):
        ctx.violation(key, "%s; the result here is %r" % (what, got), f.where, dict(asked=prim.asked))
    return got


def is_ok(v):
    return isinstance(v, V) and v.variant == "Ok"


def is_err(v):
    return isinstance(v, V) and v.variant == "Err"


def has(v, x):
    """Whether x occurs in the value."""
    if v == x:
        return True
    if isinstance(v, V):
        return any(has(y, x) for y in v.vals)
    if isinstance(v, (tuple, list)):
        return any(has(y, x) for y in v)
    if isinstance(v, Opaque):
        return any(has(y, x) for y in v.args)
    return False


def c25(ctx):
    ctx.rule("each public function of the crypto module is compared with ideal primitives that succeed for exactly one choice of scheme, hash, key, message and encoding")
    for config in CONFIGS:
        p = ctx.program(config)
        key, msg, sig = Opaque("key"), Opaque("msg"), Opaque("sig")
        # RSA
        for fname, names, verb in (("crypto::rsa::verify_rsa", ["public_key", "hash_alg", "msg", "signature_data"], "verify"),
                                   ("crypto::rsa::sign_rsa", ["hash_alg", "private_key", "msg"], "sign")):
            f = fn(ctx, config, fname, names)
            arg = [n for _, n in sorted((pl[0], n) for n, pl in p.fns[f.item["key"]]["names"] if len(pl) == 1 and pl[0] <= p.fns[f.item["key"]]["argc"])]
            for h in HASHES[config]:
                # parameters by position: (key, hash, message, signature) or (hash, key, message)
                vals = [key, enum(HA, h), msg, sig] if verb == "verify" else [enum(HA, h), key, msg]
                base = dict(zip(arg, vals))
                ideal = (verb, key, Opaque("pkcs1v15", h), msg) + ((sig,) if verb == "verify" else ())
                k = "%s/%s/%s" % (config, fname, h)
                if verb == "verify":
                    ask(ctx, k + "/good", f, base, [ideal], is_ok, "%s with %s must succeed when the PKCS#1 v1.5 check with that hash does" % (fname, h))
                else:
                    ask(ctx, k + "/good", f, base, [ideal], lambda v: is_ok(v) and v.vals[0] == Opaque("signed", *ideal[1:]),
                        "%s with %s must return the PKCS#1 v1.5 signature with that hash" % (fname, h))
                ask(ctx, k + "/bad", f, base, [], is_err, "%s with %s must fail when the primitive does" % (fname, h))
                for other in set(HASHES["pre-rfc8301"]) - {h}:
                    bad = (verb, key, Opaque("pkcs1v15", other)) + ideal[3:]
                    ask(ctx, k + "/other hash", f, base, [bad], is_err, "%s with %s must not use another hash" % (fname, h))
        # Ed25519
        f = fn(ctx, config, "crypto::ed25519::verify_ed25519", None)
        arg = argnames(p, f)
        base = dict(zip(arg, [key, msg, sig]))
        s = Opaque("from_slice", "Signature", sig)
        reads = [("read", b, "Signature") for b in ("from_slice", "try_from", "from_bytes")]
        sigs = [Opaque(b, "Signature", sig) for b in ("from_slice", "try_from", "from_bytes")]
        good = [("verify", key, msg, x) for x in sigs]
        k = "%s/verify_ed25519" % config
        ask(ctx, k + "/good", f, base, reads + good, is_ok, "verify_ed25519 must succeed when the check of that signature does")
        ask(ctx, k + "/bad", f, base, reads, is_err, "verify_ed25519 must fail when the check does")
        ask(ctx, k + "/malformed", f, base, good, is_err, "verify_ed25519 must fail for a malformed signature")
        f = fn(ctx, config, "crypto::ed25519::sign_ed25519", None)
        base = dict(zip(argnames(p, f), [key, msg]))
        ask(ctx, "%s/sign_ed25519" % config, f, base, [], lambda v: v == Opaque("signed", key, msg) or has(v, Opaque("signed", key, msg)),
            "sign_ed25519 must return the signature of the message")
        # reading of keys
        kd = Opaque("data")
        enc = {"Rsa": [("from_public_key_der", "RsaPublicKey"), ("from_pkcs1_der", "RsaPublicKey")],
               "Ed25519": [("try_from", "VerifyingKey"), ("from_public_key_der", "VerifyingKey")]}
        fd = fn(ctx, config, "crypto::VerifyingKey::from_key_data", None)
        da = argnames(p, fd)
        for kt, fname in (("Rsa", "crypto::rsa::read_rsa_public_key"), ("Ed25519", "crypto::ed25519::read_ed25519_verifying_key")):
            f = fn(ctx, config, fname, None)
            for first in (True, False):
                for second in (True, False):
                    good = [("read",) + e for e, b in zip(enc[kt], (first, second)) if b]
                    if first and kt == "Ed25519":
                        good.append(("read", "from_bytes", "VerifyingKey"))
                    which = enc[kt][0] if first else enc[kt][1]
                    for g, base, label in ((f, dict(zip(argnames(p, f), [kd])), fname), (fd, dict(zip(da, [enum("crypto::KeyType", kt), kd])), "from_key_data " + kt)):
                        key_ = "%s/%s/%s %s" % (config, label, first, second)
                        if first or second:
                            wants = [Opaque(*which, kd)] + ([Opaque("from_bytes", "VerifyingKey", kd)] if first and kt == "Ed25519" else [])
                            variant = kt if g is fd else None

                            def right(v):
                                if not is_ok(v):
                                    return False
                                x = v.vals[0]
                                if variant is not None:
                                    if not isinstance(x, V) or x.variant != variant:
                                        return False
                                    x = x.vals[0]
                                return x in wants
                            ask(ctx, key_, g, base, good, right, "%s must read the data as %s" % (label, " of ".join(which)))
                        else:
                            ask(ctx, key_, g, base, good, is_err, "%s must reject data in neither encoding" % label)
        exact(ctx, config, key, msg)
        # digests
        f = fn(ctx, config, "crypto::hash::digest", None)
        a = argnames(p, f)
        for h in HASHES[config]:
            ask(ctx, "%s/digest/%s" % (config, h), f, dict(zip(a, [enum(HA, h), kd])), [],
                lambda v: v == Opaque("digest", h, kd), "digest with %s must be that digest of the bytes" % h)
        f = fn(ctx, config, "crypto::hash::CountingHasher::new", None)
        a = argnames(p, f)
        for h in HASHES[config]:
            for ln in (NONE, Some(7)):
                ask(ctx, "%s/CountingHasher/%s/%r" % (config, h, ln), f, dict(zip(a, [enum(HA, h), ln])), [],
                    lambda v: isinstance(v, V) and has(v, Opaque("hasher", h)) and has(v, ln), "a hasher for %s must digest with it, up to the length given" % h)
        # private keys from PEM
        f = fn(ctx, config, "crypto::SigningKey::from_pkcs8_pem", None)
        base = dict(zip(argnames(p, f), [Opaque("text")]))
        doc = ("read", "from_pem", "Document")
        lab = ("read", "label", "PrivateKeyInfo")
        info = ("read", "try_from", "PrivateKeyInfo")
        rk, ek = ("read", "try_from", "RsaPrivateKey"), ("read", "try_from", "SigningKey")
        E = "DecodeSigningKeyError"
        for good, want in (([], "InvalidPemDocument"), ([doc], "NotAPrivateKeyInfoDocument"), ([doc, lab], "InvalidKeyData"),
                           ([doc, lab, info], "UnsupportedKeyType"), ([doc, lab, info, rk], "Rsa"), ([doc, lab, info, ek], "Ed25519"),
                           ([doc, info, rk], "NotAPrivateKeyInfoDocument"), ([lab, info, rk, ek], "InvalidPemDocument")):
            ask(ctx, "%s/from_pkcs8_pem/%s" % (config, "+".join(g[1] + " " + g[2] for g in good)), f, base, good,
                lambda v: isinstance(v, V) and isinstance(v.vals[0], V) and v.vals[0].variant == want and (v.variant == "Ok") == (want in ("Rsa", "Ed25519")),
                "the PEM text must give %s" % want)
        tables(ctx, config)
    ctx.floor("cells compared", 60)


ALGS = {"RsaSha256": ("Rsa", "Sha256"), "Ed25519Sha256": ("Ed25519", "Sha256"), "RsaSha1": ("Rsa", "Sha1")}


def tables(ctx, config):
    """Key type and hash of each algorithm; type and size of each key."""
    p = ctx.program(config)
    sa = "signature::SigningAlgorithm"
    for v in p.adts[sa]["variants"]:
        want = ALGS.get(v["name"])
        if want is None:
            continue
        for meth, w in (("key_type", want[0]), ("hash_algorithm", want[1])):
            it = p.find("%s::%s" % (sa, meth)) or p.find("signature::SigningAlgorithm::%s" % meth)
            if it is None:
                raise Missing("SigningAlgorithm::" + meth)
            f = Fn(p, it, names=None, cls=TypedEngine)
            ask(ctx, "%s/%s/%s" % (config, meth, v["name"]), f, {"self": enum(sa, v["name"])}, [],
                lambda x: isinstance(x, V) and x.variant == w, "%s of %s must be %s" % (meth, v["name"], w))
    for kt in ("Rsa", "Ed25519"):
        f = fn(ctx, config, "crypto::SigningKey::key_type", None)
        ask(ctx, "%s/SigningKey::key_type/%s" % (config, kt), f, {"self": enum("crypto::SigningKey", kt, Opaque("key"))}, [],
            lambda x: isinstance(x, V) and x.variant == kt, "the key type of a %s key must be that" % kt)


def c15(ctx):
    ctx.rule("in the default configuration no body, type or variant mentions SHA-1, and in both the minimum key size is decided on all sizes around the floor")
    p = ctx.program("default")
    for key, f in p.local_fns():
        ctx.count("functions searched")
        for info, span in refs.fn_refs(p, key):
            names = [info["rpath"]] + [p.ty(t)["s"] for t in info.get("targs") or [] if isinstance(t, int)]
            bad = [n for n in names if re.search(r"\bsha1::|\bSha1(Core)?\b|\bmd5::|\bMd5\b", n)]
            if bad:
                ctx.violation("default/sha1 in %s" % f["pretty"], "%s uses %s in the default build" % (f["pretty"], bad[0]), span)
    for t in p.types:
        if re.search(r"\bsha1::Sha1Core\b", t["s"]):
            ctx.violation("default/sha1 type", "the default build uses the type %s" % t["s"][:80], "type table")
    for adt, want in (("signature::SigningAlgorithm", {"RsaSha256", "Ed25519Sha256"}), (HA, {"Sha256"})):
        have = {v["name"] for v in p.adts[adt]["variants"]}
        ctx.count("variants searched", len(have))
        for x in sorted(have - want):
            if "Sha1" in x or "Md5" in x:
                ctx.violation("default/%s/%s" % (adt, x), "%s has the variant %s in the default build" % (adt, x), adt)
    for config in CONFIGS:
        p = ctx.program(config)
        floor = 1024 if config == "default" else 512
        f = fn(ctx, config, "crypto::VerifyingKey::validate_min_key_size", None)
        g = fn(ctx, config, "crypto::VerifyingKey::key_size", None)
        k = Opaque("key")
        for bits in (0, 1, 8, 504, 505, 511, 512, 513, 520, 768, 1000, 1016, 1017, 1020, 1023, 1024, 1025, 1032, 2047, 2048, 4096):
            def prim(n, a, bits=bits):
                if base_name(n) == "size":
                    return (bits + 7) // 8
                if base_name(n) == "n":
                    return Opaque("modulus")
                if base_name(n) == "bits" and isinstance(a[0], Opaque) and a[0].name == "modulus":
                    return bits
                raise Unknown(n)
            for h, want, what in ((f, bits >= floor, "validate_min_key_size"), (g, Some(bits), "key_size")):
                ctx.count("cells compared")
                key = "%s/%s/%d" % (config, what, bits)
                try:
                    v = h.value({"self": enum("crypto::VerifyingKey", "Rsa", k)}, prim)
                except (Undecided, Unknown) as u:
                    ctx.undecided(key, u)
                    continue
                got = is_ok(v) if h is f else v
                if got != want:
                    ctx.violation(key, "%s of an RSA key of %d bits gives %r" % (what, bits, v), h.where)
        # names of algorithms: rsa-sha1 exists only with the feature
        it = p.find("<signature::SigningAlgorithm as std::str::FromStr>::from_str")
        f = Fn(p, it, names=["s"])
        for s in ("rsa-sha1", "RSA-SHA1", "Rsa-Sha1", "rsa-md5", "ed25519-sha1"):
            ctx.count("cells compared")
            try:
                v = f.value({"s": s})
            except (Undecided, Unknown) as u:
                ctx.undecided("%s/name %s" % (config, s), u)
                continue
            want = config != "default" and s.lower() == "rsa-sha1"
            if is_ok(v) != want:
                ctx.violation("%s/name %s" % (config, s), "the algorithm name %s is %s" % (s, "accepted" if is_ok(v) else "rejected"), f.where)
    ctx.floor("functions searched", 300)
    ctx.floor("cells compared", 50)


def check(prop, ctx):
    {"C25": c25, "C15": c15}[prop](ctx)
