# properties: C01 C02 C04 C06 C07 C11 C12 C13 C15 C25
"""Properties of the verification pipeline, decided on its extracted decision table.

The table covers `Verifier::verify_header` followed by `Verifier::finish`, with
all functions in between; the partition of the inputs below is compared, cell
by cell, with the specification in pipe.py (PCase.expected).
"""

from itertools import product

from engine import walk
from pipe import PCase, Pipeline, Undecided, HASH_OF, KEY_OF, to_ascii
import table

D = "DKIM-Signature"
OKREC = "rec"


def hdr(*sigs, extra=()):
    return [("From", "x")] + [(n, "v") for n in extra] + [(D, s) for s in sigs]


# -- C01 -------------------------------------------------------------------------

def numbers(lits, *more):
    """Numbers the code compares with, and their neighbours."""
    out = set(more)
    for n in lits[0]:
        out |= {n - 1, n, n + 1}
    return sorted(n for n in out if 0 <= n <= table.U64)


def words(lits, *more):
    return sorted(w for w in set(lits[1]) | set(more) if w != D.lower())


def fam_c01(thorough, config, lits):
    algs = ["RsaSha256", "Ed25519Sha256"] + (["RsaSha1"] if config != "default" else [])
    digests = [b"BH", b"OTHER", "short", "cut"]
    keys = {b"KEY": ("Rsa", 2048), b"ED": ("Ed25519",), b"BAD": "bad", b"TINY": ("Rsa", 512)}
    for alg in algs:
        for rt, kd in [("Rsa", b"KEY"), ("Ed25519", b"ED"), ("Rsa", b"BAD"), ("Ed25519", b"KEY"), ("Rsa", b"ED"), ("Rsa", b"TINY")]:
            for good in (True, False):
                for dg in digests:
                    for fu in (False, True):
                        s = {"alg": alg, "length": 4 if fu else None}
                        yield ("one/%s/%s/%s/%s/%s/%s" % (alg, rt, kd.decode(), good, dg, fu),
                               PCase(hdr("s1"), {"s1": s}, records={OKREC: {"key": rt, "data": kd, "hashes": ["Sha1", "Sha256"] if config != "default" else ["Sha256"]}},
                                     keys=keys, verifies={("s1", kd)} if good else set(),
                                     bodies={(s["length"], HASH_OF[alg], "Simple"): dg},
                                     cfg=dict(forbid_unsigned_content=fu, allow_sha1=True)))
    # particular lengths, digests and times make no difference
    for n in numbers(lits, 0, 1, 7, 1000):
        for good, dg in ((True, b"OTHER"), (False, b"BH"), (True, "short")):
            for k in ("length", "x", "t"):
                if k != "length" and dg == "short":
                    continue
                s = {k: n}
                yield ("number/%s %s/%s/%s" % (k, n, good, dg),
                       PCase(hdr("s1"), {"s1": s}, verifies=None if good else set(), bodies={(s.get("length"), "Sha256", "Simple"): dg},
                             cfg=dict(allow_expired=True, allow_timestamp_in_future=True)))
    for bh, dg in ((b"", b""), (b"", b"BH"), (b"BH", b""), (b"B", b"BH"), (b"BH", b"B"), (b"BH", b"bh"), (b"BHX", b"BH"), (b"XH", b"BH"), (b"BX", b"BH"), (b"HB", b"BH")):
        yield "digest/%s/%s" % (bh, dg), PCase(hdr("s1"), {"s1": {"body_hash": bh}}, bodies={(None, "Sha256", "Simple"): dg})
    for hc, bc in product(("Simple", "Relaxed"), repeat=2):
        for good, dg in ((True, b"OTHER"), (False, b"BH"), (True, b"BH")):
            for ident in (None, ("a", "sub.example.com")):
                for fl in ([], ["Testing"]):
                    yield ("canon/%s/%s/%s/%s/%s/%s" % (hc, bc, good, dg, ident, fl),
                           PCase(hdr("s1"), {"s1": {"hc": hc, "bc": bc, "ident": ident}}, records={OKREC: {"flags": fl}}, verifies=None if good else set(),
                                 bodies={(None, "Sha256", bc): dg}))
    for w in words(lits, "sel", "example.org"):
        for good, dg in ((True, b"OTHER"), (False, b"BH")):
            yield "word/%s/%s/%s" % (w, good, dg), PCase(hdr("s1", extra=[w]), {"s1": {"domain": w, "selector": w, "signed": ["From", w]}}, verifies=None if good else set(), bodies={(None, "Sha256", "Simple"): dg})
    # two signatures: the outcome of one is not that of the other
    for share in ("all", "key", "none"):
        for g in product((0, 1), repeat=2):
            for b in product((0, 1), repeat=2):
                for diff in ("canon", "length", "hash value"):
                    s1 = {"data": b"SIG1"}
                    s2 = {"data": b"SIG2" if share != "all" else b"SIG1"}
                    if share == "none":
                        s2["selector"] = "two"
                    bodies = {}
                    if diff == "canon":
                        s2["bc"] = "Relaxed"
                        bodies = {(None, "Sha256", "Simple"): b"BH" if b[0] else b"NO", (None, "Sha256", "Relaxed"): b"BH" if b[1] else b"NO"}
                    elif diff == "length":
                        s2["length"] = 3
                        bodies = {(None, "Sha256", "Simple"): b"BH" if b[0] else "cut", (3, "Sha256", "Simple"): b"BH" if b[1] else "short"}
                    else:
                        s1["body_hash"] = b"BH" if b[0] else b"X1"
                        s2["body_hash"] = b"BH" if b[1] else b"X2"
                    ok = {(s, b"KEY") for s, x in zip(("s1", "s2"), g) if x}
                    yield ("two/%s/%s/%s/%s" % (share, g, b, diff),
                           PCase(hdr("s1", "s2"), {"s1": s1, "s2": s2}, verifies=ok, bodies=bodies))
    # several records: the key that verified, and no other, counts
    kk = {b"K1": ("Rsa", 2048), b"K2": ("Rsa", 1024), b"K3": ("Ed25519",)}
    rr = {"r1": {"data": b"K1"}, "r2": {"data": b"K2"}, "r3": {"data": b"K3", "key": "Ed25519"}, "r0": "MissingKeyDataTag", "rv": {"data": b""}}
    for n in (2, 3):
        for rs in product(("r1", "r2", "r3", "r0", "rv"), repeat=n):
            if n == 3 and not thorough and len(set(rs)) < 3:
                continue
            for g in ((), (b"K1",), (b"K2",)):
                for dg in (b"BH", b"OTHER"):
                    yield ("records/%s/%s/%s" % (",".join(rs), b",".join(g).decode(), dg.decode()),
                           PCase(hdr("s1"), {"s1": {}}, answers={"sel._domainkey.example.com.": list(rs)}, records=rr, keys=kk,
                                 verifies={("s1", k) for k in g}, bodies={(None, "Sha256", "Simple"): dg}))
    # the key of another name is not used
    for g in product((0, 1), repeat=2):
        yield ("names/%s" % (g,),
               PCase(hdr("s1", "s2"), {"s1": {"data": b"A"}, "s2": {"data": b"B", "domain": "example.org"}},
                     answers={"sel._domainkey.example.com.": ["r1"], "sel._domainkey.example.org.": ["r2"]},
                     records={"r1": {"data": b"K1"}, "r2": {"data": b"K2"}}, keys={b"K1": ("Rsa", 2048), b"K2": ("Rsa", 2048)},
                     verifies={("s1", b"K%d" % (1 + g[0])), ("s2", b"K%d" % (1 + g[1]))}))
    # failures before the cryptographic check
    for x in ("policy", "NotFound", "TimedOut", "Other", "empty", "malformed"):
        sig = {"signed": ["To"]} if x == "policy" else "MissingVersionTag" if x == "malformed" else {}
        a = {} if x in ("policy", "malformed") else {"sel._domainkey.example.com.": [] if x == "empty" else ("io", x)}
        yield "early/" + x, PCase(hdr("s1"), {"s1": sig}, answers=a)
        yield "early/two/" + x, PCase(hdr("s1", "s2"), {"s1": sig, "s2": {"domain": "example.org"}}, answers=a)


def cmp_c01(c, got, exp):
    for g, e in zip(got or [], exp or []):
        if g[1] == "Success" and e[1] != "Success":
            return "success is reported for a signature that must have %s" % e[1]
    if got and len(got) > len(exp or []) and any(g[1] == "Success" for g in got[len(exp or []):]):
        return "success is reported for no signature"
    return None


# -- C06 -------------------------------------------------------------------------

def fam_c06(thorough, config, lits):
    i = 0
    for req in ([], ["From"], ["FROM"], ["From", "Subject"], ["subject"], ["To", "From", "To"]):
        for signed in (["From"], ["from", "SUBJECT"], ["Subject", "From"], ["From", "To", "Subject"], ["From", "From"]):
            yield "required/%s/%s" % (",".join(req), ",".join(signed)), PCase(hdr("s1", extra=["Subject"]), {"s1": {"signed": signed}}, cfg=dict(required=req))
    heads = ([], ["Subject"], ["subject", "SUBJECT"], ["To"], ["To", "Subject", "To"], ["Subject", "Subject", "Subject"])
    for forb in ([], ["Subject"], ["To", "Subject"], ["SUBJECT"], ["From"]):
        for h in heads:
            for signed in (["From"], ["From", "Subject"], ["Subject", "From", "subject"], ["From", "To", "To", "Subject"], ["To", "From"]):
                yield ("forbidden/%s/%s/%s" % (",".join(forb), ",".join(h), ",".join(signed)),
                       PCase(hdr("s1", extra=h), {"s1": {"signed": signed}}, cfg=dict(forbidden=forb, required=[])))
    M = table.U64
    xs = [(1000, 0, x) for x in (None, 0, 999, 1000, 1001, M)] + [(1000, 300, x) for x in (0, 699, 700, 701, 1000, 1300, M, M - 100, M - 300)]
    xs += [(0, 0, 0), (0, 0, 1), (0, 5, 0), (M, 0, M), (M, 0, M - 1), (M, 1, M), (M, 1, M - 1), (M - 1, 1, M), (M - 1, 5, M - 1), (5, 0, 6)]
    xs += list(product((0, 1000, M), (1, 300, M - 1, M), (0, 1, 699, 1000, 1001, 1301, M - 1, M)))
    for now, tol, x in dict.fromkeys(xs):
        for allow in (False, True):
            yield ("expired/now %s/tolerance %s/x %s/%s" % (now, tol, x, allow),
                   PCase(hdr("s1"), {"s1": {"x": x}}, cfg=dict(now=now, time_tolerance=tol, allow_expired=allow)))
    ts = [(1000, 0, t) for t in (None, 0, 999, 1000, 1001, M)] + [(1000, 300, t) for t in (0, 100, 299, 300, 301, 1299, 1300, 1301, M)]
    ts += [(0, 0, 0), (0, 0, 1), (0, 5, 5), (0, 5, 6), (0, 5, 3), (M, 0, M), (M - 1, 0, M), (M - 1, 1, M), (M - 2, 1, M), (0, 299, 5)]
    ts += list(product((0, 1000, M), (1, 300, M - 1, M), (0, 1, 699, 1000, 1001, 1301, M - 1, M)))
    for now, tol, t in dict.fromkeys(ts):
        for allow in (False, True):
            yield ("future/now %s/tolerance %s/t %s/%s" % (now, tol, t, allow),
                   PCase(hdr("s1"), {"s1": {"t": t}}, cfg=dict(now=now, time_tolerance=tol, allow_timestamp_in_future=allow)))
    for t, x in product((None, 500, 1000, 1301, 2000), (None, 400, 700, 701, 1500, 3000)):
        for ax, at in product((False, True), repeat=2):
            yield ("both/t %s/x %s/%s/%s" % (t, x, ax, at),
                   PCase(hdr("s1"), {"s1": {"t": t, "x": x}}, cfg=dict(allow_expired=ax, allow_timestamp_in_future=at)))
    for n in numbers(lits):
        for k, allow in product(("x", "t"), (False, True)):
            for now, tol in ((1000, 0), (n, 0), (1000, n), (n, 300), (max(0, n - 1), 1)):
                yield ("number/%s %s/now %s/tolerance %s/%s" % (k, n, now, tol, allow),
                       PCase(hdr("s1"), {"s1": {k: n}}, cfg=dict(now=now, time_tolerance=tol, allow_expired=allow, allow_timestamp_in_future=allow)))
        yield "number/length %s" % n, PCase(hdr("s1"), {"s1": {"length": n, "x": 1}})
        yield "number/minimum %s" % n, PCase(hdr("s1"), {"s1": {}}, cfg=dict(min_key_bits=n))
    for w in words(lits, "From", "Sender", "Received"):
        for sg in (["From"], ["From", w], [w, "From", w]):
            for n in (0, 1, 2):
                yield ("word/%s/%s/%d" % (w, ",".join(sg), n),
                       PCase(hdr("s1", extra=[w] * n), {"s1": {"signed": sg}}, cfg=dict(required=[w], forbidden=[])))
                yield ("word forbidden/%s/%s/%d" % (w, ",".join(sg), n),
                       PCase(hdr("s1", extra=[w] * n), {"s1": {"signed": sg}}, cfg=dict(required=[], forbidden=["From", w])))
    # longer lists
    for k in (1, 5, 12, 30):
        big = ["H%d" % i for i in range(k)]
        for cut in (0, k // 2, k - 1, k):
            sg = ["From"] + big[:cut] + big[cut + 1:]
            yield "many required/%d/%d" % (k, cut), PCase(hdr("s1", extra=big), {"s1": {"signed": sg}}, cfg=dict(required=big))
            yield "many forbidden/%d/%d" % (k, cut), PCase(hdr("s1", extra=big), {"s1": {"signed": sg}}, cfg=dict(required=[], forbidden=big))
    # the key is judged by its own size
    for mn in (0, 512, 1024, 1025, 2047, 2048, 2049, 4096):
        for bits in (511, 512, 513, 768, 1017, 1023, 1024, 1025, 1032, 2041, 2047, 2048, 2049, 4096):
            yield ("bits/minimum %s/key %s" % (mn, bits),
                   PCase(hdr("s1"), {"s1": {}}, keys={b"KEY": ("Rsa", bits)}, cfg=dict(min_key_bits=mn), floor=1024 if config == "default" else 512))
        yield ("bits/minimum %s/ed25519" % mn,
               PCase(hdr("s1"), {"s1": {"alg": "Ed25519Sha256"}}, records={OKREC: {"key": "Ed25519"}}, keys={b"KEY": ("Ed25519",)}, cfg=dict(min_key_bits=mn)))
    algs = ["RsaSha256", "Ed25519Sha256"] + (["RsaSha1"] if config != "default" else [])
    for alg in algs:
        for allow in (False, True):
            k = "Ed25519" if alg.startswith("Ed") else "Rsa"
            yield ("sha1/%s/%s" % (alg, allow),
                   PCase(hdr("s1"), {"s1": {"alg": alg}}, records={OKREC: {"key": k, "hashes": ["Sha256"] + (["Sha1"] if config != "default" else [])}},
                         keys={b"KEY": ("Rsa", 2048) if k == "Rsa" else ("Ed25519",)}, cfg=dict(allow_sha1=allow)))
    # content beyond l=
    for dg in (b"BH", "cut"):
        for fu in (False, True):
            yield ("unsigned/%s/%s" % (dg, fu), PCase(hdr("s1"), {"s1": {"length": 2}}, bodies={(2, "Sha256", "Simple"): dg}, cfg=dict(forbid_unsigned_content=fu)))
    # each signature is judged by its own data
    for a, b in product(({}, {"x": 100}, {"t": 9000}, {"signed": ["To"]}), repeat=2):
        i += 1
        yield "pair/%d" % i, PCase(hdr("s1", "s2"), {"s1": a, "s2": b})
    # the system clock
    for x in (None, 699, 700, 701, 1000):
        yield "clock/x %s" % x, PCase(hdr("s1"), {"s1": {"x": x}}, cfg=dict(now=None), clock=1000)
    for t in (1299, 1300, 1301, 2000):
        yield "clock/t %s" % t, PCase(hdr("s1"), {"s1": {"t": t}}, cfg=dict(now=None), clock=1000)


def is_policy(st):
    return st.startswith("Failure(Policy(")


def cmp_c06(c, got, exp):
    for (i, v), g, e in zip(c.candidates(), got or [], exp or []):
        s = c.sigs.get(v)
        if isinstance(s, dict):
            viol = ["Failure(%s)" % p for p in c.policies(s)]
            if viol:
                if g[1] not in viol:
                    return "a signature that violates %s gets %s" % (" and ".join(viol), g[1])
                continue
        if is_policy(g[1]) != is_policy(e[1]) or is_policy(e[1]) and g[1] != e[1]:
            return "status is %s, the configured policies give %s" % (g[1], e[1])
    return None


# -- C07 -------------------------------------------------------------------------

IDENTS = [None, ("a", "example.com"), (None, "EXAMPLE.com"), ("a", "sub.example.com"), (None, "example.org")]


def fam_c07(thorough, config, lits):
    algs = ["RsaSha256", "Ed25519Sha256"] + (["RsaSha1"] if config != "default" else [])
    hs = [["Sha256"]] + ([["Sha1"], ["Sha1", "Sha256"]] if config != "default" else [])
    flags = [[], ["NoSubdomains"], ["Testing"], ["Testing", "NoSubdomains"]]
    keys = {b"KEY": ("Rsa", 2048), b"ED": ("Ed25519",), b"BAD": "bad", b"1016": ("Rsa", 1016), b"512": ("Rsa", 512), b"505": ("Rsa", 505), b"511": ("Rsa", 511), b"1020": ("Rsa", 1020), b"1024": ("Rsa", 1024)}
    floor = 1024 if config == "default" else 512
    for alg in algs:
        for rt in ("Rsa", "Ed25519"):
            for h in hs:
                for fl in flags:
                    for kd in (b"", b"KEY" if rt == "Rsa" else b"ED", b"BAD"):
                        for n, ident in enumerate(IDENTS):
                            if config != "default" and not thorough and n in (1, 4):
                                continue
                            yield ("%s/%s/%s/%s/%s/i%d" % (alg, rt, "+".join(h), "+".join(fl), kd.decode(), n),
                                   PCase(hdr("s1"), {"s1": {"alg": alg, "ident": ident}},
                                         records={OKREC: {"key": rt, "hashes": h, "flags": fl, "data": kd}}, keys=keys,
                                         cfg=dict(allow_sha1=True), floor=floor))
    for kd in (b"1016", b"1020", b"512", b"505", b"511", b"1024", b"KEY"):
        for mn in (0, 1024, 2048):
            for good in (True, False):
                yield ("size/%s/%s/%s" % (kd.decode(), mn, good),
                       PCase(hdr("s1"), {"s1": {}}, records={OKREC: {"data": kd}}, keys=keys, cfg=dict(min_key_bits=mn), floor=floor,
                             verifies=None if good else set()))
    for n in numbers(lits):
        if n < 100000:
            yield ("number/bits %d" % n, PCase(hdr("s1"), {"s1": {}}, records={OKREC: {"data": b"K"}}, keys={b"K": ("Rsa", n)}, cfg=dict(min_key_bits=0), floor=floor))
        for fl in ([], ["NoSubdomains"]):
            yield ("number/length %d/%s" % (n, fl), PCase(hdr("s1"), {"s1": {"length": n, "ident": ("a", "sub.example.com")}}, records={OKREC: {"flags": fl}}))
    for a, b in ((["NoSubdomains", "Testing"], []), (["Testing", "Testing", "NoSubdomains"], []), (["Testing"], ["Testing"])):
        yield ("order/%s" % "+".join(a + ["|"] + b),
               PCase(hdr("s1"), {"s1": {"ident": (None, "a.b.example.com")}}, answers={"sel._domainkey.example.com.": ["r1", "r2"]},
                     records={"r1": {"flags": a}, "r2": {"flags": b, "data": b""}}))
    # a record restricts the signatures it is used for one by one
    for fl in flags:
        yield ("two/%s" % "+".join(fl),
               PCase(hdr("s1", "s2"), {"s1": {"ident": ("a", "sub.example.com")}, "s2": {"ident": (None, "example.com")}}, records={OKREC: {"flags": fl}}))
    for dom in ("bücher.example", "xn--ucher.example"):
        for idn in ("bücher.example", "a.bücher.example", "BÜCHER.example"):
            yield ("idn/%s/%s" % (dom, idn), PCase(hdr("s1"), {"s1": {"domain": dom, "ident": (None, idn)}}, records={OKREC: {"flags": ["NoSubdomains"]}}))


def fam_c15(thorough, config, lits):
    pre = config != "default"
    floor = 512 if pre else 1024
    sizes = sorted({0, 8, 504, 505, 511, 512, 513, 520, 768, 1000, 1016, 1017, 1023, 1024, 1025, 1032, 2048, 4096} | {n for n in numbers(lits) if n < 20000})
    for n in sizes:
        for mn in (0, 512, 1024) if n in (505, 511, 512, 1017, 1023, 1024, 2048) or thorough else (0,):
            for alg in ("RsaSha256", "RsaSha1") if pre else ("RsaSha256",):
                for ok in (True, False):
                    yield ("key/%d/%d/%s/%s" % (n, mn, alg, ok),
                           PCase(hdr("s1"), {"s1": {"alg": alg}}, records={OKREC: {"data": b"K", "hashes": ["Sha256"] + (["Sha1"] if pre else [])}},
                                 keys={b"K": ("Rsa", n)}, cfg=dict(min_key_bits=mn, allow_sha1=ok), floor=floor))
    if pre:
        for ok in (True, False):
            for hs in (["Sha1"], ["Sha256"], ["Sha1", "Sha256"]):
                for alg in ("RsaSha1", "RsaSha256", "Ed25519Sha256"):
                    yield ("hash/%s/%s/%s" % (ok, "+".join(hs), alg),
                           PCase(hdr("s1"), {"s1": {"alg": alg}}, records={OKREC: {"hashes": hs, "key": KEY_OF[alg], "data": b"ED" if alg[0] == "E" else b"KEY"}},
                                 keys={b"KEY": ("Rsa", 2048), b"ED": ("Ed25519",)}, cfg=dict(allow_sha1=ok), floor=floor))


def cmp_c15(c, got, exp):
    """No success the specification forbids, and the sizes and SHA-1 policy decide as specified."""
    for g, e in zip(got or [], exp or []):
        if g[1] != e[1] and ("Success" in (g[1], e[1]) or "Sha1" in g[1] + e[1] or "KeySize" in g[1] + e[1] or "KeyTooSmall" in g[1] + e[1]):
            return "result is %s, must be %s" % (g[1], e[1])
    return None


def fam_c25(thorough, config, lits):
    """Which primitive is called, with which hash, for which key and algorithm."""
    pre = config != "default"
    keys = {b"KEY": ("Rsa", 2048), b"ED": ("Ed25519",), b"BAD": "bad"}
    for alg in ["RsaSha256", "Ed25519Sha256"] + (["RsaSha1"] if pre else []):
        for rt in ("Rsa", "Ed25519"):
            for kd in keys:
                for good in (True, False):
                    yield ("use/%s/%s/%s/%s" % (alg, rt, kd.decode(), good),
                           PCase(hdr("s1"), {"s1": {"alg": alg}}, records={OKREC: {"key": rt, "data": kd, "hashes": ["Sha256"] + (["Sha1"] if pre else [])}},
                                 keys=keys, cfg=dict(allow_sha1=True), verifies=None if good else set(), floor=512 if pre else 1024))


TEXTS = (" v=1; a=x; b=q r; bh=y", "b=;c=d;", "\r\n\ta=1;\r\n\tb=\r\n\t12;z=From:a|b=c")


def fam_c02(thorough, config, lits):
    """What the header hash is computed of: algorithm, h= list, all fields, the own field without its b= value."""
    for alg in ("RsaSha256", "Ed25519Sha256"):
        rec = {OKREC: {"key": KEY_OF[alg], "data": b"KEY" if alg == "RsaSha256" else b"ED"}}
        keys = {b"KEY": ("Rsa", 2048), b"ED": ("Ed25519",)}
        for hc in ("Simple", "Relaxed"):
            for signed in (["From"], ["from", "To", "TO"], ["To", "From", "X"], ["From"] * 3):
                for t in TEXTS:
                    for n in (D, "dkim-signature", "DKIM-SIGNATURE"):
                        s = {"alg": alg, "hc": hc, "bc": "Simple" if hc == "Relaxed" else "Relaxed", "signed": signed}
                        yield ("hash/%s/%s/%s/%r/%s" % (alg, hc, signed, t, n),
                               PCase([("From", "x"), ("To", "y"), (n, t), ("X", "z")], {t: s}, records=rec, keys=keys))
        for a, b in product(("Simple", "Relaxed"), repeat=2):
            for la, lb in ((["From"], ["From", "To"]), (["To", "From"], ["From"])):
                s1 = {"alg": alg, "hc": a, "bc": b, "signed": la}
                s2 = {"alg": alg, "hc": b, "bc": a, "signed": lb, "data": b"SIG2"}
                yield ("two/%s/%s/%s/%s" % (alg, a, b, la),
                       PCase([(D, TEXTS[0]), ("From", "x"), ("dkim-signature", TEXTS[1]), ("To", "y")], {TEXTS[0]: s1, TEXTS[1]: s2}, records=rec, keys=keys))


def fam_c04(thorough, config, lits):
    """Each half of c= is used for its own part."""
    for alg in ("RsaSha256", "Ed25519Sha256"):
        rec = {OKREC: {"key": KEY_OF[alg], "data": b"KEY" if alg == "RsaSha256" else b"ED"}}
        keys = {b"KEY": ("Rsa", 2048), b"ED": ("Ed25519",)}
        for hc, bc in product(("Simple", "Relaxed"), repeat=2):
            for ln in (None, 0, 7):
                s = {"alg": alg, "hc": hc, "bc": bc, "length": ln}
                other = "Relaxed" if bc == "Simple" else "Simple"
                for right in (True, False):
                    yield ("c/%s/%s/%s/%s/%s" % (alg, hc, bc, ln, right),
                           PCase(hdr("s1"), {"s1": s}, records=rec, keys=keys,
                                 bodies={(ln, "Sha256", bc): b"BH" if right else b"no", (ln, "Sha256", other): b"no" if right else b"BH"}))


def cmp_success(c, got, exp):
    for g, e in zip(got or [], exp or []):
        if g[1] != e[1] and "Success" in (g[1], e[1]):
            return "result is %s, must be %s: the hash is not computed of the right data" % (g[1], e[1])
    return None


def cmp_full(c, got, exp):
    if got is None or exp is None:
        return None if got == exp else "results are %s, expected %s" % (got, exp)
    for g, e in zip(got, exp):
        if g != e:
            return "signature at position %s: result %s with key record %s, expected %s with %s" % (g[0], g[1], g[3], e[1], e[3])
    return None if len(got) == len(exp) else "%d results, expected %d" % (len(got), len(exp))


def cmp_c07(c, got, exp):
    for g, e in zip(got or [], exp or []):
        if g[1] != e[1] and not (is_policy(g[1]) and is_policy(e[1])):
            return "result is %s, the record's restrictions give %s" % (g[1], e[1])
    return None


# -- C11 -------------------------------------------------------------------------

TOKENS = {
    "F": ("From", "x"), "N": ("DKIM-Signatures", "s1"), "D": (D, "s1"), "d": ("dkim-SIGNATURE", "s1"),
    "M": (D, "bad"), "P": (D, "pol"), "U": (D, b"\xff"), "E": (D, "s2"),
}


def fam_c11(thorough, config, lits):
    sigs = {"s1": {}, "bad": "MissingVersionTag", "pol": {"signed": ["To"]}, "s2": {"selector": "none"}}
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        toks = "FNDdMPUE" if n < 3 else "FDdMPU" if n == 3 else "FDMP"
        for seq in product(toks, repeat=n):
            ms = (0, 1, 2, 10) if n < 3 else (1, 2, 10) if thorough else (2, 10)
            for m in ms:
                yield ("".join(seq) + "/max %d" % m,
                       PCase([TOKENS[t] for t in seq], sigs, answers={"none._domainkey.example.com.": ("io", "NotFound")}, cfg=dict(max_signatures=m)))
    many = [TOKENS[t] for t in "FDMDPDUDdDEDFDNDDD"]
    for n in (20, 50):
        for m in numbers(lits, 1, 2, 10):
            if m > 60:
                continue
            seq = "F" + "N" * n + "DFD" + "F" * 3 + "MD"
            yield "far/%d/max %d" % (n, m), PCase([TOKENS[t] for t in seq], sigs, cfg=dict(max_signatures=m))
    for w in words(lits, "From", "ARC-Seal", "DKIM-Signature2", "XDKIM-Signature", "DKIM_Signature"):
        yield "word/" + w, PCase([("From", "x"), (w, "s1"), (D, "s1"), (w, "s2"), (D, "s2")], sigs, answers={"none._domainkey.example.com.": ("io", "NotFound")})
    for m in (3, 5, 10, 11, 12, 100):
        yield "many/max %d" % m, PCase(many, sigs, answers={"none._domainkey.example.com.": ("io", "NotFound")}, cfg=dict(max_signatures=m))


def cmp_c11(c, got, exp):
    if (got is None) != (exp is None):
        return "%s, but %s signature is to be evaluated" % ("no result" if got is None else "results", "no" if exp is None else "a")
    if got is None:
        return None
    if [g[0] for g in got] != [e[0] for e in exp]:
        return "results have the indexes %s, expected %s" % ([g[0] for g in got], [e[0] for e in exp])
    for g, e in zip(got, exp):
        if g[2] != e[2]:
            return "result at index %s carries signature %s, expected %s" % (g[0], g[2], e[2])
        if (g[1] == "Success") != (e[1] == "Success"):
            return "result at index %s is %s, expected %s" % (g[0], g[1], e[1])
        if ("DkimSignatureFormat" in g[1]) != ("DkimSignatureFormat" in e[1]):
            return "result at index %s is %s, expected %s" % (g[0], g[1], e[1])
    return None


# -- C12 -------------------------------------------------------------------------

IO = ["NotFound", "InvalidInput", "TimedOut", "Other", "ConnectionRefused", "UnexpectedEof", "InvalidData", "PermissionDenied", "Interrupted", "HostUnreachable"]


def fam_c12(thorough, config, lits):
    q = lambda s, d: "%s._domainkey.%s." % (to_ascii(s), to_ascii(d))
    names = [("sel", "example.com"), ("SEL", "Example.COM"), ("sel", "example.org"), ("b", "example.com"), ("sel", "bücher.example"), ("sel", "xn--ucher.example")]
    outcomes = [["rec"], [], ["unparsable"]] + [("io", k) for k in IO]
    recs = {"rec": {}, "unparsable": "MissingKeyDataTag"}
    for s, d in names:
        for n, a in enumerate(outcomes):
            yield "one/%s/%s/%s" % (s, d, n), PCase(hdr("s1"), {"s1": {"selector": s, "domain": d}}, answers={q(s, d): a}, records=recs)
        for t in (1, 10, 3600):
            yield "timeout/%s/%s/%d" % (s, d, t), PCase(hdr("s1"), {"s1": {"selector": s, "domain": d}}, slow=[q(s, d)], cfg=dict(lookup_timeout=t))
    short = [["rec"], [], ("io", "NotFound"), ("io", "Other"), "slow"]
    for k in (2, 3):
        for ns in product(names if k == 2 else [names[i] for i in (0, 1, 3)], repeat=k):
            distinct = sorted({q(*x) for x in ns})
            combos = list(product(short if k == 2 else short[::2], repeat=len(distinct)))
            for n, a in enumerate(combos):
                if not thorough and k == 2 and len(distinct) == 2 and (n + len(ns[0][1])) % 3:
                    continue
                ans = {d: x for d, x in zip(distinct, a) if x != "slow"}
                yield ("several/%s/%d" % (",".join("%s@%s" % x for x in ns), n),
                       PCase(hdr(*["s%d" % i for i in range(k)]),
                             {"s%d" % i: {"selector": s, "domain": d, "data": b"S%d" % i} for i, (s, d) in enumerate(ns)},
                             answers=ans, slow=[d for d, x in zip(distinct, a) if x == "slow"], cfg=dict(lookup_timeout=7)))
    for w in words(lits, "a.b", "a.c", "b.a", "_domainkey", "sel", "selx"):
        for s, d in ((w, "example.com"), ("sel", w)):
            for other in (("sel", "example.com"), ("a.b", "example.com"), (w, w)):
                yield ("word/%s/%s/%s" % (s, d, "@".join(other)),
                       PCase(hdr("s1", "s2"), {"s1": {"selector": s, "domain": d, "data": b"A"}, "s2": {"selector": other[0], "domain": other[1], "data": b"B"}},
                             answers={q(s, d): ["rec"], q(*other): ("io", "NotFound") if q(*other) != q(s, d) else ["rec"]}))
    for k in (5, 12):
        ns = [("s%d" % (i % 4), "example%d.com" % (i % 3)) for i in range(k)]
        for bad in range(0, k, 2):
            yield ("many/%d/%d" % (k, bad),
                   PCase(hdr(*["m%d" % i for i in range(k)]), {"m%d" % i: {"selector": s, "domain": d, "data": b"M%d" % i} for i, (s, d) in enumerate(ns)},
                         answers={q(*ns[bad]): ("io", "NotFound")}, cfg=dict(max_signatures=20)))
    for n in numbers(lits, 0, 60, 86400):
        yield "timeout/number/%d" % n, PCase(hdr("s1"), {"s1": {}}, slow=[q("sel", "example.com")], cfg=dict(lookup_timeout=n))
    # signatures that failed before are not looked up
    for first, second in product(("bad", "pol", "ok"), repeat=2):
        sig = {"bad": "MissingVersionTag", "pol": {"signed": ["To"]}, "ok": {}}
        yield ("failed/%s/%s" % (first, second),
               PCase(hdr("s1", "s2"), {"s1": sig[first], "s2": sig[second] if isinstance(sig[second], str) else {**sig[second], "selector": "two"}}))


def cmp_c12(c, got, exp):
    return cmp_full(c, got, exp)


# -- C13 -------------------------------------------------------------------------

def fam_c13(thorough, config, lits):
    rr = {"ok": {"data": b"K1"}, "sig": {"data": b"K2"}, "type": {"data": b"K3", "key": "Ed25519"}, "revoked": {"data": b""},
          "format": "MissingKeyDataTag", "badkey": {"data": b"BAD"}, "small": {"data": b"K5"}, "ok2": {"data": b"K1"},
          "sub": {"data": b"K1", "flags": ["NoSubdomains"]}, "ok\ufffd": {"data": b"K1"}}
    kk = {b"K1": ("Rsa", 2048), b"K2": ("Rsa", 2048), b"K3": ("Ed25519",), b"BAD": "bad", b"K5": ("Rsa", 1024)}
    full = ["ok", "sig", "type", "revoked", "format", "badkey", "small", "sub", "ok2", ("io", "Other"), b"\xff\xfe", b"ok\xff"]
    few = ["ok", "sig", "format", ("io", "Other")]
    tiny = ["ok2", "type", "format"]
    q = "sel._domainkey.example.com."

    def case(seq):
        return PCase(hdr("s1"), {"s1": {"ident": ("a", "sub.example.com")}}, answers={q: list(seq)}, records=rr, keys=kk,
                     verifies={("s1", b"K1")}, cfg=dict(min_key_bits=2048))
    for n in range(0, 6):
        pool = full if n <= 2 or n == 3 and thorough else ["ok", "ok2", "sig", "type", "format", ("io", "Other")] if n == 3 else few if n == 4 else tiny
        for seq in product(pool, repeat=n):
            yield "%s" % ",".join(x if isinstance(x, str) else "io" if isinstance(x, tuple) else "utf8" if x == b"\xff\xfe" else "utf8 after ok" for x in seq), case(seq)
    for n in (6, 7, 9):
        for pos in range(n):
            seq = ["sig"] * n
            seq[pos] = "ok"
            yield "long/%d/%d" % (n, pos), case(seq)
    # two signatures over the same records stop at their own key
    for a, b in product(("K1", "K2", "none"), repeat=2):
        yield ("two/%s/%s" % (a, b),
               PCase(hdr("s1", "s2"), {"s1": {"data": b"A"}, "s2": {"data": b"B"}}, answers={q: ["ok", "sig"]}, records=rr, keys=kk,
                     verifies={("s1", a.encode()), ("s2", b.encode())}))


FAMILIES = {
    "C01": (fam_c01, cmp_c01, ["default", "pre-rfc8301"], 500),
    "C02": (fam_c02, cmp_success, ["default"], 100),
    "C04": (fam_c04, cmp_success, ["default"], 40),
    "C06": (fam_c06, cmp_c06, ["default", "pre-rfc8301"], 700),
    "C07": (fam_c07, cmp_c07, ["default", "pre-rfc8301"], 800),
    "C11": (fam_c11, cmp_c11, ["default"], 700),
    "C12": (fam_c12, cmp_c12, ["default"], 400),
    "C13": (fam_c13, cmp_full, ["default"], 700),
    "C15": (fam_c15, cmp_c15, ["default", "pre-rfc8301"], 80),
    "C25": (fam_c25, cmp_full, ["default", "pre-rfc8301"], 24),
}

RULES = {
    "C01": "decision table of verify_header+finish: a result is Success only in cells where the signature's own key check and body hash comparison both hold",
    "C02": "decision table of verify_header+finish: the header hash verified is that of the signature's hash algorithm, header canonicalization, h= list, of all fields of the message and of the own field as written, without its b= value",
    "C04": "decision table of verify_header+finish: the first half of c= canonicalizes the header, the second the body",
    "C06": "decision table of verify_header+finish: a policy error is the result exactly in the cells where that configured policy is violated",
    "C07": "decision table of verify_header+finish: the first violated restriction of the key record decides the result",
    "C11": "decision table of verify_header+finish: one result per DKIM-Signature field up to the limit, with its own index and signature",
    "C12": "decision table of verify_header+finish: set of names looked up, timeout on each, mapping of each lookup outcome",
    "C15": "decision table of verify_header+finish: no success with an RSA key below the floor of the build, nor with SHA-1 unless built in and allowed",
    "C25": "decision table of verify_header+finish: the primitive of the key's type is called with the hash of the signature's algorithm and its failure is the result",
    "C13": "decision table of verify_header+finish: first two and last record tried in order, first success or last failure reported with its record",
}


def built_at(prog, fns, status):
    """Where the innermost variant of a status is built."""
    last = status.rstrip(")").split("(")[-1]
    out = []
    for k in sorted(fns):
        f = prog.fns.get(k)
        if f is None or not f["local"]:
            continue
        for b in f["blocks"]:
            for s in b[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][2] == last and "::" in s[2][1][1]:
                    out.append("%s in %s" % (f["span"].rsplit(":", 2)[0] + ":%d" % s[3], f["pretty"]))
    return "; ".join(sorted(set(out))[:3])


def check(prop, ctx):
    fam, cmp, configs, floor = FAMILIES[prop]
    ctx.rule(RULES[prop])
    for config in configs:
        ctx.anchor(config, "verifier::Verifier::verify_header")
        ctx.anchor(config, "verifier::Verifier::finish")
        P = Pipeline(ctx.program(config))
        st = P.stats()
        ctx.count("functions followed", st["functions_followed"])
        ctx.count("outcomes extracted", st["outcomes"])
        ctx.count("loops summarised", st["loops"])
        if st["unmodelled"]:
            ctx.notes["unmodelled"] = st["unmodelled"][:20]
        lits = P.literals()
        ctx.notes["literals of the code used as further cells"] = [list(map(str, lits[0][:40])), lits[1][:40]]
        cases = list(dict(fam(ctx.thorough, config, lits)).items())
        def one(i):
            cid, c = cases[i]
            exp = c.expected()
            try:
                runs = P.runs(c)
            except Undecided as u:
                if P.hang is not None:
                    return ("bad", "waits for the answer for %s, which never comes, without a time limit" % P.hang, "")
                return ("undecided", str(u), "")
            bad = [judge(c, exp, *r) for r in runs]
            if not any(bad):
                kinds = [e[1] for e in exp] if exp else ["none"]
                return ("ok", kinds, "")
            if not all(bad):
                return ("undecided", "%d ways to go on, %d of which deviate" % (len(bad), len([x for x in bad if x])), "")
            return ("bad",) + bad[0]

        def judge(c, exp, got, queries, durations):
            if isinstance(got, str):
                return (got, "")
            m = cmp(c, got, exp)
            if m is None and prop == "C12":
                m = lookups(c, queries, durations, exp)
            if m is None:
                return None
            where = ""
            if isinstance(got, list):
                for g, e in zip(got, exp or []):
                    if g != e:
                        where = built_at(ctx.program(config), P.e1.followed | P.e2.followed, g[1])
                        break
            return (m, where)

        res = ctx.parallel(one, len(cases))
        for (cid, c), (k, r) in zip(cases, res):
            key = "%s/%s" % (config, cid)
            ctx.count("cells compared")
            if k == "error":
                ctx.undecided(key, r)
            elif r[0] == "bad":
                ctx.violation(key, r[1], r[2] or "src/verifier/mod.rs Verifier::verify_header", dict(case=describe(c)))
            elif r[0] == "undecided":
                ctx.undecided(key, r[1])
            else:
                ctx.count("cells decided")
                for s in r[1]:
                    d = ctx.notes.setdefault("expected results covered", {})
                    d[s] = d.get(s, 0) + 1
        for cid, c in cases[:: max(1, len(cases) // 4)]:
            ctx.sample("%s/%s => %s" % (config, cid, c.expected()))
    if prop == "C06":
        defaults(ctx)
    ctx.floor("cells compared", floor)


def lookups(c, queries, durations, exp):
    want = set()
    for i, v in c.candidates():
        s = c.sigs.get(v) if isinstance(v, str) else None
        if isinstance(s, dict) and not c.policies(s):
            want.add(c.query(s))
    if any(not isinstance(q, str) for q in queries):
        return None
    got = [q for q in queries]
    # a lookup that runs into the time limit leaves no call event of its own
    seen = set(got) | c.slow
    if seen - want - c.slow:
        return "looks up %s, which no signature in progress names" % sorted(seen - want)[0]
    if want - seen:
        return "never looks up %s" % sorted(want - seen)[0]
    if len(got) != len(set(got)):
        return "looks up %s more than once" % [q for q in got if got.count(q) > 1][0]
    if want and durations != {("secs", c.cfg["lookup_timeout"])}:
        if not durations:
            return "awaits the resolver without a time limit"
        if all(isinstance(d, tuple) and d[0] == "secs" for d in durations):
            return "limits the lookup to %s s, configured are %s s" % (sorted(d[1] for d in durations), c.cfg["lookup_timeout"])
    return None


def describe(c):
    return dict(headers=c.headers, signatures=c.sigs, answers=c.answers, records=c.records, keys={str(k): v for k, v in c.keys.items()},
                verifies=None if c.verifies is None else sorted(map(str, c.verifies)), bodies={str(k): v for k, v in c.bodies.items()},
                config=c.cfg, never_answered=sorted(c.slow))


def defaults(ctx):
    """The documented defaults of the configuration."""
    from engine import Engine
    from table import Case, Env, Unknown, V
    p = ctx.program()
    it = next((i for i in p.items if i["pretty"] == "<verifier::Config as std::default::Default>::default"), None)
    if it is None:
        from main import Missing
        raise Missing("Config::default")
    e = Engine(p)
    outs = [o for o in e.run_entry(it["key"], names=[])]
    ctx.count("outcomes extracted", len(outs))
    want = dict(lookup_timeout=("secs", 10), max_signatures=10, min_key_bits=1024, allow_sha1=False,
                forbid_unsigned_content=False, allow_expired=False, allow_timestamp_in_future=False, time_tolerance=("secs", 300))
    c = Case(e, {})
    for o, env, certain in c.outcomes(outs):
        if o.kind != "ret":
            if certain:
                ctx.violation("defaults", "Config::default does not return", "src/verifier/mod.rs Config::default")
            continue
        try:
            v = c.val(o.value, env)
        except Unknown as x:
            v = x
        if not isinstance(v, V):
            ctx.undecided("defaults", "value")
            continue
        for k, w in want.items():
            x = v.get(k)
            ctx.count("defaults compared")
            if repr(x).startswith("?"):
                ctx.undecided("defaults/" + k, repr(x))
            elif x != w:
                ctx.violation("defaults/" + k, "default of Config::%s is %r, documented is %r" % (k, x, w), "src/verifier/mod.rs Config::default")
        for k, w in (("headers_required_in_signature", []), ("headers_forbidden_to_be_unsigned", ["from"])):
            x = v.get(k)
            ctx.count("defaults compared")
            n = [y.vals[0] if isinstance(y, V) and y.vals else y for y in x] if isinstance(x, list) else x
            if not (isinstance(n, list) and all(isinstance(y, str) for y in n)):
                ctx.undecided("defaults/" + k, repr(x))
            elif [y.lower() for y in n] != w:
                ctx.violation("defaults/" + k, "default of Config::%s is %r, documented is %r" % (k, n, w), "src/verifier/mod.rs Config::default")
        x = v.get("fixed_system_time")
        if isinstance(x, V) and x.variant != "None":
            ctx.violation("defaults/fixed_system_time", "a system time is fixed by default", "src/verifier/mod.rs Config::default")
