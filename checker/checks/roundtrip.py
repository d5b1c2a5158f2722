# properties: C01 C32
"""Signing composed with verifying."""

import random

from fn import Undecided
from table import Unknown
import signing
import specs
import verifying
import words
from checks.signer import Cell, DOMAINS, ED, FROM, H, HEADS, LONG, SHA1, SPECIAL, cell, combos, single
from signing import CLOCK, REQUEST, U64


def check(prop, ctx):
    if prop == "C01":
        return tampered(ctx)
    ctx.rule("the composed tables of prepare_signing and sign, and of verify_header and finish on the emitted field prepended to the header, give one Success per accepted request; the signature is read as returned")
    quick = ctx.tier == "quick"
    cells = [c for c in single() + combos(700 if quick else 6000, 32) if readable(c)]
    rng = random.Random(32)
    rng.shuffle(cells)
    if quick:
        cells = cells[:520]
    # several signatures in one message, verified together
    for i in range(12 if quick else 60):
        hs = rng.choice((FROM, H, LONG))
        rs = [{**c[1][0], "sel": "s%d" % k} for k, c in enumerate(rng.sample([c for c in cells if c[0] == hs], 2 + i % 2))]
        cells.append(cell(hs, *rs))
    run(ctx, "default", cells)
    run(ctx, "pre-rfc8301", [cell(h, dict(a, hc=x, bc=y)) for h in (H, LONG) for a in (SHA1, {}) for x in ("Simple", "Relaxed") for y in ("Simple", "Relaxed")])
    ctx.floor("cells compared", 500)


def readable(c):
    """Requests whose times and identity make a signature a verifier may accept."""
    for r in c[1]:
        r = {**REQUEST, **r}
        e = signing.expected(c[0], r)
        if isinstance(e, tuple) or e["expiration"] == U64:
            return False
        i = r["ident"]
        if i is not None and i[0] is not None and specs.identity("%s@%s" % i) != i:
            return False
    return True


def run(ctx, config, cells):
    p = ctx.program(config)
    s, v = signing.Signing(p), verifying.Verifying(p)
    sig = p.find("<signature::DkimSignature as std::str::FromStr>::from_str")

    def got(c):
        hs, rs = c
        out = s.run(hs, list(rs))
        if not isinstance(out, list) or any(isinstance(o, tuple) for o in out):
            return "signing gives %s" % str(out)[:80]
        full = tuple((o["name"], o["value"].encode()) for o in out) + tuple(hs)
        answers, now = {}, None
        for r in rs:
            r = {**REQUEST, **r}
            q = "%s._domainkey.%s." % (specs.lower(specs.to_ascii(r["sel"])), specs.lower(specs.to_ascii(r["domain"])))
            answers[q] = [verifying.key_record(r["key"])]
        res = []
        for k, o in enumerate(out):
            # at the instant of this signature; the others are still signatures of the message
            t = o["timestamp"] if o["timestamp"] is not None else (o["expiration"] or CLOCK) - 1
            low = [specs.lower(n) for n in o["signed_headers"]]
            cfg = dict(now=t, forbidden=("From",) if low.count("from") >= [specs.lower(n) for n, _ in hs].count("from") else (), allow_sha1=True, allow_expired=len(out) > 1, allow_timestamp_in_future=len(out) > 1)
            rr = v.run(full, answers, cfg)
            if isinstance(rr, list):
                idx = [i for i, (n, _) in enumerate(full) if specs.lower(n) == "dkim-signature"]
                st = dict(rr)
                # fields of that name the message had before are not of concern
                rr = [st.get(i) for i in idx[:len(out)]]
            res.append(rr)
            if sig is not None:
                x = s.lib.value(sig["key"], o["value"])
                d = "%s" % (x,) if x == "panic" or x.variant != "Ok" else differs(x.vals[0], o["raw"].get("signature"))
                if d:
                    return "the emitted value is read with %s" % d
        if words.unknown(res):
            raise Undecided("partly open")
        bad = [x for x in res if x != ["Success"] * len(out)]
        return "verification gives %s" % (bad[0],) if bad else "verifies"

    cells = [Cell(c) for c in cells]
    try:
        got(cells[0])
    except (Undecided, Unknown):
        pass
    words.compare(ctx, config + "/sign and verify", cells, got, lambda c: "verifies", s.where)
    ctx.count("functions analysed", len(s.lib.fns) + len(v.lib.fns))


def differs(a, b):
    """Fields apart that the text carries; names of domains in either form."""
    for n in a.names:
        x, y = signing.plain(a.get(n)), signing.plain(b.get(n))
        if n in ("domain", "selector"):
            x, y = specs.lower(specs.to_ascii(x)), specs.lower(specs.to_ascii(y))
        if n == "identity" and x and y:
            x, y = [(i[0], specs.lower(specs.to_ascii(i[1]))) for i in (x, y)]
        if x in (None, [], b"", "") and y in (None, [], b"", ""):
            continue
        if n == "copied_headers":
            x, y = [[(k, bytes(w)) for k, w in z or []] for z in (x, y)]
        if n == "ext_tags":
            x, y = [sorted(t for t in z if t[0] != "q") for z in (x or [], y or [])]   # q= is a tag of the parser
        if x != y:
            return "%s %r, returned was %r" % (n, x, y)
    return None


# -- C01: signed, then altered ---------------------------------------------------------

class Altered(tuple):
    """(header, request, what was done, altered header without the signature, edit of the value, edit of the body)"""

    def __repr__(self):
        return "<%s: %s>" % (Cell(cell(self[0], self[1])), self[2])


def edits(hs):
    """Alterations of a header."""
    for i, (n, v) in enumerate(hs):
        at = lambda x: hs[:i] + x + hs[i + 1:]
        yield "value of %s %d changed" % (n, i), at(((n, v + b"!"),))
        yield "letter case of value of %s %d" % (n, i), at(((n, v.swapcase()),))
        yield "white space of %s %d" % (n, i), at(((n, b"  " + v.replace(b" ", b" \t") + b" "),))
        yield "fold in %s %d" % (n, i), at(((n, b"\r\n " + v.strip()),)) if v.strip() else hs
        yield "letter case of name %s %d" % (n, i), at(((n.swapcase(), v),))
        yield "name %s %d changed" % (n, i), at(((n + "x", v),))
        yield "%s %d removed" % (n, i), at(())
        yield "%s %d twice" % (n, i), at(((n, v), (n, v)))
        yield "another %s at the top" % n, ((n, b" other"),) + hs
        yield "another %s at the bottom" % n, hs + ((n, b" other"),)
        if i:
            yield "%s %d moved to the top" % (n, i), (hs[i],) + hs[:i] + hs[i + 1:]
    yield "reversed", hs[::-1]
    yield "unsigned field added", hs + (("X-Added", b" y"),)


VALUE_EDITS = [
    ("tag " + t, lambda v, t=t, new=new: sub_tag(v, t, new)) for t, new in (
        ("v", "2"), ("v", None), ("v", " 1"), ("d", "example.org"), ("d", "EXAMPLE.COM"), ("d", None), ("s", "other"), ("s", "SEL"), ("a", "ed25519-sha256"), ("a", "rsa-sha256"), ("a", "RSA-SHA256"), ("a", "rsa-sha1"),
        ("c", "simple"), ("c", "simple/simple"), ("c", "relaxed"), ("c", "relaxed/relaxed"), ("c", None), ("t", "1001"), ("t", None), ("t", "01000"), ("x", "9999"), ("x", None), ("x", "1000"), ("l", "10"), ("l", "100"), ("l", "101"), ("l", None),
        ("h", "From"), ("h", "from"), ("h", "From:From"), ("h", "To:From"), ("h", "TO:To:From"), ("h", "TO : To:From"), ("h", None), ("bh", "AAAA"), ("bh", None), ("b", "AAAA"), ("b", None), ("b", ""), ("z", "a:b"), ("i", "@example.com"), ("i", "@a.example.com"), ("i", "@example.org"), ("q", "dns/txt"), ("new", "x"), ("q", "x"))
] + [
    ("b= folded", lambda v: fold_b(v)), ("b= shortened", lambda v: sub_b(v, lambda b: b[:-4])), ("b= changed", lambda v: sub_b(v, lambda b: ("A" if b[0] != "A" else "B") + b[1:])),
    ("b= swapped letter case", lambda v: sub_b(v, lambda b: b.swapcase())), ("space before ;", lambda v: v.replace(";", " ;", 1)), ("space at the end", lambda v: v + " "), ("; at the end", lambda v: v + ";"),
    ("spaces doubled", lambda v: v.replace(" ", "  ")), ("unfolded", lambda v: v.replace("\r\n\t", " ")), ("no leading space", lambda v: v.lstrip()), ("space before =", lambda v: v.replace("bh=", "bh =")), ("b =", lambda v: v.replace(" b=", " b = ").replace("\tb=", "\tb = ")),
    ("tags reversed", lambda v: ";".join(v.split(";")[::-1])), ("unchanged", lambda v: v), ("tag name case", lambda v: v.replace("bh=", "BH="))]


def sub_tag(v, tag, new):
    import re
    parts = v.split(";")
    out = [p for p in parts if not re.match(r"\s*%s\s*=" % tag, p)]
    i = next((k for k, p in enumerate(parts) if re.match(r"\s*%s\s*=" % tag, p)), len(parts))
    if new is not None:
        out.insert(i, " %s=%s" % (tag, new))
    return ";".join(out)


def sub_b(v, f):
    import re
    return re.sub(r"(?<![A-Za-z])b=([^;]*)", lambda m: "b=" + f(re.sub(r"\s", "", m.group(1))), v, count=1)


def fold_b(v):
    return sub_b(v, lambda b: " " + "\r\n ".join(b[i:i + 9] for i in range(0, len(b), 9)) + "\t")


def tampered(ctx):
    ctx.rule("signing composed with verifying: after alterations of the header, the signature field or the body, the result is Success exactly if the altered message still has, by RFC 6376, a valid signature of it with the body hash of it (ideal primitives)")
    quick = ctx.tier == "quick"
    rng = random.Random(101)
    reqs = [dict(), dict(hc="Simple"), dict(bc="Relaxed", length=50), dict(hc="Simple", length="content", **ED), dict(select=("To", "From", "from", "x"), ts=None, valid=None), dict(ident=("u", "a.example.com"), copy=True, width=40)]
    cells = []
    for hs in (FROM, H, LONG):
        for r in reqs:
            cells += [Altered((hs, r, w, h2, lambda v: v, None)) for w, h2 in edits(hs)]
    for r in reqs:
        cells += [Altered((H, r, w, H, f, None)) for w, f in VALUE_EDITS]
        cells += [Altered((H, r, "body changed at %d" % n, H, lambda v: v, n)) for n in (0, 49, 50, 51, 99)]
    for _ in range(100 if quick else 1500):
        a, b = rng.choice(list(edits(H))), rng.choice(VALUE_EDITS)
        cells.append(Altered((H, rng.choice(reqs), a[0] + ", " + b[0], a[1], b[1], None)))
    if quick:
        rng.shuffle(cells)
        cells = cells[:420]
    p = ctx.program("default")
    s, v = signing.Signing(p), verifying.Verifying(p)
    REC = {}

    def alter(c):
        hs, r, what, h2, f, body = c
        o = s.run(hs, [r])
        if not isinstance(o, list) or isinstance(o[0], tuple):
            raise Undecided("signing gives %s" % str(o)[:80])
        val = f(o[0]["value"])
        return ((o[0]["name"], val.encode()),) + h2, val

    answers = {"%s._domainkey.%s." % (x, d): [verifying.key_record(REQUEST["key"]), verifying.key_record(ED["key"])] for x in ("sel", "other") for d in ("example.com", "example.org")}
    cfg = dict(now=1050, forbidden=())

    def got(c):
        full, val = alter(c)
        if not specs.field_body(full[0][1]) or not all(specs.field_body(x) for _, x in full):
            return None
        v.changed = c[5]
        v.lib.memo.clear()
        try:
            res = v.run(full, answers, cfg)
        finally:
            v.changed = None
        if words.unknown(res):
            raise Undecided("partly open")
        if not isinstance(res, list):
            return "no results: %s" % (res,)
        return "Success" if res[0][1] == "Success" else "no success"

    def both(c):
        full, val = alter(c)
        g = got(c)
        return "as specified" if g is None or g == valid(full, val, c[5]) else "%s, must be %s: %r" % (g, valid(full, val, c[5]), val)

    both(cells[0])
    words.compare(ctx, "signed and altered", cells, both, lambda c: "as specified", v.where, unit="altered messages")
    ctx.floor("altered messages", 300)


def valid(full, val, body):
    from checks.taglist import reference
    t = reference(val)
    if not isinstance(t, list):
        return "no success"
    e = specs.signature(t)
    if isinstance(e, specs.Bad):
        return "no success"
    if e["expiration"] is not None and 1050 >= e["expiration"] + 300 or e["timestamp"] is not None and e["timestamp"] > 1350:
        return "no success"
    if specs.lower(e["domain"]) not in ("example.com", "example.org") or specs.lower(e["selector"]) not in ("sel", "other"):
        return "no success"
    hc, bc = e["canonicalization"]
    n = e["body_length"]
    if n is not None and n > signing.BODY:
        return "no success"
    h = signing.HASH[e["algorithm"]]
    if signing.body_hash((n, h, bc), body) != e["body_hash"]:
        return "no success"
    key = REQUEST["key"] if e["algorithm"] == "RsaSha256" else ED["key"]
    d = signing.digest_of(h, specs.header_hash_data(hc, full, e["signed_headers"], full[0][0], specs.without_b(val).encode()))
    return "Success" if signing.signature_of(key[0], key, h if key[0] == "Rsa" else None, d) == e["signature_data"] else "no success"
