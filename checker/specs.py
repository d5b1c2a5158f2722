"""Independent references for the texts the library reads and writes."""

import base64
import re

F = r"(?:(?:[ \t]*\r\n)?[ \t]+)"
WSP = " \t"


def safe(c, ascii_only=False):
    """RFC 6376, 2.11 (with RFC 8616): dkim-safe-char."""
    return "!" <= c <= ":" or c == "<" or ">" <= c <= "~" or (ord(c) >= 0x80 and not ascii_only)


def hexed(bs):
    return "".join("=%02X" % b for b in bs)


def qp_encode(bs, special=None, ascii_only=False):
    out = ""
    while bs:
        try:
            n, text = len(bs), bs.decode()
        except UnicodeDecodeError as x:
            n, text = x.start, bs[:x.start].decode()
        for c in text:
            out += c if safe(c, ascii_only) and c != special else hexed(c.encode())
        bs = bs[n:]
        if bs:
            out += hexed(bs[:1])
            bs = bs[1:]
    return out


QP = re.compile(r"{F}?(?:(?:(?:={F}?[0-9A-Fa-f]{F}?[0-9A-Fa-f])|[!-:<>-~\x80-\U0010ffff])+(?:{F}|$))*".replace("{F}", F))
QPT = re.compile(r"=({F}?)([0-9A-Fa-f])({F}?)([0-9A-Fa-f])|([!-:<>-~\x80-\U0010ffff])|[ \t\r\n]+".replace("{F}", F))


def qp_decode(s):
    """The bytes, or None if `s` is not DKIM-Quoted-Printable."""
    if not QP.fullmatch(s):
        return None
    out = b""
    for m in QPT.finditer(s):
        if m.group(5):
            out += m.group(5).encode()
        elif m.group(2):
            out += bytes([int(m.group(2) + m.group(4), 16)])
    return out


def qp_plain(s):
    """Whether `s` only has forms RFC 6376 settles: upper-case hexadecimal digits, and single white space."""
    return not re.search("=(?![0-9A-F]{2})", s)


LOOSE = re.compile(r"(?:{F}|={F}?[0-9A-Fa-f]{F}?[0-9A-Fa-f]|[!-:<>-~\x80-\U0010ffff])*".replace("{F}", F))


def qp_loose(s):
    """As qp_decode, white space repeated at will."""
    if not LOOSE.fullmatch(s):
        return None
    t = re.sub("[ \t\r\n]", "", s)
    return re.sub(rb"=(..)", lambda m: bytes([int(m.group(1), 16)]), t.encode())


def qp_section(s):
    """RFC 2045 qp-section as used for n=, blanks anywhere."""
    if not re.fullmatch("(?:=[0-9A-Fa-f]{2}|[!-:<>-~\x80-\U0010ffff \t])*", s):
        return None
    return re.sub(rb"=(..)", lambda m: bytes([int(m.group(1), 16)]), s.encode())


# -- header fields -------------------------------------------------------------

def field_name(s):
    return bool(re.fullmatch("[!-9;-~]+", s))


BODY = re.compile(rb"[\t -~\x80-\xff]*(?:\r\n[ \t][\t -~\x80-\xff]*[!-~\x80-\xff][\t -~\x80-\xff]*)*")


def field_body(b):
    return bool(BODY.fullmatch(b))


def rust_lines(s):
    out = s.split("\n")
    last = out.pop()
    out = [x[:-1] if x.endswith("\r") else x for x in out]
    return out + [last] if last else out


def header(s):
    """The fields of a header block: [(name, body)], or None."""
    fields = []
    for line in rust_lines(s):
        if line[:1] in ("", " ", "\t") and (not fields or not line):
            return None
        if line[0] in " \t":
            fields[-1][1] += "\r\n" + line
        elif ":" not in line:
            return None
        else:
            fields.append(line.split(":", 1))
    if not fields or not all(field_name(n) and field_body(v.encode()) for n, v in fields):
        return None
    return [(n, v.encode()) for n, v in fields]


# -- domain names ----------------------------------------------------------------
# The IDNA library is replaced by a stand-in with the kinds of outcome it has:
# U+FFFD makes both conversions fail, U+0130 only that to Unicode.

def lower(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def to_ascii(s):
    """A-label form, or None."""
    out = []
    for x in s.split("."):
        if "\ufffd" in x:
            return None
        x = lower(x)
        if x.startswith("xn--") and alabel(x) is None:
            return None
        out.append(x if x.isascii() else "xn--" + lower(x).encode("punycode").decode())
    return ".".join(out)


def alabel(x):
    try:
        u = x[4:].encode("ascii").decode("punycode")
    except (UnicodeError, ValueError):
        return None
    return u if u and not u.isascii() else None


def to_unicode(s):
    """(text, whether it converted without error)."""
    bad = to_ascii(s) is None or "\u0130" in s
    return ".".join(alabel(lower(x)) or lower(x) if x[:4].lower() == "xn--" else lower(x) for x in s.split(".")), not bad


def domain(s, tld=True):
    a = to_ascii(s)
    u, ok = to_unicode(s)
    # an A-label may contain what is no U-label
    if a is None or not ok or to_ascii(u) != a or not 1 <= len(a) <= 253:
        return False
    labels = a.split(".")
    if not all(re.fullmatch("(?!-)[A-Za-z0-9_-]{1,63}(?<!-)", x) for x in labels):
        return False
    return not (tld and re.fullmatch("[0-9]+", labels[-1]))


def selector(s):
    return domain(s, False)


def within(inner, outer):
    """The inner domain is the outer one or below it."""
    if lower(inner) == lower(outer):
        return True
    a, b = lower(to_ascii(inner)), lower(to_ascii(outer))
    return a == b or a.endswith("." + b)


ATEXT = "[A-Za-z0-9!#$%&'*+/=?^_`{|}~\\-\x80-\U0010ffff]+"
DOTSTRING = re.compile(r"%s(?:\.%s)*" % (ATEXT, ATEXT))
QUOTED = re.compile("\"(?:[ !#-\\[\\]-~\x80-\U0010ffff]|\\\\[ -~])*\"")


def identity(s):
    """(local part or None, domain), or None."""
    if "@" not in s:
        return None
    loc, d = s.rsplit("@", 1)
    if not domain(d):
        return None
    if loc and (len(loc.encode()) > 64 or not (DOTSTRING.fullmatch(loc) or QUOTED.fullmatch(loc))):
        return None
    return loc or None, d


# -- base64 -----------------------------------------------------------------------

def b64(s):
    """Canonical, padded base64: the bytes, or None."""
    if not re.fullmatch(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", s):
        return None
    d = base64.b64decode(s)
    return d if base64.b64encode(d).decode() == s else None


# -- DKIM-Signature and key record ----------------------------------------------------
# A parse gives a dict of fields, or a Bad: the kinds of violation present.

class Bad(frozenset):
    pass


def trim(s):
    return re.sub("^%s|%s$" % (F, F), "", s)


def squeeze(s):
    return re.sub("[ \t\r\n]", "", s)


def number(s):
    return int(s) if re.fullmatch("[0-9]+", s) and int(s) < 1 << 64 else None


def copied(s):
    """One field of z=: (name, value), or None."""
    d = qp_decode(s)
    if d is None or b":" not in d:
        return None
    n, v = d.split(b":", 1)
    try:
        n = n.decode()
    except UnicodeDecodeError:
        return None
    return (n, v) if field_name(n) else None


ALGORITHMS = {"rsa-sha256": "RsaSha256", "ed25519-sha256": "Ed25519Sha256"}
CANON = {"simple": "Simple", "relaxed": "Relaxed"}
SIG_TAGS = ("v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z")
REC_TAGS = ("v", "h", "k", "n", "p", "s", "t")


def signature(tags, sha1=False):
    """A DkimSignature from (name, value) pairs."""
    bad, out, ext = set(), {}, []
    for n, v in tags:
        if n not in SIG_TAGS:
            ext.append((n, v))
            continue
        out[n] = v
    get = out.get

    def put(tag, value, kind):
        if value is None:
            bad.add(kind)
        out[tag] = value
    if get("v", "1") != "1":
        bad.add("IncompatibleVersion")
    if "a" in out:
        a = lower(out["a"])
        algs = dict(ALGORITHMS, **({"rsa-sha1": "RsaSha1"} if sha1 else {}))
        put("a", algs.get(a), "HistoricAlgorithm" if a == "rsa-sha1" else "UnsupportedAlgorithm")
    for n, empty in (("b", "EmptySignatureTag"), ("bh", "EmptyBodyHashTag")):
        if n in out:
            d = b64(squeeze(out[n]))
            put(n, d, "InvalidBase64")
            if d == b"":
                bad.add(empty)
    if "c" in out:
        h, _, b = lower(out["c"]).partition("/")
        ok = h in CANON and ("/" not in out["c"] or b in CANON)
        put("c", (CANON[h], CANON.get(b, "Simple")) if ok else None, "UnsupportedCanonicalization")
    if "d" in out:
        put("d", out["d"] if domain(out["d"]) else None, "InvalidDomain")
    if "h" in out:
        if out["h"] == "":
            bad.add("EmptySignedHeadersTag")
        else:
            h = [trim(x) for x in out["h"].split(":")]
            put("h", h if all(map(field_name, h)) else None, "InvalidSignedHeaderName")
            if out["h"] is not None and "from" not in map(lower, h):
                bad.add("FromHeaderNotSigned")
    if "i" in out:
        d = qp_decode(out["i"])
        try:
            i = None if d is None else identity(d.decode())
        except UnicodeDecodeError:
            i = None
        put("i", i, "InvalidIdentity")
        if i and out.get("d") and not within(i[1], out["d"]):
            bad.add("DomainMismatch")
    for n, kind in (("l", "InvalidBodyLength"), ("t", "InvalidTimestamp"), ("x", "InvalidExpiration")):
        if n in out:
            put(n, number(out[n]), kind)
    if "q" in out:
        q = [lower(trim(x)) for x in out["q"].split(":")]
        if "" in q:
            bad.add("InvalidQueryMethod")
        elif "dns/txt" not in q:
            bad.add("NoSupportedQueryMethods")
    if "s" in out:
        put("s", out["s"] if selector(out["s"]) else None, "InvalidSelector")
    if "z" in out:
        z = [copied(x) for x in out["z"].split("|")]
        put("z", None if None in z else z, "InvalidCopiedHeaderField")
    if out.get("t") is not None and out.get("x") is not None and out["x"] <= out["t"]:
        bad.add("ExpirationNotAfterTimestamp")
    for n, kind in zip(("v", "a", "b", "bh", "d", "h", "s"), "Version Algorithm Signature BodyHash Domain SignedHeaders Selector".split()):
        if n not in out:
            bad.add("Missing%sTag" % kind)
    if bad:
        return Bad(bad)
    return dict(algorithm=out["a"], signature_data=out["b"], body_hash=out["bh"], canonicalization=out.get("c", ("Simple", "Simple")),
                domain=out["d"], signed_headers=out["h"], identity=out.get("i"), body_length=out.get("l"), selector=out["s"],
                timestamp=out.get("t"), expiration=out.get("x"), copied_headers=out.get("z", []), ext_tags=ext)


def record(tags, sha1=False):
    """A DkimKeyRecord from (name, value) pairs."""
    bad, out, ext = set(), {}, []
    for n, v in tags:
        if n in REC_TAGS:
            out[n] = v
        else:
            ext.append((n, v))
    if "v" in out:
        if tags[0][0] != "v":
            bad.add("MisplacedVersionTag")
        if out["v"] != "DKIM1":
            bad.add("IncompatibleVersion")

    def listed(tag, known, empty, none, default):
        if tag not in out:
            return default
        xs = [trim(x) for x in out[tag].split(":")]
        if "" in xs:
            bad.add(empty)
        r = [known[lower(x)] for x in xs if lower(x) in known]
        if not r and none:
            bad.add(none)
        return r
    hashes = {"sha256": "Sha256", **({"sha1": "Sha1"} if sha1 else {})}
    h = listed("h", hashes, "InvalidHashAlgorithm", "NoSupportedHashAlgorithms", ["Sha256"] + ["Sha1"] * sha1)
    k = {"rsa": "Rsa", "ed25519": "Ed25519"}.get(lower(out.get("k", "rsa")))
    if k is None:
        bad.add("UnsupportedKeyType")
    n = None
    if "n" in out:
        n = qp_section(out["n"])
        if n is None:
            bad.add("InvalidQuotedPrintable")
        else:
            n = n.decode(errors="replace")
    p = None
    if "p" in out:
        p = b64(squeeze(out["p"]))
        if p is None:
            bad.add("InvalidBase64")
    else:
        bad.add("MissingKeyTag")
    s = listed("s", {"*": "Any", "email": "Email"}, "InvalidServiceType", "NoSupportedServiceTypes", ["Any"])
    t = listed("t", {"y": "Testing", "s": "NoSubdomains"}, "InvalidFlag", None, [])
    if bad:
        return Bad(bad)
    return dict(hash_algorithms=h, key_type=k, notes=n, key_data=p, service_types=s, flags=t, ext_tags=ext)


# -- header hashes ------------------------------------------------------------------

def canonical_header(canon, name, value):
    """RFC 6376, 3.4.1 and 3.4.2 (without the final CRLF)."""
    n = name.encode()
    if canon == "Simple":
        return n + b":" + value
    ws = b" \t\r\n"
    v = b" ".join(x for x in re.split(rb"[ \t\r\n]+", value.strip(ws)) if x)
    return bytes(c + 32 if 65 <= c <= 90 else c for c in n) + b":" + v


def header_hash_data(canon, fields, signed, own, value):
    """RFC 6376, 3.7: the bytes hashed; `own` None leaves out the signature's own field."""
    left = list(fields)
    out = b""
    for s in signed:
        for i in range(len(left) - 1, -1, -1):
            if lower(left[i][0]) == lower(s):
                n, v = left.pop(i)
                out += canonical_header(canon, n, v) + b"\r\n"
                break
    if own is not None:
        out += canonical_header(canon, own, value)
    return out


def without_b(s):
    """A signature field's value with the content of its b= tag removed (RFC 6376, 3.7)."""
    out, done = [], False
    for part in s.split(";"):
        m = re.match(r"((?:[ \t]|\r\n(?=[ \t]))*b(?:[ \t]|\r\n(?=[ \t]))*=)", part)
        if m and not done:
            part, done = m.group(1), True
        out.append(part)
    return ";".join(out)
