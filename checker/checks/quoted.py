# properties: C22
"""Quoted-printable: the tables of encoder and decoder against the character classes of the RFC."""

from fn import Undecided
from main import Missing
from table import NONE, Some
import specs
import texts
import words

ENC = ("quoted_printable::encode", "quoted_printable::encode_ascii_only")
DEC = "quoted_printable::decode"


def decoded(v):
    v = words.plain(v)
    if isinstance(v, tuple) and v[0] == "Ok":
        return bytes(v[1])
    return "invalid" if isinstance(v, tuple) and v[0] == "Err" else v


def must_decode(s):
    """What decoding may give: RFC 6376 settles neither hexadecimal digits in lower
    case or apart nor adjacent folding white space, so these may be refused."""
    strict = specs.qp_decode(s)
    loose = specs.qp_loose(s)
    if strict is not None and specs.qp_plain(s):
        return strict
    if loose is not None:
        return words.OneOf([loose, "invalid"])
    return "invalid"


def check(prop, ctx):
    ctx.rule("the encoders' and the decoder's decision tables are evaluated on all words over the character classes their guards and the RFC distinguish, up to a length, and on a representative of every class, and must agree with the RFC's classes; what the reference encoder emits must decode to the bytes it came from")
    p = ctx.program("default")
    for n in ENC + (DEC,):
        if p.find(n) is None:
            raise Missing(n)
    lib = texts.lib(p)
    quick = ctx.tier == "quick"

    def encode(c):
        fn, sp, bs = c
        return lib.value(fn, bs, NONE if sp is None else Some(ord(sp)))

    def want(c):
        fn, sp, bs = c
        return specs.qp_encode(bs, sp, fn.endswith("ascii_only"))

    for fn in ENC:
        encode((fn, "|", b"a;=\xc3\xa9\xff"))
    lib.value(DEC, "a =41\r\n b")
    toks = [b"a", b" ", b"=", b";", b"|", b"\xc3\xa9", b"\xc3", b"\x80", b"\xe2\x82\xac", b"\xff", b"\x00", b"\r\n"]
    bs = {b""} | {bytes([i]) for i in range(256)}
    for a in toks:
        for b in toks:
            bs.add(a + b)
            for c in toks if not quick else toks[:8]:
                bs.add(a + b + c)
    chars = [chr(c) for c in words.representatives(lib)]
    bs |= {c.encode() for c in chars} | {b"a" + c.encode() + b"\xe2" for c in chars}
    bs |= {b"\xf0\x9f\x98", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"a" * 40 + b"\xf0\x9f" + b"b" * 40}
    cells = [(fn, sp, b) for fn in ENC for sp in (None, "|", ":") for b in sorted(bs)]
    cells += [(fn, c, c.encode() + b"x") for fn in ENC for c in chars]
    where = {n: "%s %s" % (p.fns[p.find(n)["key"]]["span"], n) for n in ENC + (DEC,)}
    words.compare(ctx, "encode", cells, encode, want, where[ENC[0]])
    ctx.count("functions analysed", len(lib.fns))
    ctx.count("character classes", len(words.cuts(lib)) - 1)

    def dec(s):
        return decoded(lib.value(DEC, s))
    ws = set(words.upto(["a", "=", "4", "f", "F", " ", "\t", "\r\n", ";"], 4 if quick else 5))
    ws |= set(words.upto(["=", "F", "4", " ", "é"], 5 if quick else 6))
    ws |= set(words.mutations(["=41=C3=A9 a\r\n b=3B", "ab|=7C=0D=0A", " =20= 20\t"], ["a", "=", ";", " ", "\r\n", "\r", "\n", "5", "é", "\x00", "\x7f"]))
    for c in chars:
        ws |= {c, "a" + c, c + "a", "=4" + c, "=" + c + "4", "=41" + c, c + "=41"}
    words.compare(ctx, "decode", sorted(ws), dec, must_decode, where[DEC])

    # the emitted form decodes to what it came from
    def back(c):
        return dec(want(c))
    words.compare(ctx, "decode of encoded", cells, back, lambda c: c[2], where[DEC], unit="round trips")
    ctx.floor("cells compared", 5000)
    ctx.floor("round trips", 3000)
    ctx.sample(dict(function=ENC[0], bytes="a;\\xc3", expected=want((ENC[0], None, b"a;\xc3"))))
