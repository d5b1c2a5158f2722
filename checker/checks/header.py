# properties: C02 C04
"""Header canonicalization, the selection of the fields to hash, removal of the b= value."""

import re

from fn import Undecided
from main import Missing
from table import Free, Opaque, V, enum
import specs
import table
import texts
import words

CA = "signature::CanonicalizationAlgorithm"
HA = "crypto::HashAlgorithm"


def digest(n, a):
    last = table._last(n)
    if last == "digest" and len(a) == 2:
        return Opaque("digest", *map(table.freeze, a))
    raise Free(n)


def opaque(n, i):
    return n in ("crypto::hash::digest", "crypto::digest")


def fn_(x):
    return enum("header::FieldName", "FieldName", x)


def fields(fs):
    return enum("header::HeaderFields", "HeaderFields", [(fn_(n), enum("header::FieldBody", "FieldBody", v)) for n, v in fs])


def public(ctx, p, pretty):
    it = p.find(pretty)
    if it is None:
        last = pretty.split("::")[-1]
        c = [x for x in p.items if x["name"] == last and x["public"] and x["key"] in p.fns]
        if len(c) != 1:
            raise Missing("public function " + pretty)
        it = c[0]
    return it


def data(v):
    if isinstance(v, (list, bytes, tuple)):
        return bytes(v)
    return v


def where(p, it):
    return "%s %s" % (p.fns[it["key"]]["span"], it["pretty"])


def check(prop, ctx):
    p = ctx.program("default")
    lib = texts.lib(p, digest, opaque=opaque)
    (c04 if prop == "C04" else c02)(ctx, p, lib)
    ctx.count("functions analysed", len(lib.fns))


def c04(ctx, p, lib):
    ctx.rule("the decision table of canonicalize_header, loops composed, appends exactly the canonical form of RFC 6376 3.4.1 and 3.4.2, for each algorithm, on all header values over classes of bytes up to a length, every single byte value in every position class, and changes of longer ones")
    it = public(ctx, p, "canonicalize::canonicalize_header")
    quick = ctx.tier == "quick"
    vals = {w.encode("latin-1") for w in words.upto(["a", " ", "\t", "\r\n ", ";", "\xe9"], 5 if quick else 6)}
    vals |= {w.encode("latin-1") for w in words.upto(["a", " ", "\r\n\t", "B"], 6 if quick else 8)}
    for b in range(256):
        c = bytes([b])
        for x, y in ((b"", b""), (b"a", b"b"), (b" ", b"x"), (b"x", b"  "), (b"a ", b" b"), (b" a\r\n ", b"\r\n\tb ")):
            vals.add(x + c + y)
    base = [" Fri, 24\r\n\tfoo  bar ", "v=1; a=b\t;\r\n  c= d;\r\n b=", "x", "\t \t y: Z\t "]
    vals |= {w.encode("latin-1") for w in words.mutations(base, ["a", " ", "\t", "\r\n ", ":", "\xff", "\x00", "\x0b", "\x0c", "\x7f", "\xa0"])}
    vals = sorted(v for v in vals if specs.field_body(v))
    names = ["From", "x", "DKIM-Signature", "A-B_c", "ZaAz@[`{", "a.;=~!"]
    cells = [(c, names[i % 3], v) for c in ("Simple", "Relaxed") for i, v in enumerate(vals)]
    cells += [(c, n, v) for c in ("Simple", "Relaxed") for n in names for v in (b"", b" a  B ", b"\r\n x")]
    cells += [(c, chr(k) + "n" + chr(k), b" V ") for c in ("Simple", "Relaxed") for k in range(33, 127) if k != 58]

    def got(x):
        c, n, v = x
        r, fin = lib.step(it["key"], [35, 9], enum(CA, c), n, v)
        if r == "panic":
            return r
        out = data(fin.get(0, [35, 9]))
        return out

    def want(x):
        c, n, v = x
        return b"#\t" + specs.canonical_header(c, n, v)

    got(("Simple", "a", b" a"))
    words.compare(ctx, "canonicalize_header", cells, got, want, where(p, it))
    ctx.floor("cells compared", 5000)


LISTS = [
    [], ["From"], ["from"], ["To", "From"], ["From", "To"], ["To", "To"], ["TO", "to", "tO"], ["From", "From", "To", "From"],
    ["X"], ["X", "From", "X"], ["To", "X", "From", "To"], ["Fro"], ["Froms", "From"], ["Dkim-Signature", "From"], ["To", "From", "to", "x", "FROM"],
]
HEADS = [
    [], [("From", b" a")], [("From", b" a"), ("From", b" b")], [("To", b" 1"), ("From", b" a"), ("to", b" 2")],
    [("to", b" 1"), ("TO", b" 2 "), ("From", b"x"), ("tO", b"\r\n\t3")],
    [("From", b""), ("X", b" q  q"), ("x", b" r"), ("From", b"f")],
    [("DKIM-Signature", b" s; b=1"), ("From", b" z"), ("dkim-signature", b" t; b=2"), ("To", b"u")],
    [("Froms", b"1"), ("Fro", b"2"), ("From ".strip(), b"3")],
    [("A", b"same"), ("A", b"same"), ("B", b"same")],
]


def c02(ctx, p, lib):
    ctx.rule("composed decision tables of canonicalize_headers, compute_data_hash (digest as an ideal function) and the removal of the b= value agree with RFC 6376 3.5, 3.7 and 5.4.2 on all combinations of short headers and h= lists, and on tag lists")
    quick = ctx.tier == "quick"
    it = public(ctx, p, "canonicalize::canonicalize_headers")
    alpha = ["A", "a", "B", "AB"]
    heads = [(h, l) for h in HEADS for l in LISTS]
    seqs = [[]]
    for n in range(1, 5 if quick else 6):
        seqs += [s + [x] for s in seqs if len(s) == n - 1 for x in alpha]
    short = [s for s in seqs if len(s) <= 3]
    heads += [([(n, b" %d" % i) for i, n in enumerate(h)], l) for h in seqs for l in short
              if len(h) + len(l) <= (5 if quick else 7) or (len(h) == 4 and l in (["A", "A", "B"], ["a", "AB", "A"], ["B", "A", "B"]))]
    cells = [(c, h, l) for h, l in heads for c in ("Relaxed", "Simple")]

    def got(x):
        c, h, l = x
        return data(lib.value(it["key"], enum(CA, c), fields(h), [fn_(n) for n in l]))

    got(("Simple", HEADS[3], LISTS[3]))
    words.compare(ctx, "canonicalize_headers", cells, got, lambda x: specs.header_hash_data(x[0], x[1], x[2], None, None), where(p, it))

    it2 = public(ctx, p, "message_hash::compute_data_hash")
    owns = [("DKIM-Signature", " v=1; b=; x= y "), ("Dkim-signature", "\r\n\tb=;  a=b"), ("x", "")]
    for config in ("default", "pre-rfc8301"):
        pc = ctx.program(config)
        lc = lib if config == "default" else texts.lib(pc, digest, opaque=opaque)
        i2 = public(ctx, pc, "message_hash::compute_data_hash")
        cells = [(a, c, h, l, o) for a in (["Sha256"] if config == "default" else ["Sha256", "Sha1"]) for c in ("Relaxed", "Simple")
                 for h in HEADS for l in LISTS for o in owns]

        def got2(x):
            a, c, h, l, (n, v) = x
            return lc.value(i2["key"], enum(HA, a), enum(CA, c), fields(h), [fn_(y) for y in l], n, v)

        def want2(x):
            a, c, h, l, (n, v) = x
            return Opaque("digest", enum(HA, a), tuple(specs.header_hash_data(c, h, l, n, v.encode())))

        got2(cells[0])
        words.compare(ctx, config + "/compute_data_hash", cells, got2, want2, where(p, it2))

    b = p.find("verifier::verify::make_original_dkim_sig")
    if b is None:
        ctx.undecided("b= removal", "no such function; decided with the verification pipeline only")
    else:
        toks = ["b", "=", ";", " ", "a", "\r\n "]
        ws = set(words.upto(toks, 5 if quick else 6)) | set(words.upto(["b=1", "a=b", "bh=b=", ";", " ", "b =\r\n c"], 4))
        ws |= set(words.mutations(["v=1; b=xy z ;bh=q", " a = 1 ;\r\n b \r\n = 2\r\n 3; c=d;", "bh=b=;B=1;bb=2;b=3=;z=b=4", "z=a|b=c;x=1;b=;"], toks + ["\t", "B", "é", "\r\n"]))
        ws = sorted(w for w in ws if taglike(w))
        words.compare(ctx, "make_original_dkim_sig", ws, lambda s: lib.value(b["key"], s), specs.without_b, where(p, b))
    ctx.floor("cells compared", 3000)


def taglike(w):
    """The values it is used on: those parsed before (RFC 6376 tag lists without duplicates)."""
    from checks.taglist import reference
    r = reference(w)
    return isinstance(r, list) and any(n == "b" for n, _ in r)
