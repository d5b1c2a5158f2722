# properties: C21 C23 C34
"""Validated types: what their constructors let in, who else builds or changes them; the subdomain relation."""

import itertools
import re

from fn import Undecided
from main import Missing
from table import V, Unknown
import refs
import specs
import texts
import words

T = {
    "header::FieldName": "name",
    "header::FieldBody": "body",
    "header::HeaderFields": "header",
    "signature::DomainName": "domain",
    "signature::Selector": "selector",
    "signature::Identity": "identity",
}


def inner(v):
    while isinstance(v, V) and len(v.vals) == 1 and v.variant == v.path.split("::")[-1]:
        v = v.vals[0]
    return v


def result(v):
    """Content of a constructor's result, or "refused"."""
    if isinstance(v, V) and v.variant in ("Err", "None"):
        return "refused"
    if isinstance(v, V) and v.variant in ("Ok", "Some"):
        v = v.vals[0]
    return content(v)


def content(v):
    if isinstance(v, V) and v.path.endswith("::Identity"):
        d = dict(zip(v.names, v.vals))
        loc = d["local_part"]
        return (loc.vals[0] if loc.variant == "Some" else None, content(d["domain"]))
    v = inner(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, list) and v and all(isinstance(x, (tuple, list)) for x in v):
        return [(content(x[0]), as_bytes(content(x[1]))) for x in v]
    if isinstance(v, list) and all(isinstance(x, int) for x in v):
        return bytes(v)
    return v


def as_bytes(v):
    return v if isinstance(v, bytes) else bytes(v) if isinstance(v, list) else v.encode()


def words_for(kind, lib, quick):
    chars = [chr(c) for c in words.representatives(lib)]
    n = 0 if quick else 1
    if kind == "name":
        return {""} | set(chars) | {"a" + c for c in chars} | {c + "a" for c in chars} | set(words.upto(["a", ":", "-", " ", "\x7f", "é"], 3 + n))
    if kind == "body":
        ws = set(words.upto(["a", " ", "\t", "\r\n", "\r", "\n", "\x7f", "\xe9"], 5 + n)) | set(chr(i) for i in range(256))
        ws |= {x + chr(i) + y for i in range(256) for x, y in (("a", ""), ("", "a"), ("a\r\n ", ""), ("a\r\n", "b"), ("a\r\n \r\n", " b"))}
        ws |= set(words.mutations([" a\r\n b\r\n\tc", "a \r\n  b ", "x\r\n \x0c\r\n y"], [" ", "\r\n", "\r", "\n", "\t", "a", "\x00", "\x0b"]))
        return {w.encode("latin-1") for w in ws}
    if kind == "header":
        ws = set(words.upto(["a", ":", " ", "\n", "\r\n"], 6 + n))
        ws |= set(words.mutations(["A:b\nC: d\n e\n", "a:\r\n b\r\nc:d", "a:b\n \nc:d"], ["\n", "\r\n", "\r", " ", "\t", ":", "x", "é"]))
        return ws
    if kind in ("domain", "selector"):
        ws = set(words.upto(["a", "1", "-", ".", "_"], 5 + n)) | set(words.upto(["a", ".", "é", "\ufffd", "\u0130", "xn--", " ", "B"], 3 + n))
        ws |= {c for c in chars} | {"a" + c + "b" for c in chars} | {"a.b" + c for c in chars} | {c + "b.c" for c in chars}
        for k in (62, 63, 64, 65):
            ws |= {"a" * k, "a" * k + ".b", "b." + "a" * k, "é" + "a" * (k - 9), "é" * (k - 30)}
        for k in range(250, 256):
            x = ("a" * 49 + ".") * 6
            ws |= {x[:k - 1] + "b", x[:k], "b" * (k - 200) + "." + x[:199]}
        ws |= {"é" * 40 + "." + ("a" * 49 + ".") * k + "a" * j for k in (3, 4) for j in (0, 1, 5, 9, 10, 20)}
        ws |= {"a.xn--" + "4ca", "a.xn--", "xn--a.b", "A.B", "a.1b", "a.b1", "1.a", "1.1", "a.12", "a..b", ".a", "a.", "1"}
        return ws
    ws = set()
    for l in words.upto(["a", ".", "\"", "\\", " ", "é"], 4 + n):
        ws |= {l + "@b.c"}
    for c in chars:
        ws |= {c + "@b.c", "a." + c + "@b.c", "\"" + c + "\"@b.c", "\"\\" + c + "\"@b.c", "\"a\\\\" + c + "\"@b.c", "a" + c + "@b.c"}
    ws |= {"", "a", "@", "a@", "@b", "@b.c", "@1", "a@b@c.d", "\"a@b\"@c.d", "@@b.c", "a@-b.c", "a@b.c.", "a@b.1", " @b.c", "a@\ufffd.c"}
    for k in (63, 64, 65):
        ws |= {"a" * k + "@b.c", "\"" + "a" * (k - 2) + "\"@b.c", "é" * (k // 2) + "a" * (k % 2) + "@b.c", "é" * (k // 2 - 1) + "a" * (k % 2) + "aa@b.c",
               "é" * k + "@b.c"}
    return ws


def expected(kind, w):
    if kind == "name":
        return w if specs.field_name(w) else "refused"
    if kind == "body":
        return w if specs.field_body(w) else "refused"
    if kind == "header":
        h = specs.header(w)
        return "refused" if h is None else h
    if kind == "domain":
        return w if specs.domain(w) else "refused"
    if kind == "selector":
        return w if specs.selector(w) else "refused"
    i = specs.identity(w)
    return "refused" if i is None else i


def builders(p, adt):
    """Functions with an expression that builds a value of the type, or that pass on its constructor."""
    out = set()
    for k, f in p.local_fns():
        it = p.item_by_key.get(k)
        if it is not None and it["derived"]:
            continue
        for b in f["blocks"]:
            for y in refs.nodes(b):
                if isinstance(y, list) and len(y) > 2 and y[0] == "agg" and isinstance(y[1], list) and y[1][:2] == ["adt", adt]:
                    out.add(k)
                if isinstance(y, dict) and y.get("path") == adt:
                    out.add(k)
    return out


def exits(p, start, stop):
    """Functions visible from outside that lead to `start` without passing `stop` (by path)."""
    users = p.__dict__.get("_users")
    if users is None:
        users = p._users = {}
        for k, f in p.local_fns():
            for y, _ in refs.fn_refs(p, k):
                for x in (y.get("rcanon"), y.get("canon"), y.get("path")):
                    if x:
                        users.setdefault(x, set()).add(f["path"])
            if f.get("parent"):
                q = p.fns.get(f["parent"])
                users.setdefault(f["path"], set()).add(q["path"] if q else f["path"].rsplit("::{closure", 1)[0])
    items = p.__dict__.setdefault("_item_by_path", {p.fns[i["key"]]["path"]: i for i in p.items if i["key"] in p.fns})
    seen, work, out = set(), [p.fns[start]["path"]], set()
    while work:
        k = work.pop()
        if k in seen or k in stop:
            continue
        seen.add(k)
        it = items.get(k)
        if it is not None and it["reachable"] and (it["public"] or it["trait"]):
            out.add(it["key"])
        work += users.get(k, ())
    return out


def check(prop, ctx):
    p = ctx.program("default")
    lib = texts.lib(p)
    if prop == "C23":
        return within(ctx, p, lib)
    if prop == "C34":
        return idna(ctx, p, lib)
    ctx.rule("each public constructor's table accepts exactly the valid content (reference recognizers) and stores it unchanged, on words over its character classes; fields are not public, no public function gives mutable access, and no other function builds the type without one of these constructors")
    quick = ctx.tier == "quick"
    used = {}
    for adt, kind in T.items():
        if adt not in p.adts:
            raise Missing(adt)
        ctors = [n for n in (adt + "::new", "<%s as std::str::FromStr>::from_str" % adt) if p.find(n)]
        if kind == "header":
            ctors = ["<%s as std::str::FromStr>::from_str" % adt]
        if not ctors or p.find(ctors[-1]) is None:
            raise Missing("constructor of " + adt)
        used[adt] = ctors + [n for n in ("header::HeaderFields::new", "header::HeaderFields::from_vec") if kind == "header" and p.find(n)]
        for n in ctors:
            try:
                lib.value(n, b"a" if kind == "body" else "a.b")
            except Undecided:
                pass
        if kind == "identity":
            lib.value(ctors[0], "\"a\\b\"@c.d")
            lib.value(ctors[0], "a.b@c.d")
        cells = sorted(words_for(kind, lib, quick))
        for n in ctors:
            where = "%s %s" % (p.fns[p.find(n)["key"]]["span"], n)
            words.compare(ctx, n, cells, lambda w: result(lib.value(n, w)), lambda w: expected(kind, w), where)
    lists(ctx, p, lib)
    access(ctx, p, lib, used)
    ctx.count("functions analysed", len(lib.fns))
    ctx.floor("cells compared", 40000)
    ctx.sample(dict(constructor="signature::Identity::new", text="\"a b\"@c.d", expected=list(specs.identity("\"a b\"@c.d"))))


def idna(ctx, p, lib):
    ctx.rule("the tables of the constructors, composed with those of the conversions to A-label and U-label form: a text is accepted only if the IDNA library (stand-in) converts it both ways without error, and then the conversions return what the library makes of the whole text, never panicking")
    quick = ctx.tier == "quick"
    fold = specs.lower
    for adt in (DN, "signature::Selector"):
        kind = T[adt]
        ctors = [n for n in (adt + "::new", "<%s as std::str::FromStr>::from_str" % adt) if p.find(n)]
        conv = [adt + "::to_ascii", adt + "::to_unicode"]
        for n in conv + [adt + "::new"]:
            if p.find(n) is None:
                raise Missing(n)
        for n in ctors:
            lib.value(n, "a.b")
        cells = sorted(words_for(kind, lib, quick) | set(words.upto(["\u00e9", "\u00c9", ".", "xn--9ca", "XN--9CA", "A", "xn--xn---epa", "\u0130", "\ufffd", "xn--a"], 3 if quick else 4)))
        for n in ctors:
            where = "%s %s" % (p.fns[p.find(n)["key"]]["span"], n)
            for c, m in ((0, specs.to_ascii), (1, lambda w: specs.to_unicode(w)[0])):
                at = "%s %s" % (p.fns[p.find(conv[c])["key"]]["span"], conv[c])

                def got(w):
                    v = lib.value(n, w)
                    if v == "panic":
                        return "panic"
                    if result(v) == "refused":
                        return want(w)      # for whatever reason: not this property's
                    v = lib.value(conv[c], v.vals[0])
                    return v if v == "panic" else fold(content(v))

                def want(w):
                    u, ok = specs.to_unicode(w)
                    if specs.to_ascii(w) is None or not ok or specs.to_ascii(u) != specs.to_ascii(w):
                        return "refused"
                    return fold(m(w))
                words.compare(ctx, "%s then %s" % (n, conv[c]), cells, got, want, at)
    ctx.count("functions analysed", len(lib.fns))
    ctx.floor("cells compared", 8000)
    ctx.sample(dict(text="\u00e9.com", ascii=specs.to_ascii("\u00e9.com"), unicode="\u00e9.com"))


def lists(ctx, p, lib):
    """HeaderFields from parts."""
    n = "header::HeaderFields::from_vec"
    if p.find(n):
        fs = [("A", b"b"), ("a:", b""), ("", b"x"), ("B", b"a\n"), ("c", b""), ("d", b"a\r\n b")]
        cells = [[]] + [[x] for x in fs] + [[x, y] for x in fs for y in fs]
        ok = lambda c: c and all(specs.field_name(a) and specs.field_body(b) for a, b in c)
        words.compare(ctx, n, cells, lambda c: result(lib.value(n, [(a, list(b)) for a, b in c])),
                      lambda c: list(c) if ok(c) else "refused", p.find(n)["span"])
    n = "header::HeaderFields::new"
    if p.find(n):
        f = (lib.value("header::FieldName::new", "A").vals[0], lib.value("header::FieldBody::new", b"b").vals[0])
        words.compare(ctx, n, [0, 1, 2], lambda k: result(lib.value(n, [f] * k)), lambda k: [("A", b"b")] * k or "refused", p.find(n)["span"])


BAD = {"name": ["", "a:b", "a b"], "body": [b"\n", b"a\r\nb", b"\x00"], "header": ["", "a", " b"], "domain": ["", "a b", "-", "1"],
       "selector": ["", "a b", "-"]}
RAW = re.compile(r"&(?:'\w+ )?mut (?:str|\[u8\]|std::|alloc::|header::FieldName|header::FieldBody)")


def access(ctx, p, lib, ctors):
    for adt, kind in T.items():
        if kind == "identity":
            continue
        a = p.adts[adt]
        for v in a["variants"]:
            for f in v["fields"]:
                ctx.count("fields checked")
                if f["public"]:
                    ctx.violation("%s/field %s" % (adt, f["name"]), "field %s of %s is public, so its content can be set without validation" % (f["name"], adt), a["span"])
        for it in p.items:
            if not it["reachable"] or not (it["public"] or it["trait"]):
                continue
            for i in it["inputs"]:
                t = p.ty(i)
                if t.get("k") != "ref" or not t["s"].startswith("&mut") or p.ty(t["args"][0]).get("path") != adt:
                    continue
                out = p.ty(it["output"])["s"]
                if RAW.search(out):
                    ctx.violation("%s/%s" % (adt, it["pretty"]), "%s gives the content of %s away as %s, so it can be changed without validation" % (it["pretty"], adt, out), it["span"])
                else:
                    changed(ctx, p, lib, adt, kind, it)
        stop = {p.fns[p.find(n)["key"]]["path"] for n in ctors[adt]}
        for k in sorted(builders(p, adt)):
            ctx.count("building functions")
            for x in sorted(exits(p, k, stop)):
                it = p.item_by_key[x]
                other(ctx, p, lib, adt, kind, it)
    ctx.floor("fields checked", 5)
    ctx.floor("building functions", 5)


WORDS = ["", "A", "a", "B", ":", ";", "\n", "b", ".", "-", "a b", "1"]


def valid(kind, c):
    """Whether a content is one the constructors let in."""
    if kind == "header":
        return bool(c) and all(specs.field_name(a) and specs.field_body(b) for a, b in c)
    if kind == "body":
        return specs.field_body(c if isinstance(c, bytes) else bytes(c) if isinstance(c, list) else c.encode())
    return bool({"name": specs.field_name, "domain": specs.domain, "selector": specs.selector}[kind](c))


def changed(ctx, p, lib, adt, kind, it):
    """A function that takes a validated value by mutable reference must leave a valid one behind."""
    name = lib.value("header::FieldName::new", "A").vals[0]
    body = lib.value("header::FieldBody::new", b"b").vals[0]
    start = {"name": lambda: name, "body": lambda: body, "header": lambda: lib.value("header::HeaderFields::new", [(name, body)]).vals[0],
             "domain": lambda: lib.value(DN + "::new", "a.b").vals[0],
             "selector": lambda: lib.value("signature::Selector::new", "a.b").vals[0]}[kind]()
    choices, at = [], None
    for n, i in enumerate(it["inputs"]):
        t = p.ty(i)
        u = t
        while u.get("k") == "ref":
            u = p.ty(u["args"][0])
        s = u["s"]
        if t.get("k") == "ref" and t["s"].startswith("&mut") and u.get("path") == adt and at is None:
            at = n
            choices.append([start])
        elif re.fullmatch(r"str|(std::string::)?String|(std::boxed::)?Box<str>|std::borrow::Cow<.*str>", s):
            choices.append(WORDS)
        elif re.fullmatch(r"\[u8\]|(std::vec::)?Vec<u8>|(std::boxed::)?Box<\[u8\]>", s):
            choices.append([w.encode() for w in WORDS] + [b"\r\n", b"\r\n a", b"\x00"])
        elif s == "usize":
            choices.append([0, 1])
        elif s == "bool":
            choices.append([False, True])
        elif s in ("char", "u8"):
            choices.append([ord(w) for w in WORDS if w and len(w) == 1])
        elif u.get("path") == "header::FieldName":
            choices.append([name])
        elif u.get("path") == "header::FieldBody":
            choices.append([body])
        elif u.get("k") == "param":
            choices.append([lambda *a: False, lambda *a: True, [], "", "b"])
        else:
            choices = None
            break
    key = "%s/%s" % (adt, it["pretty"])
    if choices is None:
        ctx.undecided(key, "takes %s by mutable reference" % adt)
        return
    for args in itertools.islice(itertools.product(*choices), 400):
        try:
            v, final = lib.step(it["key"], *args)
            if v == "panic":
                continue
            after = final.get(at)
            ok = after is None or valid(kind, content(after))
        except (Undecided, Unknown, TypeError, AttributeError) as u:
            ctx.undecided(key, str(u))
            continue
        ctx.count("cells compared")
        if not ok:
            ctx.violation(key, "%s leaves an invalid %s behind: %r, with arguments %r" % (it["pretty"], adt, content(after), [a for n, a in enumerate(args) if n != at and not callable(a)]), it["span"])
            return


def other(ctx, p, lib, adt, kind, it):
    """A public function besides the constructors that builds the type: it must refuse invalid texts, too."""
    ins = [p.ty(i) for i in it["inputs"]]
    if len(ins) != 1 or not (re.search(r"str\b|String|\[u8\]|Vec<u8>|Cow<", ins[0]["s"]) or ins[0].get("k") == "param"):
        ctx.undecided("%s/%s" % (adt, it["pretty"]), "builds %s besides its constructors" % adt)
        return
    for w in BAD[kind]:
        try:
            v = lib.value(it["key"], w)
        except (Undecided, Unknown) as u:
            ctx.undecided("%s/%s" % (adt, it["pretty"]), str(u))
            return
        if v != "panic" and result(v) != "refused":
            ctx.violation("%s/%s" % (adt, it["pretty"]), "%s accepts %r as %s" % (it["pretty"], w, adt), it["span"])
            return


NAMES = ["example.com", "EXAMPLE.com", "mail.example.com", "a.mail.Example.COM", "xample.com", "badexample.com", "com", "example.org",
         "mail.example.com.example.org", "e.com", "-", "a-example.com", "ample.com", "example.co", "example.comm", "m.com", "ma.il.com",
         "b\u00fccher.de", "B\u00dcCHER.de", "xn--bcher-kva.de", "XN--BCHER-KVA.de", "www.b\u00fccher.de", "www.xn--bcher-kva.de", "xb\u00fccher.de", "xn--xbcher-9ya.de",
         "cher-kva.de", "x.\u00e9", "a.x.\u00e9", "xn--9ca", "\u00e9", "de"]


DN = "signature::DomainName"


def within(ctx, p, lib):
    ctx.rule("eq_or_subdomain_of's table holds exactly if the A-label forms are equal or the inner one ends in a dot and the outer one, on all pairs of a set of names covering every relation of labels and letter case; parsing a signature applies it to the domain of i= (inner) and d= (outer), for all these pairs")
    n = DN + "::eq_or_subdomain_of"
    if p.find(n) is None:
        raise Missing(n)
    names = [x for x in NAMES if specs.domain(x)]
    if ctx.tier != "quick":
        names += [x for x in words.upto(["a", ".", "B", "\u00e9", "b"], 5) if specs.domain(x)]
    mk = {x: lib.value(DN + "::new", x).vals[0] for x in names}
    cells = [(a, b) for a in names for b in names]
    words.compare(ctx, n, cells, lambda c: lib.value(n, mk[c[0]], mk[c[1]]), lambda c: specs.within(*c), "%s %s" % (p.find(n)["span"], n))
    f = "<signature::DkimSignature as std::str::FromStr>::from_str"
    if p.find(f) is None:
        raise Missing(f)

    def parse(c):
        v = lib.value(f, "v=1;a=rsa-sha256;b=YQ==;bh=YQ==;h=from;s=s;i=@%s;d=%s" % c)
        if v.variant == "Ok":
            return "accepted"
        return v.vals[0].vals[list(v.vals[0].names).index("kind")].variant
    few = ["example.com", "mail.EXAMPLE.com", "badexample.com", "com", "b\u00fccher.de", "www.xn--bcher-kva.de", "xb\u00fccher.de", "de"]
    pairs = cells if ctx.tier != "quick" else [(a, b) for a in few for b in few]
    words.compare(ctx, "i= and d=", pairs, parse, lambda c: "accepted" if specs.within(*c) else "DomainMismatch", "%s %s" % (p.find(f)["span"], f))
    ctx.floor("cells compared", 900)
    ctx.count("functions analysed", len(lib.fns))
    ctx.sample(dict(inner="www.b\u00fccher.de", outer="xn--bcher-kva.de", expected=True))
