# properties: C05 C35
"""Whole bodies in chunks, with the crate's own canonicalizers and body hasher: through the hasher, the verifier and the signer."""

import hashlib
import itertools
import random

from fn import Undecided, base_name, targ
from main import Missing
from table import Free, Opaque, Unknown, V, enum, opt
from checks import body
from checks.body import CANON, HA, Ref
from checks.signer import ED, FROM
import signing
import specs
import texts
import verifying

B = "message_hash::BodyHasherBuilder::"
HASHER = "message_hash::BodyHasher::"
GET = "message_hash::BodyHashResults::get"


def sha(alg, data):
    return hashlib.new(alg.lower(), data).digest()


def hashing(n, a):
    """The hash library; the state of a hash is what went into it."""
    b = base_name(n)
    upd = n.startswith("upd ")
    if b == "default" and targ(n) in ("Sha1", "Sha256"):
        return Opaque("H", targ(n), b"")
    if a and isinstance(a[0], Opaque) and a[0].name == "H":
        if b in ("update", "chain_update"):
            if not upd:
                return ()
            data = next((bytes(x) for x in a[1:] if isinstance(x, (bytes, list))), None)
            if data is None:
                raise Unknown(n)
            return Opaque("H", a[0].args[0], a[0].args[1] + data)
        if b in ("finalize", "finalize_fixed", "finalize_boxed"):
            return list(sha(*a[0].args))
        if b in ("into", "clone"):
            return a[0]
    if b in ("into", "to_vec", "into_boxed_slice", "as_slice", "deref", "from") and a and isinstance(a[0], (list, bytes)):
        return a[0]
    raise Free(n)


def either(*fs):
    def f(n, a):
        for x in fs[:-1]:
            try:
                return x(n, a)
            except Free:
                pass
        return fs[-1](n, a)
    return f


def canonical(kind, text):
    """None where the RFC leaves the canonical form open."""
    r = Ref(kind == "Relaxed")
    s, out = r.s, b""
    for c in text:
        s, o = r.step(s, c)
        out += o
    f = r.finish(s)
    return None if f is None else out + f


class Hasher:
    def __init__(self, p):
        for n in (B + "new", B + "register_canonicalization", B + "build", HASHER + "hash_chunk", HASHER + "finish", GET):
            if p.find(n) is None:
                raise Missing(n)
        self.p = p
        self.lib = texts.lib(p, hashing)

    @property
    def where(self):
        return "%s %shash_chunk" % (self.p.fns[self.p.find(HASHER + "hash_chunk")["key"]]["span"], HASHER)

    def start(self, fail, keys):
        b = self.lib.value(B + "new", fail)
        for k in keys:
            r, f = self.lib.step(B + "register_canonicalization", b, *self.key(k))
            if r == "panic":
                return r
            b = f[0]
        return self.lib.value(B + "build", b)

    def key(self, k):
        return opt(k[0]), enum(HA, k[1]), enum(CANON, k[2])

    def chunk(self, h, data):
        """(stance, hasher) or "panic"."""
        r, f = self.lib.step(HASHER + "hash_chunk", h, data)
        return r if r == "panic" else (r.variant, f[0])

    def results(self, h, keys):
        r = self.lib.value(HASHER + "finish", h)
        if r == "panic":
            return r
        return {k: body.plain(self.lib.value(GET, r, self.key(k))) for k in keys}

    def run(self, fail, keys, chunks):
        """(results after all chunks, results when stopping at Done or None), or "panic"."""
        h = self.start(fail, keys)
        done = None
        for c in chunks:
            r = h if h == "panic" else self.chunk(h, c)
            if r == "panic":
                return r
            st, h = r
            if st == "Done" and done is None:
                done = self.results(h, keys)
            elif st not in ("Done", "Interested"):
                raise Undecided("stance %r" % (st,))
        return ("panic" if h == "panic" else self.results(h, keys)), done


BODIES = [b"", b"\r\n", b"\r\n\r\n", b"a", b"a\r\n", b"a\r\n\r\n", b"a\r\n\r\n\r\nb", b" ", b" \r\n", b"a \r\n", b"a  b\r\n", b"\ta\r\n \t\r\n\r\nb \r\n\r\n",
          b"\r\n\r\na b", b"a\rb\r\n", b"a\nb\r\n", b"\r\r\n", b"\r\n \r\n", b"a\r\n \r\n\r\n", b"abc def\r\n", b"a\r", b"\xff\x00\r\n", b"..\r\n.\r\n"]


def splits(data, rng, more):
    """Ways of cutting a body into chunks."""
    out = [[data], [bytes([c]) for c in data], [b"", data, b""], []]
    out = out[:3] if data else [[], [b""]]
    for n in range(1, min(len(data), 7 if more else 4)):
        out.append([data[:n], data[n:]])
    for _ in range(3 if more else 1):
        cut = sorted(rng.randrange(len(data) + 1) for _ in range(3))
        out.append([data[a:b] for a, b in zip([0] + cut, cut + [len(data)])])
    return out


def want(key, fail, text):
    n, alg, canon = key
    total = canonical(canon, text)
    if total is None:
        return None
    if n is None:
        return ("ok", sha(alg, total), len(total))
    if len(total) < n:
        return ("err", "InsufficientInput")
    if fail and len(total) > n:
        return ("err", "InputTruncated")
    return ("ok", sha(alg, total[:n]), n)


def shape(r):
    return r if r is None or r[0] != "ok" else ("ok", bytes(r[1]), r[2])


def check(prop, ctx):
    if prop == "C35":
        return retained(ctx)
    ctx.rule("the composed tables of builder, hasher and canonicalizers give for whole bodies, however cut into chunks, the hash of the canonical body (reference transducer) up to the limit; stopping at Done changes no result")
    quick = ctx.tier == "quick"
    rng = random.Random(5)
    for config in ("default", "pre-rfc8301"):
        h = Hasher(ctx.program(config))
        algs = ("Sha256",) if config == "default" else ("Sha256", "Sha1")
        keys = [(n, a, c) for a in algs for n in (None, 0, 1, 2, 3, 5, 8) for c in ("Simple", "Relaxed")]
        # limits that are small ones in fewer bits
        keys += [((1 << w) + n, algs[0], c) for w in (8, 16, 32) for n in (0, 1, 2, 3) for c in ("Simple", "Relaxed")] + [(2 ** 64 - 1, algs[0], "Simple")]
        sets = [(k,) for k in keys] + [tuple(rng.sample(keys, 3)) for _ in range(6 if quick else 30)]
        bodies = BODIES + [bytes(rng.choice(b"ab \t\r\n") for _ in range(rng.randrange(3, 14))).replace(b"b", b"\r\n") for _ in range(6 if quick else 60)]
        if config != "default":
            bodies = bodies[::3]
        work = [(fail, ks, t, cs) for t in bodies for cs in splits(t, rng, not quick) for fail in (False, True) for ks in sets]
        if quick:
            work = rng.sample(work, min(len(work), 4500 if config == "default" else 1000))

        def one(item):
            fail, ks, text, cs = item
            try:
                r = h.run(fail, ks, cs)
            except (Undecided, Unknown) as u:
                return [("undecided", str(u))]
            if r == "panic" or r[0] == "panic" or r[1] == "panic":
                return [("violation", "panics")]
            out = []
            for when, x in zip(("at the end", "when stopping at Done"), r):
                for k in ks if x is not None else ():
                    w = want(k, fail, text)
                    if w is not None and (body.unknown(x[k]) or shape(x[k]) != w):
                        out.append(("undecided" if body.unknown(x[k]) else "violation", "%s the result for %s is %s, must be %s" % (when, k, shape(x[k]), w)))
            return out
        for (st, r), (fail, ks, text, cs) in zip(ctx.parallel(lambda i: one(work[i]), len(work)), work):
            key = "%s/fail=%s/%s/%s" % (config, fail, ks, cs)
            if st == "error":
                ctx.undecided(key, r)
                continue
            ctx.count("chunked bodies compared")
            for kind, msg in r:
                if kind == "undecided":
                    ctx.undecided(key, msg)
                else:
                    ctx.violation(key, "body in chunks %s, forbid partial %s, registered %s: %s" % (cs, fail, ks, msg), h.where)
        large(ctx, config, h)
    ends(ctx)
    ctx.floor("chunked bodies compared", 2000)


# -- long bodies ---------------------------------------------------------------------

def large(ctx, config, h):
    """The hasher after n octets is that after 8, but for a counter; so also where a narrow one ends."""
    for limit in (None, "beyond"):
        for n in ((1 << 8) - 2, (1 << 16) - 2, (1 << 31) - 2, (1 << 32) - 2):
            k = (None if limit is None else n + 4, "Sha256", "Simple")
            key = "%s/%d octets/limit %s" % (config, n, k[0])
            try:
                s = h.start(False, [k])
                a = h.chunk(s, b"a" * 8)[1]
                c = h.chunk(a, b"a")[1]
                ps = body.counting(*map(solid, (a, c)))
                if len(ps) != 1 or at(solid(a), ps[0]) != 8:
                    ctx.notes["counter of octets"] = "not a single counter"
                    return
                x = jump(a, 8, n)
                r = h.chunk(x, b"aaaaaa")
                got = "panic" if r == "panic" else h.results(r[1], [k])
            except (Undecided, Unknown) as u:
                ctx.undecided(key, str(u))
                continue
            ctx.count("large bodies")
            g = got if got == "panic" else shape(got[k])
            m = 6 if limit is None else 4
            w = ("ok", sha("Sha256", b"a" * (8 + m)), n + m)
            if limit is None:
                # the text still ends in a line break the canonicalizer adds
                w = ("ok", sha("Sha256", b"a" * 14 + b"\r\n"), n + 8)
            if g != w:
                ctx.violation(key, "after %d octets of canonical body, six more and limit %s give %s, must be %s octets hashed" % (n, k[0], g if g == "panic" or g is None or g[0] != "ok" else "%s octets hashed" % g[2], w[2]), h.where)


def solid(v):
    """The state without what the hash library holds, as nested values."""
    if isinstance(v, V):
        return V(v.path, v.variant, v.names, [solid(x) for x in v.vals])
    if isinstance(v, Opaque):
        return 0
    if isinstance(v, dict):
        v = sorted(v.items(), key=repr)
    if isinstance(v, (list, tuple, frozenset)):
        return V("seq", "seq", (), [solid(x) for x in v])
    return v


def at(v, path):
    for i in path:
        v = v.vals[i]
    return v


def jump(v, old, new):
    """The state with the only counter of that value set to another."""
    if isinstance(v, V):
        return V(v.path, v.variant, v.names, [jump(x, old, new) for x in v.vals], v.free)
    if isinstance(v, dict):
        return {k: jump(x, old, new) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(jump(x, old, new) for x in v)
    return new if type(v) is int and v == old else v


# -- through verifier and signer -------------------------------------------------------

def passes(opaque):
    return lambda n, info: opaque(n, info) and "BodyHash" not in n


class Verifying(verifying.Verifying):
    def __init__(self, prog):
        super().__init__(prog)
        self.lib = texts.lib(prog, either(hashing, self.oracle), opaque=passes(verifying.opaque))
        self.chunk = self.find("verifier::Verifier::process_body_chunk")

    def start(self, headers, answers, cfg):
        known = tuple((specs.lower(k), tuple(x)) for k, x in sorted(answers.items()))
        v = self.lib.value(self.header, Opaque("resolver", known), signing.fields(headers), verifying.config(cfg))
        if not isinstance(v, V) or v.variant != "Some":
            raise Undecided("result of verify_header: %s" % (v,))
        return v.vals[0]


class Signing(signing.Signing):
    def __init__(self, prog):
        super().__init__(prog)
        self.lib = texts.lib(prog, either(hashing, signing.oracle), opaque=passes(signing.opaque))
        self.chunk = self.find("signer::Signer::<T>::process_body_chunk")

    def start(self, headers, reqs):
        v = self.lib.value(self.prepare, signing.fields(headers), [self.request(r) for r in reqs])
        if not isinstance(v, V) or v.variant != "Ok":
            raise Undecided("result of prepare_signing: %s" % (v,))
        return v.vals[0]


def feed(x, v, chunks):
    for c in chunks:
        r, f = x.lib.step(x.chunk, v, c)
        if r == "panic":
            return r
        v = f[0]
    return v


def ends(ctx):
    """A signature made over a body in some chunks verifies over it in others, and over no other body."""
    quick = ctx.tier == "quick"
    p = ctx.program("default")
    s, v = Signing(p), Verifying(p)
    rng = random.Random(6)
    cells = []
    for text in BODIES if not quick else BODIES[1::2] + BODIES[:1]:
        for bc in ("Simple", "Relaxed"):
            for length in (None, "content", 0, 2, 4):
                for n, cut in enumerate(rng.sample(splits(text, rng, True), 2)):
                    other = rng.choice([text, text, text + b"\r\n", text + b"b", b"b" + text, text.replace(b"a", b"A")])
                    cells.append((text, bc, length, tuple(cut), other, tuple(rng.choice(splits(other, rng, True))), n == 1))

    def one(c):
        text, bc, length, cut, other, cut2, forbid = c
        r = dict(ED, bc=bc, length=length, sel="s", ts=1000, valid=None)
        total, total2 = canonical(bc, text), canonical(bc, other)
        x = feed(s, s.start(FROM, [r]), cut)
        if x == "panic":
            return "signing panics"
        rs = s.lib.value(s.sign, x)
        if rs == "panic":
            return "signing panics"
        o = s.output(rs[0])
        n = None if length is None else len(total) if length == "content" else length
        if n is not None and n > len(total):
            if isinstance(o, tuple):
                return None
            return "signed although the body has %d octets only" % len(total)
        if isinstance(o, tuple):
            return "signing gives %s" % (o,)
        if bytes(o["body_hash"]) != sha("Sha256", total[:n]):
            return "body hash %r is not that of %r" % (bytes(o["body_hash"]), total[:n])
        if o["body_length"] != n:
            return "body length %r, must be %r" % (o["body_length"], n)
        y = v.start(((o["name"], o["value"].encode()),) + FROM, {"s._domainkey.example.com.": [verifying.key_record(ED["key"])]}, dict(now=1000, forbid_unsigned_content=forbid))
        y = feed(v, y, cut2)
        rs = y if y == "panic" else v.lib.value(v.finish, y)
        if rs == "panic":
            return "verifying panics"
        st = [verifying.shape(q.get("status")) for q in rs]
        good = total2[:n] == total[:n] and (n is None or len(total2) >= n) and not (forbid and n is not None and len(total2) > n)
        if (st == [("Success",)] or st == ["Success"]) != good:
            return "verification of the body %r in chunks %s gives %s, must %ssucceed" % (other, list(cut2), st, "" if good else "not ")
        return None

    cells = [c for c in cells if canonical(c[1], c[0]) is not None and canonical(c[1], c[4]) is not None]
    for (st, r), c in zip(ctx.parallel(lambda i: guard(one, cells[i]), len(cells)), cells):
        key = "sign and verify/%r" % (c,)
        if st == "error" or isinstance(r, Undecided):
            ctx.undecided(key, str(r))
            continue
        ctx.count("signed bodies verified")
        if r is not None:
            ctx.violation(key, "body %r signed in chunks %s (%s, length %s): %s" % (c[0], list(c[3]), c[1], c[2], r), v.where)
    ctx.floor("signed bodies verified", 50)


def guard(f, c):
    try:
        return f(c)
    except (Undecided, Unknown) as u:
        return Undecided(str(u))


# -- C35 -----------------------------------------------------------------------------

def size(v):
    """Number of values a state holds, the hash library's apart."""
    if isinstance(v, (bytes, bytearray, str)):
        return len(v)
    if isinstance(v, V):
        return sum(map(size, v.vals))
    if isinstance(v, Opaque):
        if v.name == "H":
            return 1
        if v.name.startswith("?"):
            raise Unknown("part of the state: %s" % v.name)
        return 1 + sum(map(size, v.args))
    if isinstance(v, dict):
        v = list(v.items())
    if isinstance(v, (list, tuple, frozenset)):
        return sum(map(size, v))
    return 1


PATTERNS = {"text": b"abcdefg\r\n", "one line": b"abcdefghi", "empty lines": b"\r\n", "white space": b" \t", "blank lines": b" \r\n", "CR": b"\r", "LF": b"\n", "trailing white space": b"ab  \t \r\n", "NUL": b"\x00"}


def retained(ctx):
    ctx.rule("the composed tables of body chunk processing (verifier, signer, hasher, canonicalizers) are applied again and again to their own final state; the number of values in the state must not grow with the octets fed (what the hash library keeps apart)")
    p = ctx.program("default")
    n = 256 if ctx.tier == "quick" else 2048
    h, s, v = Hasher(p), Signing(p), Verifying(p)
    sig = "v=1; a=ed25519-sha256; c=simple/%s; d=example.com; s=s; h=from; %sbh=YWJj; b=YWJj"

    def state(what, pre):
        if what[0] == "hasher":
            x = h.start(what[1], what[2])
            f = lambda x, c: h.chunk(x, c)[1]
        elif what[0] == "verifier":
            x = v.start(tuple(("DKIM-Signature", (sig % t).encode()) for t in what[2]) + FROM, {"s._domainkey.example.com.": [verifying.key_record(ED["key"])]}, dict(now=1000, forbid_unsigned_content=what[1]))
            f = lambda x, c: feed(v, x, [c])
        else:
            x = s.start(FROM, [dict(ED, **d) for d in what[2]])
            f = lambda x, c: feed(s, x, [c])
        return (f(x, pre) if pre else x), f

    N, H1 = None, "Sha256"
    whats = [("hasher", fail, tuple((a, H1, c) for a in ls for c in cs)) for fail in (False, True) for ls in ((N,), (3,), (100,), (N, 3, 10 ** 6)) for cs in (("Simple",), ("Relaxed",), ("Simple", "Relaxed"))]
    whats += [("verifier", fail, t) for fail in (False, True) for t in ((("simple", ""),), (("relaxed", ""), ("simple", "l=3; ")), (("relaxed", "l=100000; "),))]
    whats += [("signer", False, t) for t in ((dict(bc="Simple"),), (dict(bc="Relaxed", length="content"), dict(bc="Simple", length=3)), (dict(bc="Relaxed", length=5000),))]
    cells = [(w, k, pre, cut) for w in whats for k in PATTERNS for pre in (b"", b"a\r\n") for cut in (1, 8)]

    for w in whats:
        try:
            state(w, b"a\r\n")
        except Undecided:
            pass

    def one(c):
        w, k, pre, cut = c
        x, f = state(w, pre)
        unit = (PATTERNS[k] * n)[:n]
        sizes = []
        for i in range(8):
            # a chunk of n octets, in parts
            for j in range(0, n, n // cut):
                x = f(x, unit[j:j + n // cut])
                if x == "panic":
                    return "panic"
            sizes.append(size(x))
        return sizes
    for (st, r), c in zip(ctx.parallel(lambda i: guard(one, cells[i]), len(cells)), cells):
        key = "%s/%s/%r/%d" % (c[0], c[1], c[2], c[3])
        if st == "error" or isinstance(r, Undecided):
            ctx.undecided(key, str(r))
            continue
        if r == "panic":
            continue
        ctx.count("sequences of chunks")
        grown = r[-1] - r[3]
        if grown >= n:
            where = {"hasher": h.where, "verifier": "%s verifier::Verifier::process_body_chunk" % p.fns[v.chunk]["span"], "signer": "%s signer::Signer::process_body_chunk" % p.fns[s.chunk]["span"]}[c[0][0]]
            ctx.violation(key, "the state of the %s grows with the body: it holds %s values after each %d octets of %s" % (c[0][0], r, n, c[1]), where)
        elif grown > 0:
            ctx.undecided(key, "sizes %s" % r)
    ctx.count("functions analysed", len(h.lib.fns) + len(s.lib.fns) + len(v.lib.fns))
    ctx.floor("sequences of chunks", 100)
    ctx.sample(dict(state="hasher", sizes_after_each=8, of="the same chunk"))
