# properties: C03 C05
"""Body canonicalization as a finite-state transducer.

The tables of `new`, `canonicalize_chunk` and `finish` give the transition
function on abstract states and single bytes.  Its product with an independent
reference transducer is explored, the pending difference of the two outputs
being part of the product state, so all byte sequences are covered whose runs
of empty lines stay below the bound on counters."""

import table
from fn import Fn, TypedEngine, Undecided, argnames, base_name, targ
from main import Missing
from table import Opaque, Panics, Unknown, V, enum

CANON = "signature::CanonicalizationAlgorithm"
TYPE = "canonicalize::BodyCanonicalizer"
CONFIG = "default"


class Ref:
    """RFC 6376, 3.4.3 and 3.4.4, read byte by byte."""

    def __init__(self, relaxed, empties=0, text=False, wsp=False, cr=False, any_=False):
        self.s = (relaxed, empties, text, wsp, cr, any_)

    def put(self, s, b):
        relaxed, n, text, wsp, cr, any_ = s
        out = b"\r\n" * n + (b" " if wsp else b"") + bytes([b])
        return (relaxed, 0, True, False, False, True), out

    def step(self, s, b):
        out = b""
        relaxed, n, text, wsp, cr, any_ = s
        if cr:
            if b == 10:
                if text:
                    return (relaxed, n, False, False, False, any_), b"\r\n"
                return (relaxed, n + 1, False, False, False, any_), b""
            s, out = self.put((relaxed, n, text, wsp, False, any_), 13)
            relaxed, n, text, wsp, cr, any_ = s
        if b == 13:
            return (relaxed, n, text, wsp, True, any_), out
        if relaxed and b in (9, 32):
            return (relaxed, n, text, True, False, any_), out
        s, o = self.put(s, b)
        return s, out + o

    def finish(self, s):
        """Final output, or None where the RFC leaves it open."""
        out = b""
        if s[4]:
            s, out = self.put(s[:4] + (False,) + s[5:], 13)
        relaxed, n, text, wsp, cr, any_ = s
        if wsp:
            return None
        if text:
            return out + b"\r\n"
        if not any_ and not relaxed:
            return out + b"\r\n"
        return out


def as_bytes(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (list, tuple)) and all(isinstance(x, int) for x in v):
        return bytes(v)
    if isinstance(v, list):
        out = b""
        for x in v:
            out += bytes([x]) if isinstance(x, int) else as_bytes(x)
        return out
    raise Undecided("output %r" % (v,))


CLASSES = [9, 32, 13, 10, 97]
NAMES = {9: "\\t", 32: " ", 13: "\\r", 10: "\\n"}


def show(word):
    return "".join(NAMES.get(b, chr(b) if 32 < b < 127 else "\\x%02x" % b) for b in word)


def check(prop, ctx):
    (c03 if prop == "C03" else c05)(ctx)


def c03(ctx):
    ctx.rule("product of the extracted transition function of the canonicalizer with a reference transducer, over all reachable pairs of states; every byte value from every reached state, and chunks of several bytes, must behave as the single steps")
    p = ctx.program(CONFIG)
    fs = {}
    for m in ("new", "canonicalize_chunk", "finish"):
        it = p.find("%s::%s" % (TYPE, m))
        if it is None:
            raise Missing("%s::%s" % (TYPE, m))
        fs[m] = Fn(p, it)
        ctx.count("functions analysed", len(fs[m].engine.followed))
    names = {m: argnames(p, f) for m, f in fs.items()}
    self_, bytes_ = names["canonicalize_chunk"]
    bound = 4 if ctx.tier == "quick" else 9

    def step(v, word):
        r, v2 = fs["canonicalize_chunk"].step({self_: v, bytes_: bytes(word)}, self_)
        if r == ("panic",):
            return "panic", None
        return as_bytes(r), v2

    def fin(v):
        r = fs["finish"].value({names["finish"][0]: v})
        return "panic" if r == ("panic",) else as_bytes(r)

    def guarded(key, f):
        try:
            return f()
        except (Undecided, Unknown) as u:
            ctx.undecided(key, u)
            return None

    where = fs["canonicalize_chunk"].where
    for kind in ("Simple", "Relaxed"):
        v0 = guarded(kind + "/new", lambda: fs["new"].value({names["new"][0]: enum(CANON, kind)}))
        if v0 is None:
            continue
        ref = Ref(kind == "Relaxed")
        # product exploration: (state, reference state, pending difference)
        seen = {}
        work = [(v0, ref.s, b"", b"", b"")]
        todo = []
        bad = False

        def report(word, got, want, where_):
            ctx.violation("%s/%s" % (kind, show(word)), "%s canonicalization of the body \"%s\" gives %r, must be %r" % (kind.lower(), show(word), got, want), where_)
        while work and len(ctx.violations) < 3:
            v, r, ahead, behind, word = work.pop(0)
            k = (repr(v), r, ahead, behind)
            if k in seen or r[1] > bound or max(len(ahead), len(behind)) > 24:
                continue
            seen[k] = (v, r, ahead, behind, word)
            ctx.count("product states")
            o = guarded("%s/finish %s" % (kind, show(word)), lambda: fin(v))
            w = ref.finish(r)
            if o is not None and w is not None:
                ctx.count("transitions compared")
                if o == "panic" or ahead + o != behind + w:
                    report(word, "a panic" if o == "panic" else "…" + repr(ahead + o), b"..." + behind + w, fs["finish"].where)
            for b in CLASSES:
                s = guarded("%s/step %s" % (kind, show(word + bytes([b]))), lambda: step(v, [b]))
                if s is None:
                    continue
                ctx.count("transitions compared")
                o, v2 = s
                r2, w = ref.step(r, b)
                if o == "panic":
                    report(word + bytes([b]), "a panic", "output", where)
                    continue
                a, c = ahead + o, behind + w
                n = min(len(a), len(c))
                if a[:n] != c[:n]:
                    report(word + bytes([b]), "…" + repr(a), c, where)
                    continue
                work.append((v2, r2, a[n:], c[n:], word + bytes([b])))
        states = {}
        for v, r, a, c, word in seen.values():
            states.setdefault(repr(v), (v, r, a, c, word))
        states = list(states.values())
        ctx.count("canonicalizer states", len(states))
        if len(seen) > 4000:
            ctx.undecided(kind, "too many states")
        if ctx.violations:
            continue
        # every byte value
        first = [x for x in states if ctx.tier != "quick" or x[1][1] < 2]
        for v, r, ahead, behind, word in first:
            for b in range(256):
                if b in CLASSES:
                    continue
                s = guarded("%s/byte %d" % (kind, b), lambda: step(v, [b]))
                if s is None:
                    continue
                ctx.count("bytes compared")
                r2, w = ref.step(r, b)
                if s[0] == "panic" or ahead + s[0] != behind + w:
                    report(word + bytes([b]), s[0] if s[0] == "panic" else ahead + s[0], behind + w, where)
                    break
        # a chunk is the sequence of its bytes
        depth = 2 if ctx.tier == "quick" else 4
        words = [b""]
        layer = [b""]
        for _ in range(depth):
            layer = [w + bytes([b]) for w in layer for b in CLASSES if b != 9]
            words += layer
        words += [b"\r\n" * 5, b"a" * 9, b" \t" * 4, b"a \r\n\r\n \r\nb", b"\r" * 6, b"abc\r\ndef \r\n", b"  a  b  \r\n  \r\n",
                  b"\r\na\r\n\r\n", b" \r \n \r\n", b"aaaaaaaa\r\n" * 3]
        for v, r, ahead, behind, word in states:
            if r[1] > 2:
                continue
            for w in words:
                s = guarded("%s/chunk %s then %s" % (kind, show(word), show(w)), lambda: step(v, w))
                if s is None:
                    continue
                ctx.count("chunks compared")
                want, rr = b"", r
                for b in w:
                    rr, x = ref.step(rr, b)
                    want += x
                got = s[0]
                if got == "panic":
                    report(word + w, "a panic", want, where)
                    break
                a, c = ahead + got, behind + want
                n = min(len(a), len(c))
                f = guarded("%s/chunk finish" % kind, lambda: fin(s[1]))
                wf = ref.finish(rr)
                if a[:n] != c[:n] or (f is not None and wf is not None and (f == "panic" or a + f != c + wf)):
                    report(word + w, a + (f if isinstance(f, bytes) else b""), c + (wf or b""), where)
                    break
        # long runs of empty lines, around the constants of the code and of narrow counters
        runs = {6, 7, 8, 15, 16, 17, 31, 32, 33}
        if ctx.tier != "quick":
            runs |= {63, 64, 65, 127, 128, 255, 256, 257}
        table.LIMIT = 2000
        for pre in (b"", b"x\r\n"):
            counter(ctx, kind, v0, pre, step, guarded, report, where)
        for n in sorted(runs):
            for pre in (b"", b"x\r\n"):
                word = pre + b"\r\n" * n
                ctx.count("long runs")

                def run():
                    v, out = v0, b""
                    for w in (word, b"y"):
                        o, v = step(v, w)
                        if o == "panic":
                            return "panic"
                        out += o
                    return out
                got = guarded("%s/run of %d" % (kind, n), run)
                if got is not None and got != word + b"y":
                    report(word + b"y", got, word + b"y", where)
    ctx.floor("transitions compared", 60)
    ctx.floor("chunks compared", 100)


def counting(a, b):
    """Paths to the integers in a state that the next state has larger by one."""
    if isinstance(a, V) and isinstance(b, V) and a.path == b.path and a.variant == b.variant and len(a.vals) == len(b.vals):
        return [(i,) + x for i, (y, z) in enumerate(zip(a.vals, b.vals)) for x in counting(y, z)]
    if type(a) is int and type(b) is int and b == a + 1:
        return [()]
    return []


def at(v, path):
    for i in path:
        v = v.vals[i]
    return v


def put(v, path, x):
    return x if not path else v.set(path[0], put(v.vals[path[0]], path[1:], x))


def counter(ctx, kind, v0, pre, step, guarded, report, where):
    """The state after n empty lines is the state after 3, but for a counter;
    so also where a narrow counter ends."""
    def states():
        _, v = step(v0, pre)
        out = []
        for _ in range(4):
            _, v = step(v, b"\r\n")
            out.append(v)
        return out
    vs = guarded("%s/empty lines" % kind, states)
    if vs is None:
        return
    ps = counting(vs[1], vs[2])
    if len(ps) != 1 or repr(put(vs[2], ps[0], 0)) != repr(put(vs[3], ps[0], 0)) or at(vs[3], ps[0]) != at(vs[2], ps[0]) + 1:
        ctx.notes["counter %s" % kind] = "not a single counter"
        return
    off = at(vs[2], ps[0]) - 3
    for n in (254, 255, 256, 32767, 65534, 65535, 65536, 1 << 31, (1 << 32) - 1):
        ctx.count("counts of empty lines")
        v = put(vs[2], ps[0], n + off)
        s = guarded("%s/after %d empty lines" % (kind, n), lambda: step(v, b"\r\n"))
        if s is None:
            continue
        if s[0] == "panic" or s[0] != b"" or repr(s[1]) != repr(put(v, ps[0], n + 1 + off)):
            if s[0] != "panic" and n < 70000:
                # the state differs: does the output?
                s = guarded("%s/after %d empty lines, text" % (kind, n), lambda: step(s[1], b"y"))
                if s is None or s[0] == b"\r\n" * (n + 1) + b"y":
                    continue
            elif s[0] != "panic":
                ctx.undecided("%s/after %d empty lines" % (kind, n), "other state")
                continue
            ctx.violation("%s/%d empty lines" % (kind, n + 1), "%s canonicalization of %d empty lines followed by text gives %s" % (
                kind.lower(), n + 1, "a panic" if s[0] == "panic" else "%d octets, must be %d" % (len(s[0]), 2 * n + 3)), where)
            return


# -- C05 -----------------------------------------------------------------------

MH = "message_hash::"
HA = "crypto::HashAlgorithm"


class Canon:
    """An ideal canonicalizer: `outs[kind][i]` is its output for chunk number i."""

    def __init__(self, outs, finals):
        self.outs, self.finals = outs, finals

    def __call__(self, n, a):
        b = base_name(n)
        upd = n.startswith("upd ")
        if "BodyCanonicalizer" in n:
            if b == "new":
                return Opaque("canon", a[0].variant, ())
            k, seen = a[0].args
            if b == "finish":
                if upd:
                    raise Unknown(n)
                return self.finals[k]
            if b == "clone":
                return a[0]
            if upd:
                return Opaque("canon", k, seen + (bytes(a[2] if len(a) > 3 else a[1]),))
            i = len(seen)
            return self.outs[k][i] if i < len(self.outs[k]) else b""
        if b == "default" and targ(n):
            return Opaque("H", targ(n), b"")
        if upd and b == "update" and isinstance(a[0], Opaque) and a[0].name == "H":
            data = next((bytes(x) for x in a[1:] if isinstance(x, (bytes, list))), None)
            if data is None:
                raise Unknown(n)
            return Opaque("H", a[0].args[0], a[0].args[1] + data)
        if b in ("update", "chain_update"):
            return ()
        if b in ("finalize", "finalize_fixed", "finalize_boxed") and isinstance(a[0], Opaque):
            return Opaque("digest", *a[0].args)
        if b in ("into", "to_vec", "clone", "into_boxed_slice", "as_slice", "deref", "from"):
            return a[0]
        raise table.Free(n)


FNS = [("new", "BodyHasherBuilder::new"), ("register", "BodyHasherBuilder::register_canonicalization"),
       ("build", "BodyHasherBuilder::build"), ("chunk", "BodyHasher::hash_chunk"), ("finish", "BodyHasher::finish"),
       ("get", "BodyHashResults::get")]


class Hasher:
    def __init__(self, ctx, config):
        p = ctx.program(config)
        self.f, self.a = {}, {}
        for k, n in FNS:
            it = p.find(MH + n)
            if it is None:
                raise Missing(MH + n)
            self.f[k] = Fn(p, it, opaque=lambda n, i: "BodyCanonicalizer::" in n, cls=TypedEngine)
            self.a[k] = argnames(p, self.f[k])
            ctx.count("functions analysed", len(self.f[k].engine.followed))

    def run(self, fail, keys, outs, finals, nchunks, others=()):
        """[(stance after each chunk)], {key: result}"""
        o = Canon(outs, finals)
        b = self.f["new"].value(dict(zip(self.a["new"], [fail])), o)
        for ln, alg, canon in keys:
            vals = [b, table.opt(ln), enum(HA, alg), enum(CANON, canon)]
            r, b = self.f["register"].step(dict(zip(self.a["register"], vals)), self.a["register"][0], o)
            if r == ("panic",):
                return "panic", None
        h = self.f["build"].value(dict(zip(self.a["build"], [b])), o)
        stances = []
        for i in range(nchunks):
            r, h = self.f["chunk"].step(dict(zip(self.a["chunk"], [h, b"<%d>" % i])), self.a["chunk"][0], o)
            if r == ("panic",):
                return "panic", None
            stances.append(r.variant)
        res = self.f["finish"].value(dict(zip(self.a["finish"], [h])), o)
        if res == ("panic",):
            return "panic", None
        out = {}
        for k in list(keys) + list(others):
            kv = (table.opt(k[0]), enum(HA, k[1]), enum(CANON, k[2]))
            r = self.f["get"].value(dict(zip(self.a["get"], [res, kv])), o)
            out[k] = r
        return stances, out


def plain(r):
    """Result as ("ok", digest, count), ("err", kind) or None."""
    if r.variant == "None":
        return None
    r = r.vals[0]
    if r.variant == "Err":
        return ("err", r.vals[0].variant)
    return ("ok", r.vals[0][0], r.vals[0][1])


def unknown(x):
    if isinstance(x, Opaque):
        return x.name.startswith("?") or any(map(unknown, x.args))
    if isinstance(x, V):
        return any(map(unknown, x.vals))
    return isinstance(x, (tuple, list)) and any(map(unknown, x))


def expected(key, fail, total):
    n, alg, canon = key
    if n is None:
        return ("ok", Opaque("digest", alg, total), len(total))
    if len(total) < n:
        return ("err", "InsufficientInput")
    if fail and len(total) > n:
        return ("err", "InputTruncated")
    return ("ok", Opaque("digest", alg, total[:n]), n)


def c05(ctx):
    ctx.rule("the tables of the body hasher builder, the hasher and the results are evaluated on sequences of canonicalizer outputs (the canonicalizers ideal), and compared with the specification of each registered key's result and of the stance")
    for config in ("default", "pre-rfc8301"):
        h = Hasher(ctx, config)
        p = ctx.program(config)
        lits = set()
        for f in h.f.values():
            for o in f.outs:
                for k, v in o.state.facts.items():
                    for y in table.walk(k):
                        if y[0] == "int":
                            lits.add(y[1])
        S, R = "Simple", "Relaxed"
        outs = [
            ({S: [b"abcd"], R: [b"xy"]}, {S: b"", R: b"z"}),
            ({S: [b"ab", b"", b"cd"], R: [b"x", b"yz", b""]}, {S: b"ef", R: b""}),
            ({S: [b"", b"abc"], R: [b"wx", b"yz"]}, {S: b"", R: b"vw"}),
            ({S: [], R: []}, {S: b"\r\n", R: b""}),
            ({S: [b"ab", b"cd", b"ef"], R: [b"ab", b"cd", b"ef"]}, {S: b"gh", R: b"gh"}),
        ]
        H1 = "Sha256"
        lens = [None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]
        singles = [[(n, H1, c)] for n in lens for c in (S, R)]
        pairs = [[(a, H1, ca), (b, H1, cb)] for a in (None, 0, 2, 3) for b in (None, 2, 4, 8) for ca in (S, R) for cb in (S, R) if (a, ca) != (b, cb)]
        many = [[(None, H1, S), (2, H1, S), (4, H1, R), (None, H1, R)], [(0, H1, S), (1, H1, S), (3, H1, S), (100, H1, S)]]
        dup = [[(2, H1, S), (2, H1, S)], [(None, H1, R), (None, H1, R), (3, H1, R)]]
        sets = singles + many + dup + [[]]
        if config != "default":
            sets = [[(n, "Sha1", c), (n, H1, c)] for n in (None, 2, 4) for c in (S, R)] + [[(2, "Sha1", S), (4, H1, S)]]
        elif ctx.tier == "quick":
            sets += pairs[::3]
        else:
            sets += pairs
            big = sorted(x for x in lits if 12 < x < 5000)
            sets += [[(x + d, H1, S)] for x in big for d in (-1, 0, 1)]
        bigs = sorted(x for x in lits if 12 < x < 70000)[:4]
        for x in bigs + [100]:
            outs.append(({S: [b"q" * x, b"r"], R: [b"q" * (x - 1), b"qq"]}, {S: b"", R: b"s"}))
        work = [(fail, ks, o) for fail in (False, True) for ks in sets for o in outs]

        def one(item):
            fail, ks, (outs_, fin) = item
            n = max(len(x) for x in outs_.values())
            key = "%s/fail=%s/%s/%s" % (config, fail, ks, [x[:12] for x in outs_[S] + outs_[R]])
            res = []
            try:
                st, out = h.run(fail, list(ks), outs_, fin, n)
            except (Undecided, Unknown) as u:
                return [("undecided", key, str(u))]
            if st == "panic":
                return [("violation", key, "panics")]
            for k in ks:
                total = b"".join(outs_[k[2]]) + fin[k[2]]
                got, want = plain(out[k]), expected(k, fail, total)
                if unknown(got):
                    res.append(("undecided", key, repr(got)))
                elif got != want:
                    res.append(("violation", key + "/%s" % (k,), "body hash for %s with canonical chunks %s and final %r, forbid partial %s: is %s, must be %s" % (
                        k, outs_[k[2]], fin[k[2]], fail, got, want)))
            for i, s in enumerate(st):
                done = all(k[0] is not None and (len(b"".join(outs_[k[2]][:i + 1])) > k[0] or (not fail and len(b"".join(outs_[k[2]][:i + 1])) == k[0])) for k in ks)
                if s == "Done" and not done:
                    res.append(("violation", key + "/stance %d" % i, "reports Done after chunk %d although further input can change a result" % i))
                elif s not in ("Done", "Interested"):
                    res.append(("undecided", key, s))
            return res
        for (st, r), w in zip(ctx.parallel(lambda i: one(work[i]), len(work)), work):
            if st == "error":
                ctx.undecided("%s/%r" % (config, w), r)
                continue
            ctx.count("cells compared")
            for x in r:
                if x[0] == "undecided":
                    ctx.undecided(x[1], x[2])
                else:
                    ctx.violation(x[1], x[2], h.f["chunk"].where)
        # a key that was never registered has no result
        others = [(4, H1, S), (3, H1, R), (None, H1, S)]
        try:
            _, o = h.run(False, [(3, H1, S)], {S: [b"abc"], R: [b"abc"]}, {S: b"", R: b""}, 1, others)
            for k in others:
                ctx.count("cells compared")
                if plain(o[k]) is not None:
                    ctx.violation("%s/unregistered %s" % (config, k), "there is a result for %s, which was not registered" % (k,), h.f["get"].where)
        except (Undecided, Unknown) as u:
            ctx.undecided(config + "/one key", u)
    ctx.floor("cells compared", 200)
