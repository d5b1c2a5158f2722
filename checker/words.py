"""Words over classes of characters, and comparison of a function with a specification on them."""

import itertools
import multiprocessing

import summ
from engine import INT, walk
from fn import Undecided
from table import Opaque, Panics, Unknown, V, freeze

TOP = 0x10FFFF


def cuts(lib):
    """Character codes at which the guards extracted so far change their answer."""
    out = {0, TOP + 1}
    for f in lib.fns.values():
        ts = []
        for o in f.outs:
            ts += list(o.state.facts.items())
            if o.value is not None:
                ts.append((o.value, None))
        for r in f.engine.recs.values() if isinstance(f.engine.recs, dict) else f.engine.recs:
            for dl, w, _ in r.conts:
                ts += list(dl.items() if isinstance(dl, dict) else dl)
                ts += [(x, None) for x in w.values()]
        for k, v in ts:
            if k[0] == "rng" and isinstance(v, tuple):
                for lo, hi in v:
                    out |= {lo, hi + 1}
            for x in (k, v) if isinstance(v, tuple) else (k,):
                for y in walk(x):
                    if y[0] == INT and isinstance(y[1], int):
                        out |= {y[1], y[1] + 1}
                    elif y[0] in ("inset", "pred") and isinstance(y[-1], tuple):
                        for r in y[-1]:
                            if isinstance(r, tuple) and len(r) == 2 and all(isinstance(q, int) for q in r):
                                out |= {r[0], r[1] + 1}
                    elif y[0] == "str":
                        for c in y[1]:
                            out |= {ord(c), ord(c) + 1}
    return sorted(c for c in out if isinstance(c, int) and 0 <= c <= TOP + 1)


def representatives(lib, extra=()):
    """One character of every class the guards distinguish (both ends of each), no surrogates."""
    c = cuts(lib)
    out = set(extra)
    for lo, hi in zip(c, c[1:]):
        for x in (lo, hi - 1, lo + 1, (lo + hi) // 2):
            if lo <= x < hi and not 0xD800 <= x <= 0xDFFF:
                out.add(x)
    out |= {0x7F, 0x80, 0xE9, 0x4E2D, 0x1F600}
    return sorted(out)


def upto(tokens, n):
    for k in range(n + 1):
        for w in itertools.product(tokens, repeat=k):
            yield "".join(w)


def mutations(words, tokens):
    """Every insertion, replacement and deletion of one token."""
    for w in words:
        yield w
        for i in range(len(w) + 1):
            for t in tokens:
                yield w[:i] + t + w[i:]
                if i < len(w):
                    yield w[:i] + t + w[i + 1:]
            if i < len(w):
                yield w[:i] + w[i + 1:]


def plain(v):
    """A value without type names: (variant, fields) and the like."""
    if isinstance(v, V):
        if len(v.vals) == 1 and v.variant == v.path.split("::")[-1]:
            return plain(v.vals[0])
        if not v.vals:
            return v.variant
        if v.names and not v.names[0].isdigit():
            return (v.variant, dict(sorted((n, plain(x)) for n, x in zip(v.names, v.vals))))
        return (v.variant,) + tuple(plain(x) for x in v.vals)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    return v


def unknown(v):
    """Whether a value contains a placeholder for something left open."""
    if isinstance(v, Opaque):
        return v.name.startswith("?") or any(unknown(x) for x in v.args)
    if isinstance(v, V):
        return any(unknown(x) for x in v.vals)
    if isinstance(v, (list, tuple, frozenset)):
        return any(unknown(x) for x in v)
    if isinstance(v, dict):
        return any(unknown(x) or unknown(k) for k, x in v.items())
    return False


class OneOf(list):
    """Any of several results."""

    def __ne__(self, other):
        return all(x != other for x in self)

    def __eq__(self, other):
        return any(x == other for x in self)


def show(s):
    return repr(s) if len(repr(s)) < 300 else repr(s)[:300] + "…"


def compare(ctx, what, cells, got, want, where, cap=3, unit="cells compared"):
    """Compares got(c) with want(c) in every cell; want may return None for cells left open.

    got raises Undecided / Unknown where the tables do not decide the cell.
    """
    cells = list(cells)
    only = getattr(ctx, "only", None)      # C29: the results to look for, in place of a comparison

    def one(i):
        lo, hi = bounds[i]
        bad, und, n = [], [], 0
        for c in cells[lo:hi]:
            w = want(c)
            if w is None and only is None:
                continue
            n += 1
            del summ.PANICS[:]
            try:
                g = got(c)
                if unknown(g):
                    raise Undecided("partly open: %s" % show(g))
            except (Undecided, Unknown) as u:
                und.append((c, str(u)))
                continue
            if only(g) if only else g != w:
                bad.append((c, g, w, summ.PANICS[0] if summ.PANICS else None))
                if len(bad) >= cap:
                    break
        return bad, und[:5], n, len(und)

    step = max(1, min(400, len(cells) // 24 + 1))
    bounds = [(i, min(i + step, len(cells))) for i in range(0, len(cells), step)]
    if len(cells) > 200:
        res = ctx.parallel(one, len(bounds))
    else:
        res = [("ok", one(i)) for i in range(len(bounds))]
    nbad = 0
    for kind, r in res:
        if kind != "ok":
            ctx.undecided(what + "/error", r)
            continue
        bad, und, n, nu = r
        ctx.count(unit, n)
        for c, u in und:
            ctx.undecided("%s/%s" % (what, show(c)), u)
        for c, g, w, at in bad:
            nbad += 1
            if nbad <= cap and only:
                ctx.violation("%s/%s" % (what, show(c)), "%s on %s panics%s" % (what, show(c), " in " + at[0] if at else ""), at[1] if at else where)
            elif nbad <= cap:
                ctx.violation("%s/%s" % (what, show(c)), "%s on %s gives %s, must be %s" % (what, show(c), show(g), show(w)), where)
    return nbad
