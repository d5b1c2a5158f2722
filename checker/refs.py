"""References between functions, types and statics, read from the MIR."""

def nodes(x):
    """All lists and dicts inside a MIR fragment."""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            yield y
            stack.extend(y.values())
        elif isinstance(y, list):
            yield y
            stack.extend(y)


def fn_refs(p, key):
    """Functions mentioned in a body, called or passed on: [(info, span or None)]."""
    f = p.fns[key]
    cache = f.get("_refs")
    if cache is None:
        cache = f["_refs"] = []
        for bb in f["blocks"]:
            span = bb[1][5] if bb[1][0] == "call" else None
            for y in nodes(bb):
                if isinstance(y, dict) and "path" in y and "krate" in y:
                    y.setdefault("rpath", y["path"])
                    y.setdefault("local", False)
                    cache.append((y, span or f["span"]))
    return cache


def calls(p, key):
    """Call terminators: [(info or None, argument operands, destination, span)]."""
    for bb in p.fns[key]["blocks"]:
        t = bb[1]
        if t[0] == "call":
            c = t[1][1] if t[1][0] == "c" else {}
            fn = c.get("fn") if isinstance(c, dict) else None
            if fn is not None:
                fn.setdefault("rpath", fn["path"])
                fn.setdefault("local", False)
            yield fn, t[2], t[3], t[5]


def operand_local(o):
    return o[1][0] if o[0] in ("mv", "cp") else None


def spell(p, i):
    return p.ty(i)["s"] if isinstance(i, int) else "?"


def contains(p, i, test, seen=None):
    """Whether a type contains one for which `test(type)` holds (through fields of local types)."""
    seen = set() if seen is None else seen
    if i in seen:
        return False
    seen.add(i)
    t = p.ty(i)
    if test(t):
        return True
    if any(contains(p, a, test, seen) for a in t.get("args") or [] if isinstance(a, int)):
        return True
    if t.get("k") == "adt" and t["path"] in p.adts and p.adts[t["path"]]["local"]:
        return any(contains(p, f["ty"], test, seen) for v in p.adts[t["path"]]["variants"] for f in v["fields"])
    return False
