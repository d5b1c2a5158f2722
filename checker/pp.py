"""Readable forms of terms and facts."""


def short(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "f" and len(t) == 5:
        return short(t[1]) + ("." + str(t[2]) if t[2] else "") + "." + str(t[4])
    if k == "s":
        return t[1]
    if k in ("int", "str", "b"):
        return repr(t[1])
    if k == "adt":
        return t[1].split("::")[-1] + "::" + t[2] + ("(" + ", ".join(map(short, t[3])) + ")" if t[3] else "")
    if k == "call" and len(t) > 2:
        return t[1].split("::")[-1] + "(" + ", ".join(map(short, t[2])) + ")"
    if k in ("tup", "vec", "arr"):
        return k[0] + "(" + ", ".join(map(short, t[1])) + ")"
    if k in ("elem", "pos") and len(t) == 3:
        return k + "{" + short(t[1]) + " " + str(t[2])[:14] + "}"
    if k == "with" and len(t) == 3:
        return "with{" + short(t[1]) + " " + ", ".join("%s=%s" % (p[2], short(x)) for p, x in t[2]) + "}"
    return "(" + " ".join(
        short(x) if isinstance(x, tuple) else
        "{" + "; ".join(sorted(short(y) if isinstance(y, tuple) else fs(y) if isinstance(y, frozenset) else str(y) for y in x)) + "}"
        if isinstance(x, frozenset) else str(x) for x in t) + ")"


def fs(f):
    return "{" + ", ".join(sorted(
        "%s=%s" % (short(k), "|".join(sorted(v)) if isinstance(v, frozenset) else v) for k, v in f)) + "}"


def show(o, lim=300, ev=False, skip=("all", "done", "reach", "next", "flag")):
    print("*", o.kind, short(o.value)[:lim] if o.value else None)
    for k, v in o.state.facts.items():
        if k[0] not in skip:
            print("     ", short(k)[:lim], "=", set(v) if isinstance(v, frozenset) else v)
    if ev:
        for e, _ in o.state.events():
            print("   EV", e[0], " ".join(short(x) if isinstance(x, tuple) else str(x) for x in e[1:])[:lim])
