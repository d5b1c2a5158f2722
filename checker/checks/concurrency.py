# properties: C30
"""Key lookups must not be awaited one after the other."""

import refs
from main import Missing

CONFIGS = ("default", "pre-rfc8301")
KEY = "lookup awaited in the loop over the pairs"


def reach(p, test):
    """Paths of local bodies that reach a reference satisfying `test`."""
    out, edges = set(), {}
    for key, f in p.local_fns():
        me = f["path"]
        for info, _ in refs.fn_refs(p, key):
            if test(info):
                out.add(me)
            k = info.get("key") or info.get("rcanon")
            edges.setdefault(p.fns[k]["path"] if k in p.fns else info.get("rcanon"), set()).add(me)
        # closures and async bodies belong to the function that contains them
        if f.get("parent"):
            edges.setdefault(me, set()).add(f["parent"])
    work = list(out)
    while work:
        for c in edges.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out


def check(prop, ctx):
    ctx.rule("in every async body, a loop must not contain an await of a future that reaches LookupTxt::lookup_txt: all lookups have to be started before one is waited for")
    for config in CONFIGS:
        p = ctx.program(config)
        is_lookup = lambda i: i["path"].endswith("LookupTxt::lookup_txt")
        r = reach(p, is_lookup)
        paths = {f["pretty"] for _, f in p.local_fns() if f["path"] in r}
        if not r:
            raise Missing("LookupTxt::lookup_txt is not used")
        ctx.count("functions reaching a lookup", len(r))
        for key, f in p.local_fns():
            if not f["coroutine"]:
                continue
            ctx.count("async bodies")
            for h, (body, await_loop) in p.loops(key).items():
                if await_loop:
                    continue
                ctx.count("loops in async bodies")
                for b in sorted(body):
                    t = f["blocks"][b][1]
                    if t[0] != "call":
                        continue
                    c = t[1][1] if t[1][0] == "c" else {}
                    info = c.get("fn") or {}
                    if info.get("path") != "std::future::Future::poll":
                        continue
                    drives = refs.contains(p, info["targs"][0], lambda ty: (
                        (ty.get("k") in ("coroutine", "alias", "closure") and (
                            ty.get("path") in paths or "LookupTxt>::Query" in ty["s"]))))
                    if drives:
                        ctx.violation(KEY, "%s awaits each key lookup before starting the next" % f["pretty"], t[5])
    ctx.floor("async bodies", 2 * 4)
