"""Loading of the MIR dump of the crate under analysis (see ../driver)."""

import json


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.raw = d
        self.fns = d["fns"]
        self.types = d["types"]
        self.items = d["items"]
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.consts = d["consts"]
        self.unsafe = d["unsafe"]
        self.adts = d["adts"]
        self.by_pretty = {}
        for it in self.items:
            self.by_pretty.setdefault(it["pretty"], it)
        self.item_by_key = {it["key"]: it for it in self.items}
        self._loops = {}
        self._impls = None

    def ty(self, i):
        return self.types[i]

    def find(self, pretty):
        """The item with the given pretty path, or None."""
        return self.by_pretty.get(pretty)

    def impl(self, path, trait, name):
        """The key of a method of a local type's implementation of a trait, or None."""
        if self._impls is None:
            self._impls = {}
            for it in self.items:
                if it.get("self") and it.get("trait") and it["key"] in self.fns:
                    self._impls.setdefault((it["self"].split("<")[0], it["trait"].split("<")[0], it["name"]), set()).add(it["key"])
        ks = self._impls.get((path, trait, name), ())
        return next(iter(ks)) if len(ks) == 1 else None

    def local_fns(self):
        for k, f in self.fns.items():
            if f["local"]:
                yield k, f

    def variants(self, adt):
        a = self.adts.get(adt)
        return a["variants"] if a else None

    def field_index(self, adt, field, variant=None):
        for v in self.adts[adt]["variants"]:
            if variant is None or v["name"] == variant:
                for i, f in enumerate(v["fields"]):
                    if f["name"] == field:
                        return i
        return None

    def field_names(self, adt, variant=None):
        for v in (self.adts.get(adt) or {"variants": []})["variants"]:
            if variant is None or v["name"] == variant:
                return [f["name"] for f in v["fields"]]
        return []

    # -- control flow ------------------------------------------------------

    def succs(self, key, b):
        t = self.fns[key]["blocks"][b][1]
        return term_succs(t)

    def loops(self, key):
        """Natural loops: {header: (set of blocks, is_await)}."""
        if key in self._loops:
            return self._loops[key]
        blocks = self.fns[key]["blocks"]
        n = len(blocks)
        succ = [[s for s in term_succs(blocks[b][1])] for b in range(n)]
        # dominators over reachable blocks
        order, seen, stack = [], {0}, [(0, iter(succ[0]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]

        res = {}
        for b in rpo:
            for s in succ[b]:
                if s in idom and dominates(s, b):
                    body = res.setdefault(s, set())
                    body.add(s)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        out = {}
        for h, body in res.items():
            # An await loop: every back edge comes from resuming a yield.
            back = [b for b in body if h in succ[b]]
            out[h] = (body, all(_from_yield(blocks, b, body, h) for b in back))
        self._loops[key] = out
        return out


def _from_yield(blocks, b, body, h):
    """Whether the back edge source `b` is (a goto chain after) a yield."""
    t = blocks[b][1]
    if t[0] == "yield":
        return True
    seen = set()
    work = [b]
    pred = {}
    for x in body:
        for s in term_succs(blocks[x][1]):
            pred.setdefault(s, []).append(x)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if blocks[x][1][0] == "yield":
            continue
        if x == h:
            return False
        ps = [p for p in pred.get(x, [])]
        if not ps:
            return False
        for p in ps:
            if blocks[p][1][0] == "yield":
                continue
            if blocks[p][1][0] in ("goto", "call", "drop") and p != h:
                work.append(p)
            else:
                return False
    return True


def term_succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    if k == "yield":
        return [t[2]]
    return []
