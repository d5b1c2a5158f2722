"""Decides one property from the dumps of the crate (see ../check.sh).

usage: main.py PROPERTY TIER DUMPDIR REPO

Exit 0: no violation (known findings are printed).  Exit 1: a violation.
Exit 2: the check could not be carried out (an anchor of the public interface
is missing, or fewer instances than expected were found).
"""

import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from mir import Program  # noqa: E402

ROOT = os.path.dirname(HERE)
OUT = os.environ.get("VERIF_OUT", ROOT)

# property -> module of checks/
MODULES = {}


def register():
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.endswith(".py") and f != "__init__.py":
            src = open(os.path.join(HERE, "checks", f)).read().split("\n", 1)[0]
            # the first line of a module names its properties
            if src.startswith("# properties:"):
                for p in src.split(":", 1)[1].split():
                    MODULES.setdefault(p, []).append("checks." + f[:-3])


class Missing(Exception):
    """A public anchor is gone, or a count fell below its floor."""


class Ctx:
    def __init__(self, prop, tier, dumps, repo):
        self.prop, self.tier, self.dumps, self.repo = prop, tier, dumps, repo
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.violations = {}      # key -> record
        self.undecided_ = {}
        self.counts = {}
        self.samples = []
        self.rules = []
        self.notes = {}
        self._progs = {}
        self.level = "other"

    def program(self, config="default"):
        p = self._progs.get(config)
        if p is None:
            p = self._progs[config] = Program(os.path.join(self.dumps, config + ".json"))
        return p

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        # what a construct without a model leaves out is reported as undecided instead
        if self.counts.get(what, 0) < n and not self.undecided_:
            raise Missing("%s: %d, expected at least %d" % (what, self.counts.get(what, 0), n))

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def sample(self, x, cap=12):
        if len(self.samples) < cap:
            self.samples.append(x)

    def violation(self, key, msg, where=None, detail=None):
        if key not in self.violations:
            self.violations[key] = dict(key=key, message=msg, where=where, detail=detail)

    def undecided(self, key, why):
        self.undecided_.setdefault(key, str(why)[:400])

    def anchor(self, config, pretty):
        it = self.program(config).find(pretty)
        if it is None:
            raise Missing("public function %s" % pretty)
        return it

    # -- parallel evaluation ------------------------------------------------------

    def parallel(self, f, n, procs=None):
        """[f(0), …, f(n-1)], in forked workers; an exception is returned as a string in a tuple."""
        global _F
        _F = f
        procs = min(procs or 8, max(1, n // 4))
        if procs <= 1:
            return [_call(i) for i in range(n)]
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            return pool.map(_call, range(n), chunksize=max(1, min(16, n // (procs * 4))))


_F = None


def _call(i):
    try:
        return ("ok", _F(i))
    except RecursionError:
        return ("error", "recursion")
    except Exception as x:
        return ("error", "%s: %s" % (type(x).__name__, traceback.format_exc()[-600:]))


def known_findings(prop):
    out = {}
    path = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith(("#", "fixed:")):
                continue
            d = json.loads(line)
            if d["property"] == prop:
                out[d["key"]] = d
    return out


class TimeUp(BaseException):
    pass


def main():
    prop, tier, dumps, repo = sys.argv[1:5]
    start = time.time()
    register()
    ctx = Ctx(prop, tier, dumps, repo)
    mods = MODULES.get(prop)
    if not mods:
        print("no check for", prop)
        return 2
    fails = None

    def on_alarm(*_):
        raise TimeUp()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(os.environ.get("VERIF_BUDGET", "780")))
    for m in mods:
        try:
            mod = importlib.import_module(m)
            mod.check(prop, ctx)
        except Missing as x:
            fails = str(x)
        except TimeUp:
            ctx.undecided("time", "the analysis did not finish")
        except Exception as x:  # the analysis met a construct it does not know
            ctx.undecided("analysis " + m, "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:]))
    signal.alarm(0)
    known = known_findings(prop)
    new = [v for k, v in sorted(ctx.violations.items()) if k not in known]
    old = [(known[k], v) for k, v in sorted(ctx.violations.items()) if k in known]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ev = dict(
        property=prop, tier=tier, seed=ctx.seed, level=ctx.level,
        coverage=dict(
            explanation="; ".join(ctx.rules) or "see DESIGN.md",
            counts=dict(sorted(ctx.counts.items())),
            samples=ctx.samples,
            undecided=len(ctx.undecided_),
            undecided_samples=dict(list(ctx.undecided_.items())[:8]),
            known_findings=[d["key"] for d, _ in old],
            **ctx.notes),
        assumptions=[
            "semantics of the standard library and dependency functions as modelled in checker/models.py",
            "rustc's MIR of the crate as built for the host target",
        ],
        wall_s=round(time.time() - start, 2),
        violations=len(new),
    )
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for d, v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    print("%s %s: %s; undecided %d; %.1f s" % (
        prop, tier, ", ".join("%s %s" % (v, k) for k, v in sorted(ctx.counts.items())), len(ctx.undecided_), time.time() - start))
    if new:
        replay = os.path.join(OUT, "evidence", prop + ".replay.json")
        with open(replay, "w") as f:
            json.dump(new, f, indent=1, default=str)
            f.write("\n")
        for v in new[:20]:
            print("  %s: %s%s" % (v["key"], v["message"], " [%s]" % v["where"] if v["where"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if fails:
        print("incomplete:", fails)
        return 2
    if ctx.undecided_:
        for k, v in list(ctx.undecided_.items())[:10]:
            print("  undecided %s: %s" % (k, v))
        if os.environ.get("VERIF_STRICT"):
            return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
