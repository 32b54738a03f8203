"""Obligations, evidence and findings shared by all checks."""
import json
import os
import re
import sys
import time

import load
from terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Broken(Exception):
    """the analysis cannot be carried out (public anchor gone, nothing to analyse)"""


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obs = []
        self.functions = set()
        self.t0 = time.time()
        self.notes = []
        self.mins = []

    def add(self, status, name, where, detail=""):
        self.obs.append((status, name, where, detail))
        return status == "ok"

    def ok(self, name, where="", detail=""):
        return self.add("ok", name, where, detail)

    def bad(self, name, where, detail):
        return self.add("bad", name, where, detail)

    def und(self, name, where, detail):
        return self.add("und", name, where, detail)

    def check(self, cond, name, where, detail=""):
        return self.add("ok" if cond else "bad", name, where, "" if cond else detail)

    def fns(self, eng):
        for f in eng.visited:
            self.functions.add("%s @ %s:%s" % (f.qn, os.path.relpath(f.file, load.REPO) if f.file else "?", f.line))

    def need(self, n, what):
        """fewer than n obligations: parts of the code were not recognised"""
        if not self.obs:
            raise Broken("%s: nothing to analyse (%s)" % (self.pid, what))
        if len(self.obs) < n:
            self.und("coverage", "", "only %d of at least %d obligations found (%s)" % (len(self.obs), n, what))

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = []
        if os.path.exists(FINDINGS):
            known = [k for k in json.load(open(FINDINGS))["findings"] if k["property"] == self.pid]
        # the same violation in several instantiations is reported once
        seen = {}
        for st, n, w, d in self.obs:
            if st == "bad":
                seen.setdefault((n, w), d)
        new, old = [], []
        for (n, w), d in seen.items():
            k = [x for x in known if x["key"] in (n + " " + w)]
            (old if k else new).append((n, w, d, k))
        outdir = os.path.join(VERIF, ".build", "reports")
        os.makedirs(outdir, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cnt = {s: sum(1 for o in self.obs if o[0] == s) for s in ("ok", "bad", "und")}
        names = {}
        for st, n, w, d in self.obs:
            names.setdefault(n, []).append((st, w))
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obs), "discharged": cnt["ok"],
                "violated": cnt["bad"], "undecided": cnt["und"],
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:60],
                "samples": [{"obligation": n, "status": s, "where": w, "detail": str(d)[:400]}
                            for s, n, w, d in self.obs[:40]],
                "undecided_obligations": [{"obligation": n, "where": w, "detail": str(d)[:400]}
                                          for s, n, w, d in self.obs if s == "und"][:40],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 3),
        }
        evdir = os.path.join(VERIF, "evidence") if load.REPO == "/repo" else outdir
        json.dump(ev, open(os.path.join(evdir, self.pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d violated, %d undecided, %d functions analysed, %.1f s" % (
            self.pid, len(self.obs), cnt["ok"], cnt["bad"], cnt["und"], len(self.functions), time.time() - self.t0))
        for s, n, w, d in self.obs:
            if s == "und":
                print("  undecided: %s [%s] %s" % (n, w, str(d)[:300]))
        for n, w, d, k in old:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k[0]["what"], w))
        for i, (n, w, d, k) in enumerate(new):
            path = os.path.join(outdir, "%s.%d.txt" % (self.pid, i))
            with open(path, "w") as fh:
                fh.write("property %s\nobligation: %s\nat: %s\n%s\nrule: %s\n" % (self.pid, n, w, d, self.rule))
            print("  violated: %s [%s]\n    %s" % (n, w, str(d)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1 if new else 0


# -- comparison of value terms ----------------------------------------------

OPAQUE = ("unk", "out", "trip", "exists", "caught", "adv", "itr_next", "lite")
EXT = ("app",)


def opaque_heads(t):
    """names of uninterpreted library results in t"""
    s = set()
    for x in subterms(t):
        if x.op in OPAQUE or x.op == "phi":
            s.add(x.op)
        elif x.op == "app":
            s.add("app " + str(x.a[0]))
        elif x.op.startswith(("out_", "res_", "upd_")):
            s.add(x.op)
    return s


def compare(rep, name, actual, expected, where, also=(), eng=None):
    """ok when the value terms coincide; violation only when both are built from
    interpreted operations, otherwise undecided"""
    if actual is expected:
        return rep.ok(name, where, show(expected))
    extra = opaque_heads(actual) - opaque_heads(expected) - set(also)
    if all(NORMAPP.search(h) for h in extra) and actual.op == "ite" and (extra or any(
            isnorm(x) for l, _ in value_paths(actual) for a in l for x in subterms(a))):
        # cases told apart by the size of a vector: with a nonzero bound both sides occur
        left = [(lits, leaf) for lits, leaf in value_paths(actual) if leaf is not expected]
        if left and all(not opaque_heads(leaf) - opaque_heads(expected) - set(also) for _, leaf in left):
            real = [l for l in left if not tiny(l[0])]
            if not real:
                return rep.und(name, where, "differs only where a norm vanishes: " + show(actual)[:600])
            return rep.bad(name, where, "under %s computes %s\n    instead of %s" % (
                " and ".join(("" if b else "not ") + show(a) for a, b in real[0][0].items())[:500],
                show(real[0][1])[:600], show(expected)[:600]))
    d = "computes   %s\n    instead of %s" % (show(actual)[:1200], show(expected)[:1200])
    if extra or (eng is not None and eng.unk):
        return rep.und(name, where, "cannot interpret %s: %s" % (sorted(extra)[:5] or eng.unk[:3], d[:600]))
    return rep.bad(name, where, d)


def wfn(f):
    return "%s:%s" % (os.path.relpath(f.file, load.REPO) if f.file else "?", f.line)


def strip(v):
    """look through a checked downcast"""
    while v.op == "dyncast":
        v = v.a[1]
    return v


def assume(v, lits):
    """the term v where the given boolean atoms are decided, at any depth"""
    return subst(v, {a: TRUE if b else FALSE for a, b in lits.items()})


def bool_paths(c, cap=64):
    """the ways (atom -> truth value) in which the boolean diagram c can hold; None if there are too many"""
    out = []

    def go(t, lits):
        if len(out) > cap:
            return
        if t is FALSE:
            return
        if t.op != "ite":
            out.append(lits if t is TRUE else {**lits, t: True})
            return
        for b, s in ((True, t.a[1]), (False, t.a[2])):
            if t.a[0] in lits and lits[t.a[0]] != b:
                continue
            go(s, {**lits, t.a[0]: b})
    go(c, {})
    return None if len(out) > cap else [l for l in out if not contradictory(l)]


def contradictory(lits):
    """one value equal to two different constants"""
    seen = {}
    for a, b in lits.items():
        if not b or a.op not in ("eq", "eq0"):
            continue
        if a.op == "eq":
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if isinstance(y, T) and y.op in ("str", "int", "num", "cst"):
                    if seen.setdefault(x, y) is not y:
                        return True
    return False


def infeasible(c):
    """no way in which the condition can hold"""
    ps = bool_paths(c)
    return ps is not None and not ps


NORMAPP = re.compile(r"^app .*::(l1_norm|l2_norm|linfty_norm|lp_norm|norm_sqr|norm|mean_value)$")


def value_paths(t, cap=64):
    """the cases (atom -> truth value) of a value diagram with the value in each"""
    out = []

    def go(t, lits):
        if len(out) > cap:
            return
        if t.op == "ite" and isinstance(t.a[1], T):
            for b, s in ((True, t.a[1]), (False, t.a[2])):
                if lits.get(t.a[0], b) == b:
                    go(s, {**lits, t.a[0]: b})
        else:
            out.append((lits, t))
    go(t, {})
    return [(l, v) for l, v in out if not contradictory(l)]


def tiny(lits):
    """the case in which some norm is zero (or not positive)"""
    for a, b in lits.items():
        if a.op not in ("eq0", "lt0", "eq"):
            continue
        if a.op == "eq0" and b and any(isnorm(x) for x in subterms(a)):
            return True
        if a.op == "lt0" and not b and isnorm(neg(a.a[0])):       # not (-n < 0): n <= 0
            return True
    return False


def isnorm(x):
    return x.op == "app" and bool(NORMAPP.search("app " + str(x.a[0]))) or x.op in ("norm", "dot", "sqrt")
