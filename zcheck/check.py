"""Command line: python3 -m zcheck <property> [--thorough] [--root DIR]."""
import hashlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}          # property -> [(rule name, function, statement)]


def rule(pids, statement):
    """Register a rule with one or more properties ("P03 P12")."""
    def deco(f):
        for pid in pids.split():
            RULES.setdefault(pid, []).append((f.__name__, f, statement))
        return f
    return deco


class Ctx:
    """Collects obligations and violations of one property."""

    def __init__(self, M, pid, tier="quick"):
        self.M, self.pid, self.tier = M, pid, tier
        self.obl, self.viol, self.notes = [], [], []
        self.rule = None
        self.runs = {}

    # ---- runs
    def run(self, get, name=None):
        """A run usable for rules, or None."""
        from .model import Missing
        try:
            r = get(self.M) if callable(get) else getattr(self.M, get)
        except Missing as e:
            self.note("%s is not there any more; its rules do not apply" % e)
            return None
        except Exception as e:              # engine failure is not a verdict
            self.note("analysis of %s failed: %s: %s" % (
                name or get, type(e).__name__, e))
            if os.environ.get("ZCHECK_DEBUG"):
                traceback.print_exc()
            return None
        self.runs[r.name] = r
        if r.error:
            self.note("%s: %s" % (r.name, r.error))
            return None
        return r

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # ---- obligations
    def ok(self, where, what):
        self.obl.append((self.rule, where, what, True))

    def bad(self, where, what, msg, ident, path="", witness=""):
        self.obl.append((self.rule, where, what, False))
        self.viol.append({"rule": self.rule, "where": where, "what": what,
                          "message": msg, "ident": ident, "path": path,
                          "witness": witness})

    def require(self, cond, where, what, msg, ident, ev=None, witness=""):
        if cond:
            self.ok(where, what)
        else:
            self.bad(where, what, msg, ident, ev.path() if ev else "", witness)
        return cond

    def never(self, f, ev, what, msg, ident, x=None):
        """The condition f is contradictory."""
        from .model import definite, feasible, witness, fresh_names
        where = ev.where() if ev is not None else "-"
        g = feasible(definite(fresh_names(f)))
        if g == 0:
            self.ok(where, what)
            return True
        wit = witness(g, x)
        self.bad(where, what, msg, ident, ev.path() if ev is not None else "",
                 wit[:1500])
        return False


def load_rules():
    from . import (rules_sync, rules_life, rules_body, rules_db,  # noqa
                   rules_conf, rules_misc, rules_daemon, rules_cli, rules_prof,
                   rules_sel, rules_err)


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) ident=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def check(pid, tier, root, M=None):
    from .model import Model
    M = M or Model(root)
    c = Ctx(M, pid, tier)
    for name, f, stmt in RULES.get(pid, ()):
        c.rule = name
        try:
            f(c)
        except Exception as e:
            c.note("rule %s could not be applied: %s: %s" % (
                name, type(e).__name__, e))
            if os.environ.get("ZCHECK_DEBUG"):
                traceback.print_exc()
    return c


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    root = argv[argv.index("--root") + 1] if "--root" in argv else "/repo"
    sys.setrecursionlimit(20000)
    from .model import Model
    load_rules()
    if pid not in RULES:
        print("no rules for", pid)
        return 2
    c = check(pid, tier, root)
    known = [(i, t) for p, i, t in known_findings() if p == pid]
    fresh, seen = [], set()
    for v in c.viol:
        hit = [t for i, t in known if i == v["ident"]]
        if hit:
            if v["ident"] not in seen:
                seen.add(v["ident"])
                print("KNOWN-FINDING: property=%s %s [%s]" % (
                    pid, hit[0], v["where"]))
        else:
            fresh.append(v)
    ev = evidence(c, pid, tier, t0, fresh)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for n in c.notes:
        print("note:", n)
    print("%s: %d obligations, %d violated, %d known, %.1fs" % (
        pid, len(c.obl), len(fresh), len(c.viol) - len(fresh), time.time() - t0))
    if not fresh:
        return 0
    rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
    with open(rp, "w") as fh:
        for v in fresh:
            fh.write("rule: %(rule)s\nobligation: %(what)s\nat: %(where)s\n"
                     "call path: %(path)s\n%(message)s\nident: %(ident)s\n"
                     "when: %(witness)s\n\n" % v)
    seen = set()
    for v in fresh:
        line = "%s: %s" % (v["where"], v["message"])
        if line in seen:
            continue
        seen.add(line)
        print("  " + line)
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def evidence(c, pid, tier, t0, fresh):
    files = {}
    for m in c.M.prog.modules.values():
        try:
            files[m.relpath] = hashlib.sha256(
                open(m.path, "rb").read()).hexdigest()[:16]
        except (OSError, AttributeError):
            pass
    runs = {}
    for n, r in c.runs.items():
        runs[n] = {"events": len(r.events), "effects": len(r.muts()),
                   "raised": len(r.raised), "steps": getattr(r.I, "steps", 0),
                   "imprecise": {str(k): v for k, v in r.I.imprecise.items()},
                   "wall_s": round(r.wall, 2)}
    return {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": {
            "explanation":
                "Abstract interpretation of the package's syntax trees from its "
                "entry points: every path is followed and joined under path "
                "conditions over symbolic file-system, database and "
                "configuration facts; each recorded effect or construct is an "
                "obligation checked against the rule's specification. Nothing "
                "is executed.",
            "rules": [{"rule": n, "statement": s}
                      for n, f, s in RULES[pid]],
            "obligations": len(c.obl),
            "obligations_discharged": sum(1 for o in c.obl if o[3]),
            "sites": sorted({"%s @ %s" % (o[2], o[1]) for o in c.obl})[:200],
            "runs": runs,
            "files": files,
            "inconclusive": c.notes,
            "violated": [{"rule": v["rule"], "where": v["where"],
                          "message": v["message"]} for v in fresh],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": [
            "library calls behave as the models in zcheck/ext.py say",
            "the package's own primitives satisfy the contracts in "
            "zcheck/prims.py, which the body rules check separately",
        ],
        "violations": len(fresh),
    }
