"""Rules about the daemon: priorities, periodic syncs."""
import math
from .check import rule
from .model import *
from .model import UNKNOWN, has_op, definite, feasible, fresh_names, atom_has
from .vocab import *
from .terms import *
from .terms import T
from .arith import lin, difference, num, is_now
from .interp import HColl


def once(f):
    """f without what happened in earlier rounds of a loop."""
    return bmap(f, lambda a: 0 if a.op == "it" else atom(a))


def done(r, st, e):
    return once(r.canon.b(st.done.get(e.key, 0)))


def happened(r, e, x):
    """x happened before e in the same round."""
    return done(r, e, x)


def failed(*fs):
    """The condition that some operation failed, from the atoms of fs."""
    return OR(*[atom(a) for f in fs for a in atoms(f) if a.op == "exc"])


class Daemon:
    """The main loop of the daemon: the endless loop around the increments."""

    def __init__(self, c):
        self.c = c
        self.ok = False
        r = self.r = c.run("daemon")
        if r is None:
            return
        self.incs = [e for e in r.events if e.name == "db.increment"]
        self.adjs = [e for e in r.events if e.name == "db.adjust_all"]
        self.commits = [e for e in r.events if e.name == "db.commit"]
        loops = {e.loops[0][0] for e in self.incs + self.adjs if e.loops}
        if len(loops) != 1:
            c.note("the daemon's main loop was not recognised")
            return
        self.loop = loops.pop()
        ends = [b for b in r.I.backedges if b[0] == self.loop]
        if len(ends) != 1:
            c.note("the daemon's main loop was not recognised")
            return
        self.end = ends[0][3]
        self.pc = r.canon.b(AND(self.end.pc, self.end.ax))
        self.where = "zielen/daemon.py"
        self.ok = True

    def value(self, part):
        """The value at the end of a round of what a carried part is from."""
        _, lid, tag = part
        r, end = self.r, self.end
        out = []
        for fid, fr in end.frames.items():
            if tag in fr:
                out.append(fr[tag])
        m = re.match(r"h(\d+)(?:\.(.*))?$", str(tag))
        if m:
            for ref, h in end.heap.items():
                if ref.args[0] == int(m.group(1)):
                    out.append(h.fields[m.group(2)] if m.group(2) else ref)
        return out[-1] if out else None


import re                                                    # noqa: E402


def parts_by_key(h):
    out = {}
    for p in h.parts.values():
        k = (p.vars, p.key)
        out[k] = OR(out.get(k, 0), p.cond)
    return out


def carried(d, h):
    """The parts of a collection that come from earlier rounds."""
    return [k for k in h.parts if isinstance(k, tuple) and len(k) == 3 and
            k[0] == "add" and k[1] == d.loop]


@rule("P19", "accesses that could not be recorded because the database was busy "
             "are recorded in a later round, and those that were are not "
             "recorded again")
def accesses_kept(c):
    d = Daemon(c)
    if not d.ok:
        return
    r = d.r
    for e in d.incs:
        h = e.colls.get("paths")
        w = e.where()
        if h is None:
            c.note("%s: what is incremented is not known" % w)
            continue
        handled = any(a.op == "exc" for a in atoms(d.pc)) or feasible(
            AND(d.pc, NOT(done(r, d.end, e)))) != 0
        keys = carried(d, h)
        if not keys:
            c.require(not handled, w, "waiting accesses are kept",
                      "accesses that could not be recorded are not kept for "
                      "the next round", "counts-lost", e)
            continue
        want = parts_by_key(h)
        inc = done(r, d.end, e)
        later = OR(*[done(r, d.end, x) for x in d.commits if x.seq > e.seq])
        for k in keys:
            v = d.value(k)
            if v is None:
                c.note("%s: what is carried on to the next round is not known"
                       % w)
                continue
            for l, cond in leaves(v):
                g = r.c(mk("b", cond)).args[0] if False else r.canon.b(cond)
                hh = r.I.coll_of(l, d.end)
                if hh is None:
                    c.note("%s: what is carried on to the next round is not "
                           "known" % w)
                    continue
                have = parts_by_key(hh)
                for kk, f in want.items():
                    lost = AND(r.canon.b(f), NOT(r.canon.b(have.get(kk, 0))))
                    c.never(AND(d.pc, g, NOT(inc), lost), e,
                            "an access that was not recorded is kept",
                            "an access that was not recorded because of an "
                            "error is dropped", "counts-lost")
                for kk, f in have.items():
                    if f == 0:
                        continue
                    c.never(AND(d.pc, g, inc, later, r.canon.b(f)), e,
                            "an access that was recorded is not kept",
                            "an access that was recorded is recorded again in "
                            "the next round", "counts-twice")
        c.never(AND(d.pc, inc, NOT(later), NOT(failed(d.pc, inc, later))), e,
            "increments are committed", "increments are not committed",
            "increment-uncommitted")
    c.require(d.incs, d.where, "accesses are recorded",
              "accesses are not recorded", "no-increment")


@rule("P19", "every access raises the priority by a positive constant")
def increment_amount(c):
    d = Daemon(c)
    if not d.ok:
        return
    for e in d.incs:
        n = e.kw.get("increment")
        for l, _ in leaves(d.r.c(n)) if n is not None else ():
            v = num(l)
            c.require(v is not None and v > 0, e.where(),
                      "the increment is a positive constant",
                      "a use of a file changes its priority by %s" % show(l, 4),
                      "increment-amount", e)


def loopvals(f, loop):
    """The values of earlier rounds that f compares."""
    out = set()
    for a in atoms(f):
        if a.op == "lt":
            out |= {s for s in subterms(a) if s.op == "loopval"}
    return out


@rule("P19", "an access is counted if and only if the same file was not counted "
             "within the cooldown period before it")
def cooldown(c):
    d = Daemon(c)
    if not d.ok:
        return
    r = d.r
    for e in d.incs:
        h = e.colls.get("paths")
        if h is None:
            continue
        for pid, p in h.parts.items():
            if pid in carried(d, h):
                continue
            f = p.cond
            lts = [a for a in atoms(f) if a.op == "lt" and any(
                s.op == "loopval" for s in subterms(a))]
            kept = [t for a in atoms(f) if a not in lts for t in subterms(a)
                    if t.op == "loopval"]
            if not lts and kept:
                # The last use plays a part, but not by its distance.
                seen = OR(*[truth_of(t) for t in kept],
                          *[atom(a) for a in atoms(f) if a.op == "loopadd"])
                if feasible(AND(f, NOT(seen))) == 0:
                    c.bad(e.where(), "the first use of a file is counted",
                          "the first use of a file is not counted",
                          "first-use")
                    continue
            if len(lts) != 1:
                c.note("%s: the cooldown period is not recognised" % e.where())
                continue
            df = difference(lts[0])
            past = [t for t in df if t is not None and t.op == "loopval"]
            this = [t for t in df if t is not None and t not in past]
            if len(past) != 1 or len(this) != 1 or \
                    {abs(df[past[0]]), abs(df[this[0]])} != {1} or \
                    df[past[0]] != -df[this[0]]:
                c.note("%s: the cooldown period is not recognised" % e.where())
                continue
            # past + C < this   or   this - C < past
            beyond = atom(lts[0]) if df[past[0]] > 0 else NOT(atom(lts[0]))
            C = df.get(None, 0) * (1 if df[past[0]] > 0 else -1)
            c.require(C > 0, e.where(), "the cooldown period is positive",
                      "the cooldown period is not positive: every use is "
                      "counted, however close" if C == 0 else
                      "the cooldown period is negative", "cooldown-length", e)
            has = OR(*[atom(a) for a in atoms(f) if a.op == "loopadd" and
                       a.args[2:] == past[0].args[2:] and
                       a.args[1:2] == past[0].args[1:2]])
            base = quant_out(f, lts[0], past[0], has)
            seen = AND(has, truth_of(past[0]))
            # (a remembered time of zero may count as either)
            c.never(AND(base, NOT(has if has != 0 else seen), NOT(f)), e,
                    "the first use of a file is counted",
                    "the first use of a file is not counted", "first-use")
            c.never(AND(base, seen, beyond, NOT(f)), e,
                    "a use after the cooldown period is counted",
                    "a use after the cooldown period is not counted",
                    "later-use")
            c.never(AND(f, seen, NOT(beyond)), e,
                    "a use within the cooldown period is not counted again",
                    "a use within the cooldown period is counted again",
                    "repeated-use")
            last_use_recorded(c, d, e, p, past[0], this[0])
            forgotten(c, d, e, past[0], C)


def quant_out(f, a, past, has):
    """What must hold of an access for it to be considered at all."""
    drop = set(atoms(has)) | {a} | set(atoms(truth_of(past)))
    return exists_atoms(f, lambda x: x in drop)


def last_use_recorded(c, d, e, p, past, this):
    """A counted use, and no other, becomes the file's last use."""
    r = d.r
    tag = past.args[1]
    sets = []
    for x in r.events:
        if x.name == "setitem" and x.loops and x.loops[0][0] == d.loop and \
                len(x.loops) > 1 and x.seq < e.seq:
            sets.append(x)
    if not sets:
        c.require(False, e.where(), "counted uses are remembered",
                  "the time of a counted use is not remembered: every use is "
                  "counted", "use-not-recorded", e)
        return
    for x in sets:
        m = {v: t for v, t in zip(p.vars, x.loops[-1][1])}
        if len(x.loops[-1][1]) != len(p.vars):
            c.note("%s: how uses are remembered is not understood" % x.where())
            continue
        lid = x.loops[-1][0]
        counted = bsubst(p.cond, m)
        recorded = earlier_rounds(AND(x.pc, x.ax), lid)
        # the loop over the accesses itself is common to both
        c.require(x.args[1] is subst(p.key, m), x.where(),
                  "the last use is recorded for the file that was used",
                  "the last use is recorded for another file",
                  "use-key", x)
        for l, _ in leaves(x.args[2]):
            c.require(l is subst(this, m), x.where(),
                      "the time of the use is recorded",
                      "what is recorded as the time of the last use is not the "
                      "time of the use", "use-time", x)
        ctx = exists_atoms(recorded, lambda a: any(
            s.op in ("loopval", "loopadd") and s.args[1] == tag
            for s in subterms(a)))
        c.never(AND(ctx, counted, NOT(recorded)), x,
                "a counted use is remembered",
                "a counted use is not remembered", "use-not-recorded")
        c.never(AND(recorded, NOT(counted)), x,
                "a use that is not counted does not extend the cooldown period",
                "a use that is not counted extends the cooldown period",
                "cooldown-extended")


def earlier_rounds(f, lid):
    return bmap(f, lambda a: 0 if a.op in ("loopadd", "looprm", "it") and
                a.args[0] == lid else atom(a))


def forgotten(c, d, e, past, C):
    """What is dropped from the remembered uses is past the cooldown."""
    r = d.r
    v = d.value(("add", d.loop, past.args[1]))
    if v is None:
        c.note("%s: how uses are forgotten is not understood" % e.where())
        return
    for l, cond in leaves(v):
        h = r.I.coll_of(l, d.end)
        if h is None:
            c.note("%s: how uses are forgotten is not understood" % e.where())
            continue
        kept = 0
        for pid, p in h.parts.items():
            if isinstance(pid, tuple) and len(pid) == 3 and pid[0] == "add" \
                    and pid[1] == d.loop:
                kept = OR(kept, p.cond)
        for pid, p in h.parts.items():
            ats = [a for a in atoms(p.cond) if a.op == "lt"]
            for a in ats:
                df = difference(a)
                nows = [t for t in df if t is not None and is_now(t)]
                rest = [t for t in df if t is not None and t not in nows]
                if len(nows) != 1 or len(rest) != 1 or \
                        df[nows[0]] != -df[rest[0]]:
                    continue
                # now - C' < ts    or   ts < now - C'
                young = atom(a) if df[nows[0]] > 0 else NOT(atom(a))
                age = -df.get(None, 0) * (1 if df[nows[0]] > 0 else -1)
                c.require(age >= C, e.where(),
                          "a use is remembered for the cooldown period",
                          "a use is forgotten after %s s, before the end of "
                          "the cooldown period of %s s" % (age, C),
                          "forgotten-early", e)
                base = exists_atoms(p.cond, lambda x: x is a)
                c.never(AND(base, young, NOT(p.cond)), e,
                        "a use is remembered for the cooldown period",
                        "a use is forgotten before the end of the cooldown "
                        "period", "forgotten-early")


EARLIER = ("loopval", "loopadd", "looprm")


@rule("P19", "the accesses of every file in the local directory are noticed, "
             "whether it is held locally or remotely")
def accesses_noticed(c):
    d = Daemon(c)
    if not d.ok:
        return
    r = d.r
    watches = [e for e in r.events if e.name == ".add_watch"]
    for root in ("LOCAL", "REMOTE"):
        P = mk("root", root)
        ws = [e for e in watches if e.args and any(
            l is P for l, _ in leaves(r.c(e.arg(0, "path"))))]
        w = ws[0].where() if ws else d.where
        if not c.require(ws, w, "%s is watched" % root.lower(),
                         "the %s directory is not watched" % root.lower(),
                         "unwatched-" + root.lower()):
            continue
        for e in ws:
            mask = e.arg(1, "mask")
            names = {s.args[0] for s in subterms(r.c(mask)) if s.op == "ext"} \
                if mask is not None else set()
            if not names:
                c.note("%s: what is watched is not known" % e.where())
                continue
            c.require("pyinotify.IN_OPEN" in names or
                      "pyinotify.ALL_EVENTS" in names, e.where(),
                      "opening a file is noticed",
                      "opening a file is not noticed", "mask-open", e)
            rec = e.arg(3, "rec", KFALSE)
            auto = e.arg(4, "auto_add", KFALSE)
            c.require(rec is KTRUE, e.where(), "directories below are watched",
                      "directories below are not watched", "watch-rec", e)
            c.require(auto is KTRUE and (
                "pyinotify.IN_CREATE" in names or
                "pyinotify.ALL_EVENTS" in names), e.where(),
                "directories made later are watched",
                "directories made later are not watched", "watch-new", e)
            inner = [x for l in e.loops for x in l[1]]
            c.never(AND(NOT(r.pc(e)), d.pc), e, "watched before the loop",
                    "the %s directory is not always watched" % root.lower(),
                    "unwatched-" + root.lower()) if not inner else None
    gets = [e for e in r.events if e.name in (".get", ".get_nowait") and
            e.loops and e.loops[0][0] == d.loop]
    if len(gets) != 1:
        c.note("%s: how events are received is not understood" % d.where)
        return
    e = gets[0]
    ends = [b for b in r.I.backedges if b[0] == e.loops[-1][0]]
    if len(ends) != 1 or ends[0][0] == d.loop:
        c.note("%s: how events are received is not understood" % d.where)
        return
    end = ends[0][3]
    pc = r.canon.b(AND(end.pc, end.ax))
    found = []
    seen = set()
    for ref, h in end.heap.items():
        if not isinstance(h, HColl):
            continue
        for pid, p in h.parts.items():
            if isinstance(pid, tuple) and pid and pid[0] == "add":
                continue
            k = r.c(p.key)
            if any(s.op == "relpath" and e.result in subterms(p.key)
                   for s in subterms(k)) and (p.key, p.cond) not in seen:
                seen.add((p.key, p.cond))
                found.append((k, r.canon.b(p.cond)))
    if not found:
        c.note("%s: how events are received is not understood" % e.where())
        return
    res = r.c(e.result)
    path = None
    for k, f in found:
        for s in subterms(k):
            if s.op == "relpath":
                path = s.args[0]
    known_ = {"within", "indb", "bitand", "tmeth"}
    got = done(r, end, e)
    for root in ("LOCAL", "REMOTE"):
        P = mk("root", root)
        mine = 0
        rel = relpath(path, P)
        for k, f in found:
            for l, cond in leaves(k):
                ks = l.args if l.op == "tup" else (l,)
                if any(x is rel for t in ks for x, _ in leaves(t)):
                    g = OR(*[cc for t in ks for x, cc in leaves(t) if x is rel])
                    mine = OR(mine, AND(exists_atoms(
                        f, lambda a: atom_has(a, EARLIER)), cond, g))
        under = within(path, P)
        wrong = 0
        for k, f in found:
            for t in (k.args if k.op == "tup" else (k,)):
                for l, cond in leaves(t):
                    if l.op == "relpath" and l is not rel and \
                            l.args[1] is P:
                        wrong = OR(wrong, AND(f, cond))
        # a known file in this directory
        given = AND(under, got)
        for a in set(atoms(mine)) | set(atoms(pc)):
            s = set(subterms(a))
            if a.op == "indb":
                given = AND(given, atom(a))
            elif a.op in ("bitand", "tmeth", "attr") and res in s:
                if any(isinstance(x, str) and "IN_Q_OVERFLOW" in x
                       for t in s for x in t.args) or any(
                        x in ("dir",) for t in s if t.op in ("tmeth", "attr")
                        for x in map(str, t.args)):
                    given = AND(given, NOT(atom(a)))
            elif a.op == "within" and a.args[0] is path and a.args[1] is not P:
                given = AND(given, NOT(atom(a)))
            elif a.op == "dbdir":
                given = AND(given, NOT(atom(a)))
        c.never(AND(pc, given, NOT(mine)), e,
                "the use of a known file is counted",
                "the use of a known file in the %s directory is not counted"
                % root.lower(), "use-ignored-" + root.lower())


# ----------------------------------------------------------------- decay
def evaluate(t, sample):
    """The value of a numeric term, given that of some of its subterms."""
    v = sample(t)
    if v is not None:
        return v
    n = num(t)
    if n is not None:
        return float(n)
    a = t.args
    if t.op in ("add", "sub", "mul", "div", "pow", "floordiv", "mod") and \
            len(a) == 2:
        x, y = evaluate(a[0], sample), evaluate(a[1], sample)
        if x is None or y is None:
            return None
        try:
            return {"add": lambda: x + y, "sub": lambda: x - y,
                    "mul": lambda: x * y, "div": lambda: x / y,
                    "pow": lambda: x ** y, "floordiv": lambda: x // y,
                    "mod": lambda: x % y}[t.op]()
        except (ArithmeticError, ValueError):
            return math.nan
    if t.op in ("usub", "neg", "unUSub"):
        x = evaluate(a[0], sample)
        return None if x is None else -x
    if t.op in ("int", "float"):
        x = evaluate(a[0], sample)
        return x if x is None or t.op == "float" else float(int(x))
    if t.op == "pure" and isinstance(a[0], str) and len(a) > 1 and \
            isinstance(a[1], tuple):
        f = {"math.pow": math.pow, "math.exp": math.exp, "math.log": math.log,
             "math.log2": math.log2, "math.sqrt": math.sqrt, "pow": pow,
             "math.exp2": lambda x: 2 ** x, "float": float, "abs": abs,
             "round": round}.get(a[0])
        xs = [evaluate(x, sample) for x in a[1]]
        if f is None or None in xs:
            return None
        try:
            return f(*xs)
        except (ArithmeticError, ValueError):
            return math.nan
    return None


def spread(t, limit=40):
    """The alternatives of t, also of choices below its top."""
    todo, out = [t], []
    while todo and len(out) < limit:
        x = todo.pop()
        s = next((s for s in subterms(x) if s.op == "ite"), None)
        if s is None:
            out.append(x)
        else:
            todo += [subst_terms(x, {s: s.args[1]}),
                     subst_terms(x, {s: s.args[2]})]
    return out


def half_life_sample(hours):
    def sample(t):
        if t.op in ("int", "float") and t.args[0].op in ("cfgval", "loopval") \
                and is_k(t.args[0].args[-1]) and \
                kval(t.args[0].args[-1]) == "PriorityHalfLife":
            return float(hours)
        return None
    return sample


def elapsed(f, key):
    """[(condition that at least I seconds passed since the time, I)]"""
    out = []
    for a in atoms(f):
        if a.op != "lt":
            continue
        df = difference(a)
        nows = [t for t in df if t is not None and is_now(t)]
        rest = [t for t in df if t is not None and t not in nows]
        if len(nows) != 1 or len(rest) != 1 or df[nows[0]] != -df[rest[0]]:
            continue
        if not any(is_k(x) and kval(x) == key for s in subterms(rest[0])
                   for x in s.args if isinstance(x, T)):
            continue
        s = df[nows[0]]
        # s*(now - ts) + k < 0
        if s > 0:
            out.append((NOT(atom(a)), -df.get(None, 0) / s, rest[0]))
        else:
            out.append((atom(a), df.get(None, 0) / -s, rest[0]))
    return out


@rule("P19", "the priorities are multiplied once per interval, by the factor "
             "that halves them once per half-life")
def decay(c):
    d = Daemon(c)
    if not d.ok:
        return
    r = d.r
    if not c.require(d.adjs, d.where, "priorities are adjusted",
                     "priorities are never adjusted", "no-decay"):
        return
    for e in d.adjs:
        w = e.where()
        f = r.pc(e)
        # Guards known only through raw terms: use the uncanonical condition.
        el = elapsed(f, "LastAdjust") or elapsed(e.pc, "LastAdjust")
        el = [x for x in el if feasible(AND(f, NOT(r.canon.b(x[0])))) == 0 or
              feasible(AND(e.pc, NOT(x[0]))) == 0]
        if not el:
            c.require(elapsed(f, "LastSync") == [] and not nowish(f), w,
                      "adjusted only after the interval",
                      "the priorities are adjusted without regard to when "
                      "they were adjusted last", "decay-interval", e)
            c.note("%s: when priorities are adjusted is not understood" % w)
            continue
        cond, I, ts = el[0]
        c.require(I > 0, w, "the interval is positive",
                  "the priorities are adjusted all the time",
                  "decay-interval", e)
        adj = e.kw.get("adjustment")
        alts = spread(r.c(adj)) if adj is not None else []
        c.require(any(s.op in ("cfgval", "loopval") for l in alts
                      for s in subterms(l)) or adj is None or any(
                          has_op(l, *UNKNOWN) for l in alts), w,
                  "the factor depends on the half-life",
                  "the factor does not depend on the half-life",
                  "decay-factor", e)
        for l in alts:
            if not any(s.op in ("cfgval", "loopval") for s in subterms(l)) \
                    and evaluate(l, half_life_sample(1)) is not None:
                default = evaluate(l, half_life_sample(1))
                c.require(0 < default <= 1, w, "the factor is a fraction",
                          "the factor is %s" % default, "decay-factor", e)
                continue                    # the default of the option
            bad = None
            known_ = True
            for hours in (1, 2, 24, 120, 1000):
                v = evaluate(l, half_life_sample(hours))
                if v is None:
                    known_ = False
                    break
                want = 0.5 ** (float(I) / (hours * 3600.0))
                if not (math.isfinite(v) and abs(v - want) <= 1e-9):
                    bad = (hours, v, want)
                    break
            if not known_:
                c.note("%s: the factor %s is not understood" % (w, show(l, 5)))
                continue
            c.require(bad is None, w, "the factor halves once per half-life",
                      bad and "with a half-life of %s h the factor per %s s is "
                      "%.6g instead of %.6g" % (bad[0], I, bad[1], bad[2]),
                      "decay-factor", e)
        # it happens whenever it is due
        dn = done(r, d.end, e)
        exc = failed(d.pc, dn)
        alldone = OR(*[done(r, d.end, x) for x in d.adjs])
        c.never(AND(d.pc, r.canon.b(cond), NOT(alldone), NOT(exc)), e,
                "adjusted whenever it is due",
                "the priorities are not always adjusted when it is due",
                "decay-skipped")
        decay_recorded(c, d, e, I, ts)


def nowish(f):
    return any(is_now(s) for a in atoms(f) for s in subterms(a))


def decay_recorded(c, d, e, I, ts):
    from .rules_life import saves, dumped
    r = d.r
    dn = done(r, d.end, e)
    exc = failed(d.pc, dn)
    rec = 0
    for w, s in saves(r):
        if not w.loops or w.loops[0][0] != d.loop:
            continue
        vals = dumped(r, w, "LastAdjust")
        if vals is None:
            c.note("%s: what is written is not known" % w.where())
            return
        new = 0
        for f, x in vals:
            this = any(is_now(t) for t in subterms(x)) or \
                lin_of_time(x, ts, I)
            old = any(t.op in ("jsonval", "loopval") for t in subterms(x)) \
                and not this
            if this:
                new = OR(new, f)
                other = [t for t in subterms(x) if is_now(t)]
        rec = OR(rec, AND(done(r, d.end, s), new))
    c.never(AND(d.pc, dn, NOT(exc), NOT(rec)), e,
            "the time of the adjustment is recorded",
            "the time of the adjustment is not recorded: the priorities are "
            "adjusted again in the next round", "decay-unrecorded")
    later = OR(*[done(r, d.end, x) for x in d.commits if x.seq > e.seq])
    c.never(AND(d.pc, dn, NOT(later), NOT(failed(d.pc, dn, later))), e,
        "the adjustment is committed", "the adjustment is not committed",
        "decay-uncommitted")


def lin_of_time(x, ts, I):
    return any(s is ts for s in subterms(x))


# --------------------------------------------------- nothing a sync is lost
@rule("P19 P02", "what the daemon writes to the info file was read after the "
                 "last operation that can wait for a sync, so that the results "
                 "of a sync are not reset")
def syncs_not_reverted(c):
    from .rules_life import saves, dumped
    d = Daemon(c)
    if not d.ok:
        return
    r = d.r
    loads = [e for e in r.events if e.name == "json.load" and e.loops and
             e.loops[0][0] == d.loop]
    waits = [e for e in r.events if e.name in (
        "db.adjust_all", "db.increment", "db.commit", "time.sleep", "db.write")
        and e.loops and e.loops[0][0] == d.loop]
    for w, s in saves(r):
        where = w.where()
        if not w.loops:
            c.note("%s: the daemon writes the info file outside its loop"
                   % where)
            continue
        vals = dumped(r, w, "LastSync")
        if not vals:
            c.note("%s: what is written is not known" % where)
            continue
        f = r.pc(w)
        for cond, x in vals:
            docs = {t.args[0] for t in subterms(x) if t.op == "jsondoc"}
            src = [e for e in loads if e.args and r.c(e.args[0]) in docs]
            fresh_ = 0
            for ld in src:
                ok = happened(r, w, ld)
                for q in waits:
                    # q happened, and not before the load
                    if q.seq > ld.seq and q.seq < w.seq:
                        ok = AND(ok, NOT(happened(r, w, q)))
                fresh_ = OR(fresh_, ok)
            c.never(AND(f, cond, NOT(fresh_)), w,
                    "the time of the last sync is what the file says now",
                    "the daemon writes a time of the last sync that it read "
                    "before waiting for the database or an earlier round: the "
                    "result of a sync is reset", "sync-reverted")


@rule("P19", "no command changes when the priorities were adjusted last")
def adjust_time_kept(c):
    from .rules_life import saves, dumped
    for name in ("sync", "reset", "empty_trash"):
        r = c.run(name)
        if r is None:
            continue
        for w, s in saves(r):
            vals = dumped(r, w, "LastAdjust")
            if vals is None:
                c.note("%s: what is written is not known" % w.where())
                continue
            for f, x in vals:
                if feasible(AND(r.pc(w), f)) == 0:
                    continue
                keys = {kval(t.args[-1]) for t in subterms(x)
                        if t.op in ("jsonval", "loopval") and
                        is_k(t.args[-1])}
                c.require(keys == {"LastAdjust"} or x is NONE, w.where(),
                          "LastAdjust is written as it was read",
                          "%s writes %s as the time of the last adjustment"
                          % (name, show(x, 4)), "adjust-time-" + name, w)


# ------------------------------------------------------- P29: periodic syncs
def thread_run(M):
    """The thread that the daemon starts, after the profile was read."""
    if "daemon-thread" in M.cache:
        return M.cache["daemon-thread"]
    d = M.daemon
    ts = [e for e in d.events if e.name == "threading.Thread"]
    if not ts:
        raise Missing("the thread of the daemon")
    t = ts[0].arg(1, "target")
    if t is not None and t.op == "bound":
        t = t.args[0]
    if t is None or t.op != "fn":
        raise Missing("the thread of the daemon")
    fi = d.I.funcs[t.args[0]]

    def drive(run, I, st):
        D = M.prog.dummy
        run.obj = I.instantiate(M.cls(I, st, "zielen.daemon", "Daemon"),
                                [mk("arg", "0")], {}, D, st)
        p = I.getattr_(run.obj, "profile", D, st)
        I.call(I.getattr_(p, "read", D, st), [], {}, D, st)
        run.init_events = len(I.events)
        run.init_st = st.copy()
        run.result = I.call(I.getattr_(run.obj, fi.name, D, st), [], {}, D, st)
    r = M.cache["daemon-thread"] = Run(M.prog, "daemon thread", drive)
    return r


def interval_sample(minutes):
    def sample(t):
        if t.op in ("int", "float") and t.args[0].op in ("cfgval", "loopval") \
                and is_k(t.args[0].args[-1]) and \
                kval(t.args[0].args[-1]) == "SyncInterval":
            return float(minutes)
        return None
    return sample


SPAWN = ("subprocess.Popen", "subprocess.run", "subprocess.call",
         "subprocess.check_call", "subprocess.check_output")


@rule("P29", "the daemon starts a sync of its profile when the interval has "
             "passed since the last sync or attempt, and waits for it")
def periodic_sync(c):
    r = c.run(thread_run, "daemon thread")
    if r is None:
        return
    evs = r.events[r.init_events:]
    w = "zielen/daemon.py"
    spawns = [e for e in evs if e.name in SPAWN]
    if not c.require(spawns, w, "syncs are started",
                     "the daemon doesn't start syncs", "no-sync"):
        return
    if len(spawns) != 1 or not spawns[0].loops:
        c.note("%s: how syncs are started is not understood" % w)
        return
    e = spawns[0]
    w = e.where()
    loop = e.loops[0][0]
    ends = [b for b in r.I.backedges if b[0] == loop]
    if len(ends) != 1:
        c.note("%s: the loop is not understood" % w)
        return
    end = ends[0][3]
    pc = r.canon.b(AND(end.pc, end.ax))
    # the command
    h = e.colls.get(0)
    cmd = None
    if h is not None:
        words = ordered(r, h)
        cmd = words
    if cmd is None:
        c.note("%s: the command is not known" % w)
    else:
        cmd = [x for x in cmd]
        ks = [kval(x) if is_k(x) else None for x in cmd]
        c.require("sync" in ks and ks and ks[0] == "zielen", w,
                  "the sync command is started",
                  "the command that is started is not 'zielen sync'",
                  "sync-command", e)
        prof = [r.c(x) for x in cmd if not is_k(x)]
        c.require(prof == [mk("arg", "0")] and
                  cmd.index(next(x for x in cmd if not is_k(x))) >
                  (ks.index("sync") if "sync" in ks else 0), w,
                  "the profile of the daemon is synced",
                  "another profile than that of the daemon is synced",
                  "sync-profile", e)
    # when
    f = r.pc(e)
    el = since(r, f)
    phis = {s for _, _, ts in el for s in subterms(ts) if s.op == "phi"}
    if el and not phis:
        c.require(False, w, "an attempt is recorded",
                  "attempts are not recorded: after a sync that fails, the "
                  "next is started at once", "attempt-unrecorded", e)
        return
    if not el or len(phis) != 1:
        due = [a for a in atoms(f) if a.op == "lt"]
        c.require(due, w, "syncs are started at intervals",
                  "syncs are started without regard to the interval",
                  "sync-interval", e)
        c.note("%s: when syncs are started is not understood" % w)
    else:
        phi = phis.pop()
        c.require(any(s.op in ("cfgval", "loopval") for _, I, _ in el
                      for s in subterms(I)), w,
                  "the interval is the configured one",
                  "the interval is not the configured one", "sync-interval", e)
        for cond, I, ts in el:
            bad = None
            for minutes in (1, 20, 90):
                v = evaluate(I, interval_sample(minutes))
                if v is None:
                    c.note("%s: the interval %s is not understood" % (
                        w, show(I, 5)))
                    break
                if any(s.op in ("cfgval", "loopval") for s in subterms(I)) and \
                        abs(v - 60 * minutes) > 1e-6:
                    bad = (minutes, v)
            c.require(bad is None, w, "the interval is the configured one",
                      bad and "with an interval of %s min syncs are started "
                      "after %s s" % bad, "sync-interval", e)
        # every way to start a sync has one of the conditions
        # (there is one for the default and one for the configured interval)
        conds = [named(r.canon.b(cond), phi) for cond, _, _ in el]
        f, pc = named(f, phi), named(pc, phi)
        dn = named(done(r, end, e), phi)
        c.never(AND(f, *[NOT(x) for x in conds]), e,
                "no sync before the interval has passed",
                "a sync is started before the interval has passed",
                "sync-early")
        c.never(AND(pc, *conds, NOT(dn), NOT(failed(pc, dn))), e,
                "a sync is started when the interval has passed",
                "no sync is started though the interval has passed",
                "sync-skipped")
        attempt_recorded(c, r, e, phi, end, pc, dn)
        process_awaited(c, r, e, end, pc, dn, phi)
    nothing_unread(c, r, e)


PREV = mk("arg", "#last attempt")


def named(f, phi):
    """f with an ordinary name for the loop variable phi."""
    return bmap(f, lambda a: (lambda b: b.args[0] if b.op == "b" else (
        truth_of(b) if b.op in ("k", "ite") else atom(b)))(
            subst_terms(a, {phi: PREV})))


def since(r, f):
    """[(condition, interval, time)] of comparisons of the current time with a
    time and an interval."""
    out = []
    for a in atoms(f):
        if a.op != "lt":
            continue
        df = difference(a)
        nows = [t for t in df if t is not None and is_now(t)]
        rest = [t for t in df if t is not None and t not in nows]
        past = [t for t in rest if any(
            s.op in ("phi", "jsonval") for s in subterms(t)) and not any(
            s.op in ("cfgval",) for s in subterms(t))]
        inter = [t for t in rest if t not in past]
        if len(nows) != 1 or len(past) != 1 or abs(df[nows[0]]) != 1 or \
                df[past[0]] != -df[nows[0]]:
            continue
        s = df[nows[0]]
        # s*(now - past) + rest < 0;  interval = -rest/s
        I = K(float(-df.get(None, 0) / s))
        for t in inter:
            I = mk("add", I, mk("mul", K(float(-df[t] / s)), t))
        out.append((NOT(atom(a)) if s > 0 else atom(a), I, past[0]))
    return out


def ordered(r, h):
    """The items of a list display, or None."""
    if h.kind not in ("list", "tuple"):
        return None
    items = h.meta.get("items") if h.meta else None
    if items is not None:
        return list(items)
    out = []
    for pid, p in h.parts.items():
        if p.cond != 1 or p.vars:
            return None
        out.append(p.key)
    return out


def attempt_recorded(c, r, e, phi, end, pc, dn):
    """The time that the interval counts from: of the last sync first, of the
    end of the last attempt later."""
    w = e.where()
    key = (phi.args[0], phi.args[1])
    name = str(phi.args[1]).split(".", 1)[-1]
    fid = str(phi.args[1]).split(".", 1)[0]
    val = None
    for f_, fr in end.frames.items():
        if str(f_) == fid and name in fr:
            val = fr[name]
    if val is None:
        for ref, h in end.heap.items():
            if ("h%d" % ref.args[0]) == fid and name in getattr(
                    h, "fields", {}):
                val = h.fields[name]
    if val is None:
        c.note("%s: when the last attempt was is not understood" % w)
        return
    for l, cond in leaves(val):
        g = named(r.canon.b(cond), phi)
        if l is not phi:
            c.never(AND(pc, g, NOT(dn), NOT(failed(pc, dn))), e,
                    "the interval counts from the last attempt",
                    "the time that the interval counts from moves on without "
                    "an attempt: no sync is started", "sync-postponed")
        ln = lin(l)
        nows = [t for t in ln if t is not None and is_now(t)]
        if len(nows) == 1 and ln[nows[0]] == 1 and set(ln) <= {None, nows[0]}:
            c.require(not ln.get(None), w, "the time of the attempt is "
                      "recorded", "another time than that of the attempt is "
                      "recorded", "attempt-time", e)
        elif l is phi:
            c.never(AND(pc, g, dn), e, "an attempt is recorded",
                    "an attempt is not recorded: the next sync is started at "
                    "once", "attempt-unrecorded")
        elif any(s.op == "jsonval" and is_k(s.args[-1]) and
                 kval(s.args[-1]) == "LastSync" for s in subterms(l)):
            # what a successful sync recorded; a failed one records nothing
            c.never(AND(pc, g, dn), e, "an attempt is recorded",
                    "a sync that fails is not recorded as an attempt: it is "
                    "started again at once", "attempt-unrecorded")
        else:
            c.note("%s: when the last attempt was is not understood" % w)
    alts = [a for a in r.I.phi_alts.get(key, ()) if not is_now(a)]
    first = [a for a in alts if a is not phi]
    good = [a for a in first if any(
        is_k(x) and kval(x) == "LastSync" for s in subterms(a)
        for x in s.args if isinstance(x, T)) and not any(
            is_now(s) for s in subterms(a))]
    c.require(good or not r.I.phi_alts.get(key), w,
              "the first interval counts from the last sync",
              "the first interval does not count from the last sync",
              "first-interval", e)


def process_awaited(c, r, e, end, pc, dn, phi):
    """The process is waited for, and what it writes is read meanwhile."""
    w = e.where()
    if e.name != "subprocess.Popen":
        c.ok(w, "the sync is waited for")
        return
    waits = [x for x in r.events[r.init_events:] if x.name in (
        ".wait", ".communicate", ".poll", ".__exit__") and
        x.recv is not None and any(s is e.result for s in subterms(x.recv))]
    waited = named(OR(*[done(r, end, x) for x in waits
                        if x.name != ".poll"]), phi)
    if any(x.name == "with.exit" and any(
            s is e.result for a in x.args for s in subterms(a))
           for x in r.events):
        c.ok(w, "the sync is waited for")
        return
    c.never(AND(pc, dn, NOT(waited), NOT(failed(pc, dn, waited))), e,
            "the sync is waited for",
            "the daemon does not wait for the sync to end", "sync-not-awaited")
    piped = [k for k in ("stdout", "stderr") if e.kw.get(k) is not None and any(
        s.op == "ext" and s.args[0] == "subprocess.PIPE"
        for s in subterms(e.kw[k]))]
    if "stderr" in piped and not any(x.name == ".communicate" for x in waits):
        reads = [s for x in r.events[r.init_events:] for a in
                 list(x.args) + ([x.recv] if x.recv is not None else [])
                 for s in subterms(a)]
        iters = [t for b in r.I.backedges for t in (b,)]
        src = [x for x in r.I.events if x.loops and x.loops[0][0] ==
               e.loops[0][0] and len(x.loops) > len(e.loops)]
        c.require(src or any(
            s.op in ("tmeth", "attr") and "stderr" in map(str, s.args)
            for s in reads), w, "what a sync reports is read",
            "what a sync writes to its standard error stream is never read: "
            "it blocks when the pipe is full", "stderr-unread", e)


def nothing_unread(c, r, e):
    """The daemon never reads the standard output of a sync, so a sync must not
    write to it."""
    from . import rules_body
    k = e.kw.get("stdout")
    if k is None or not any(s.op == "ext" and s.args[0] == "subprocess.PIPE"
                            for s in subterms(k)):
        c.ok(e.where(), "the output of a sync doesn't go to a pipe")
        return
    runs = [c.run("sync")]
    for whole in (False, True):
        runs.append(c.run(rules_body.transfer_body_of(whole), "transfer_tree"))
    for q in runs:
        if q is None:
            continue
        for x in q.events:
            if x.name not in ("print", "sys.stdout.write"):
                continue
            if x.name == "print" and x.kw.get("file", NONE) is not NONE:
                continue
            tty = [a for a in atoms(x.pc) if any(
                "isatty" in str(y) for s in subterms(a) for y in s.args
                if not isinstance(y, T))]
            f = x.pc
            for a in tty:
                f = cofactor(f, a, False)
            c.never(f, x, "a sync prints only to a terminal",
                    "a sync writes to its standard output, which the daemon "
                    "never reads: it blocks when the pipe is full",
                    "stdout-unread")


@rule("P29", "the daemon starts its thread for syncs, which does not keep it "
             "from ending")
def thread_started(c):
    r = c.run("daemon")
    if r is None:
        return
    ts = [e for e in r.events if e.name == "threading.Thread"]
    w = "zielen/daemon.py"
    if not c.require(ts, w, "a thread for syncs", "the daemon has no thread "
                     "for syncs", "no-thread"):
        return
    for e in ts:
        starts = [x for x in r.events if x.name == ".start" and
                  x.recv is not None and any(
                      s is e.result for s in subterms(x.recv))]
        c.require(any(not x.loops for x in starts), e.where(),
                  "the thread is started", "the thread is not started",
                  "thread-not-started", e)
        c.require(e.kw.get("daemon") is KTRUE or is_daemonic(r, e), e.where(),
                  "the thread ends with the daemon",
                  "the thread keeps the daemon from ending", "thread-daemon",
                  e)


def is_daemonic(r, e):
    """The thread is made one that does not keep the process alive."""
    return any(x.name == "setattr" and len(x.args) > 2 and
               x.args[0] is e.result and is_k(x.args[1]) and
               kval(x.args[1]) == "daemon" and x.args[2] is KTRUE or
               x.name == ".setDaemon" and x.recv is e.result and
               x.args and x.args[0] is KTRUE for x in r.events)


@rule("P19 P21", "the thread that receives accesses is started, once, and does "
                 "not keep the daemon from ending when it is told to")
def watcher_started(c):
    r = c.run("daemon")
    if r is None:
        return
    for e in r.events:
        if e.name != "pyinotify.ThreadedNotifier":
            continue
        starts = [x for x in r.events if x.name == ".start" and
                  x.recv is e.result]
        c.require(any(not x.loops for x in starts), e.where(),
                  "accesses are received", "the thread that receives accesses "
                  "is not started", "watcher-not-started", e)
        stops = [x for x in r.events if x.name == ".stop" and
                 x.recv is e.result]
        c.require(is_daemonic(r, e) or stops, e.where(),
                  "the thread ends with the daemon",
                  "the thread that receives accesses keeps the daemon from "
                  "ending when it is told to", "watcher-daemon", e)


@rule("P29 P16", "the values of a configuration file are replaced at once, "
                 "because the daemon's threads share them")
def config_replaced(c):
    from .rules_conf import conf_run, prims_without
    r = c.run(lambda M: conf_run(M, "read", prims_without("read")),
              "ConfigFile.read")
    if r is None or r.final is None or r.final.dead():
        return
    w = "zielen/containerbase.py in ConfigFile.read"
    old = getattr(r, "old_vals", None)
    new = r.final.heap[r.obj].fields.get("raw_vals")
    if old is None or new is None:
        c.note("%s: what is read before is not known" % w)
        return
    c.require(all(l is not old for l, _ in leaves(new)), w,
              "the values are replaced at once",
              "while the file is read, the daemon's other thread sees options "
              "without their values", "config-partial")
