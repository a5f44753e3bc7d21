"""Selection of what is held locally under the storage limit."""
from fractions import Fraction
from .terms import *
from .terms import T
from . import ext as E
from .model import *
from .model import definite, feasible, fresh_names
from .vocab import *
from .check import rule
from .arith import lin, plus, difference
from .rules_sync import sync, downloads

ACCOUNT = mk("option", "AccountForSize")
LIMIT = mk("option", "StorageLimit")
SPACE = mk("arg", "limit")


def possible(f):
    return feasible(definite(fresh_names(f), (
        "top", "topzip", "havoc"))) != 0


def paths(r, f):
    """f in canonical form, with the ways to say that a path is below another
    one made the same."""
    def at(a):
        if a.op == "ex":
            b = bmap(a.args[1], at)
            return atom(a) if b == a.args[1] else exists(a.args[0], b)
        if a.op == "startswith" and a.args[1].op == "cat":
            *b, sep = a.args[1].args
            if sep is K("/") and len(b) == 1:
                b = b[0]
                if b.op == "rstripsep":
                    b = b.args[0]
                x = a.args[0]
                if x.op == "cat" and len(x.args) == 2 and \
                        x.args[1] is K("/"):
                    return within(x.args[0], b)
                return AND(within(x, b), NOT(eq(x, b)))
        if a.op == "under":
            return within(*a.args)
        return atom(a)
    return bmap(r.canon.b(f), at)


class Unknown(Exception):
    """The code computes something in a way that is not analysed."""


def options():
    p = without("prioritize_files", "prioritize_dirs", "get_excluded_size")
    p[("Profile", "account_for_size")] = \
        lambda I, st, node, b, fi: vbool(atom(ACCOUNT))
    p[("Profile", "storage_limit")] = lambda I, st, node, b, fi: LIMIT
    return p


def selection_run(M, name):
    def setup(run, I, st, f):
        m = run.prog.modules

        def inst(mod, n, *a):
            I.fid, I.module = m[mod].fid, m[mod]
            return I.instantiate(st.frames[m[mod].fid][n], list(a), {},
                                 M.prog.dummy, st)
        l = inst("zielen.userdata", "LocalSyncDir", mk("root", "LOCAL"))
        rm = inst("zielen.userdata", "RemoteSyncDir", mk("root", "REMOTE"))
        p = inst("zielen.profile", "Profile", mk("arg", "name"))
        I.fid, I.module = m["zielen.filelogic"].fid, m["zielen.filelogic"]
        return I.call(f, [l, rm, p], {}, M.prog.dummy, st)

    def mkargs(run, I, st):
        if name == "get_excluded_size":
            return [], {}
        if name == "prioritize_files":
            return [SPACE, argcoll(I, st, "exclude")], {}
        return [SPACE], {}
    return func_run(M, "FilesManager." + name, "zielen.filelogic", name,
                    mkargs, options(), cls="FilesManager", setup=setup)


# --------------------------------------------------------------- quantities
class Entry:
    """For every vs satisfying cond, amount is added."""
    base = 1

    def __init__(self, vs, cond, amount, key=None):
        self.vs, self.cond, self.amount, self.key = vs, cond, amount, key


class Quantities:
    def __init__(self, r):
        self.r, self.I = r, r.I
        self.ends = {}
        for lid, xs, s, st in r.I.backedges:
            self.ends.setdefault(lid, []).append((xs, s, st))

    def c(self, t):
        return self.r.canon(t)

    def parts(self, t):
        """The amounts a total is made of, and what it starts from (linear)."""
        if t.op == "phi":
            return self.phi_parts(t)
        if t.op in ("sum", "len"):
            coll = t.args[-1] if t.op == "len" else t.args[0]
            if coll.op != "coll":
                raise Unknown("what is added up")
            if t.op == "sum" and coll.args[0] == "set":
                raise Unknown("a sum over a set")
            out = []
            for p in coll.args[1]:
                vs, key, val, cond = p.args
                m = {v: fresh("y") for v in vs}
                f = bsubst(self.r.I.truth(cond, self.r.final), m)
                key = subst(key, m)
                out.append(Entry(tuple(m.values()), f, key if t.op == "sum"
                                 else K(1), key))
            return out, lin(t.args[1]) if t.op == "sum" and \
                len(t.args) > 1 else {}
        raise Unknown("a quantity")

    def phi_parts(self, t):
        lid, name = t.args[:2]
        ends = []
        for xs, node, end in self.ends.get(lid, ()):
            head, entry, rec, part = self.I.loopheads[lid, xs]
            if self.value(head, name) is t:
                ends = [(xs, end, head, entry)]
                break
            ends.append((xs, end, head, entry))
        if len(ends) != 1:
            raise Unknown("a loop")
        xs, end, head, entry = ends[0]
        h, e, b = (self.value(st, name) for st in (head, end, entry))
        if h is None or e is None or b is None or h.op != "phi":
            raise Unknown("a loop")
        outer = h.args[2:]
        if len(outer) != len(t.args) - 2:
            raise Unknown("a nested loop")
        m = dict(zip(outer, t.args[2:]))
        ys = {x: fresh("y") for x in xs}
        m.update(ys)
        out = []
        for leaf, cond in leaves(e):
            d = plus(lin(leaf), lin(h), -1)
            f = AND(end.pc, cond)
            if not d or f == 0:
                continue
            if h in d and d[h] == -1 and not any(
                    h in subterms(k) for k in d if k not in (None, h)):
                # It is replaced, not added to.
                d = {mk("replaced"): 1}
            if any(h in subterms(k) for k in d if k is not None):
                raise Unknown("how a quantity grows")
            out.append(Entry(tuple(ys.values()), bsubst(f, m),
                             {subst(k, m) if k is not None else None: v
                              for k, v in d.items()}))
            # What holds whenever the loop is reached
            out[-1].base = bsubst(entry.pc, m)
        start = {}
        for leaf, cond in leaves(b):
            start = lin(subst(leaf, m))
            if cond != 1:
                raise Unknown("where a quantity starts")
        for k in list(start):
            if k is not None and k.op == "phi":
                more, s2 = self.parts(k)
                v = start.pop(k)
                if v != 1:
                    raise Unknown("where a quantity starts")
                out += more
                start = plus(start, s2)
        return out, start

    def value(self, st, name):
        a, _, n = name.partition(".")
        if a.startswith("h"):
            o = next((o for k, o in st.heap.items()
                      if k.op == "ref" and "h%s" % k.args[0] == a), None)
            return getattr(o, "fields", {}).get(n)
        for fid, fr in st.frames.items():
            if str(fid) == a:
                return fr.get(n)

    # ------------------------------------------------- what a total amounts to
    def blocks(self, t, base, y, scaled=False):
        """t is the disk usage of the path y in the directory base."""
        d = t if isinstance(t, dict) else lin(t)
        d = {self.c(k) if k is not None else None: v for k, v in d.items()}
        if len(d) != 1:
            return False
        (k, v), = d.items()
        return (v == 512 or scaled and v > 0) and k is not None and k.op == "stat" and \
            k.args[1] is K("st_blocks") and self.same(k.args[0], pjoin(base, y))

    def same(self, p, q):
        p = self.c(p)
        while p.op in ("target", "abspath", "realpath", "normpath"):
            p = p.args[0]
        return p is self.c(q)

    def total(self, t, cond, amount, given=1, inv=None):
        """None if t is the total of amount(y) over the y that satisfy
        cond(y); otherwise what is different."""
        entries, start = self.parts(t)
        if start:
            return "does not start from zero"
        y0 = fresh("y")
        cover = 0
        for e in entries:
            ys = [v for v in e.vs]
            if e.key is not None:
                if e.key.op != "var" and amount is None:
                    raise Unknown("what is counted")
            if len(ys) != 1:
                raise Unknown("what is added up")
            y = e.key if amount is None and e.key is not None else ys[0]
            f = AND(given, paths(self.r, e.cond))
            want = paths(self.r, cond(y))
            if possible(AND(f, inv(y) if inv else 1, NOT(want))):
                return "includes more than it should"
            if amount is not None and not amount(e.amount, y):
                return "adds something else"
            if e.base != 1:
                f = AND(given, paths(self.r, simplify(e.cond, e.base)))
            cover = OR(cover, bsubst(exists_atoms(
                f, lambda a: a.op == "exc"), {y: y0}))
        left = AND(given, inv(y0) if inv else 1, paths(self.r, cond(y0)), NOT(cover))
        if possible(left):
            return "leaves something out"
        return None


def space_terms(q, d):
    """The linear form d with its nodes in canonical form."""
    out = {}
    for k, v in d.items():
        out = plus(out, {q.c(k) if k is not None else None: v})
    return out


def is_block(q, t):
    """t is the disk usage of a link in the local directory."""
    return t is not None and t.op == "stat" and t.args[1] is K("st_blksize") \
        and q.same(t.args[0], LOCAL)


# ------------------------------------------------------------ greedy choice
class Choice:
    """A loop that puts its element into the result while space remains."""

    def __init__(self, q, lid, x, rem, ref):
        self.q, self.lid, self.x, self.rem, self.ref = q, lid, x, rem, ref
        (xs, self.node, self.end), = q.ends[lid]
        self.head, self.entry, self.rec, self.part = q.I.loopheads[lid, xs]
        self.breaks = q.I.loopbreaks[lid, xs]
        self.pc = self.end.pc
        self.chosen = AND(self.pc, put(self.end.heap[ref], x))
        self.R = q.value(self.head, rem)
        self.R2 = q.value(self.end, rem)

    def where(self):
        return "%s line %s" % (self.q.r.name, getattr(self.node, "lineno", "?"))

    def guards(self):
        """[(literal, quantity)]: the literal says that the quantity is not
        negative; those that hold whenever the element is chosen, and that
        depend on the space that remains."""
        out = []
        for a in atoms(self.chosen):
            if a.op != "lt":
                continue
            d = difference(a)
            if self.R not in d:
                continue
            s = d[self.R]
            lit = atom(a) if s < 0 else NOT(atom(a))
            q = {k: v / abs(s) * (-1 if s < 0 else 1) for k, v in d.items()}
            out.append((lit, q, implies(self.chosen, lit),
                        implies(self.chosen, NOT(lit))))
        return out


def put(coll, x):
    f = 0
    for p in coll.parts.values():
        if p.vars == () and p.key is x:
            f = OR(f, p.cond)
    return f


def outcome(r):
    """(remaining space, selected collection) the function returns."""
    out = []
    for t, cond in leaves(r.result):
        a = t.args[1] if t.op == "ntup" else t.args if t.op == "tup" else ()
        if len(a) != 2:
            raise Unknown("the result")
        out.append(a)
    if len(out) != 1:
        raise Unknown("the result")
    return out[0]


class Fixed(Exception):
    """The remaining space does not depend on what is selected."""


class Nothing(Exception):
    """Nothing is ever selected."""


def choices(r, q):
    rem, sel = outcome(r)
    if sel.op != "ref":
        raise Unknown("the result")
    ls = []
    for lid, ends in q.ends.items():
        for xs, node, end in ends:
            h = end.heap.get(sel)
            for x in xs:
                if h is not None and hasattr(h, "parts") and \
                        AND(end.pc, put(h, x)) != 0:
                    ls.append((lid, x))
    if not ls and E.nonempty(q.I, q.I.coll_of(sel, r.final)) == 0:
        raise Nothing()
    if not ls:
        raise Unknown("how paths are selected")
    names = set()
    for t, cond in leaves(rem):
        d = lin(t)
        if not any(x.op in ("phi", "sum", "top", "loopadd", "looprm", "havoc")
                   for k in d if k is not None for x in subterms(k)):
            raise Fixed()
        if len(d) != 1 or list(d)[0] is None or list(d)[0].op != "phi":
            raise Unknown("the remaining space")
        names.add(list(d)[0].args[1])
    if len(names) != 1:
        raise Unknown("the remaining space")
    name = names.pop()
    out = []
    for lid, x in ls:
        if len(q.ends[lid]) != 1:
            raise Unknown("how paths are selected")
        ch = Choice(q, lid, x, name, sel)
        if ch.R is None or ch.R.op != "phi" or ch.R2 is None:
            raise Unknown("the remaining space")
        out.append(ch)
    return out


def start_of(q, ch):
    """The linear form of the remaining space before anything is chosen."""
    seen = set()
    v = q.value(ch.entry, ch.rem)
    while v is not None and v.op == "phi" and v.args[1] == ch.rem:
        if v.args[0] in seen:
            return None
        seen.add(v.args[0])
        ends = q.ends.get(v.args[0], ())
        if len(ends) != 1:
            return None
        v = q.value(q.I.loopheads[v.args[0], ends[0][0]][1], ch.rem)
    return v


# --------------------------------------------------------------------- order
def sort_keys(q, ch):
    """[(part, [(term, descending)])]: what decides the order of the elements,
    most significant first."""
    sorts = ch.rec.meta.get("sorts") if ch.rec is not None else None
    if sorts is None:
        return None
    out = []
    for i, p in enumerate(sorts[0][0]):
        keys = []
        for ps, t, rev in sorts:
            if len(ps) != len(sorts[0][0]):
                raise Unknown("the order")
            k = subst(t, {V0: ps[i].key})
            k = unpack(k)
            for c in k.args if k.op == "tup" else (k,):
                c, sgn = sign(unpack(c))
                keys.append((c, rev != sgn))
        out.append((p, keys))
    return out


def unpack(t):
    if t.op == "idx" and t.args[0].op == "tup" and t.args[1].op == "k":
        return t.args[0].args[kval(t.args[1])]
    return t


def sign(t):
    s = False
    while t.op in ("usub", "neg", "unUSub"):
        t, s = unpack(t.args[0]), not s
    if t.op == "sub" and t.args[0] is K(0):
        return t.args[1], not s
    if t.op == "mul":
        for a, b in (t.args, t.args[::-1]):
            if a is K(-1):
                return b, not s
    return t, s


def in_order(c, q, chs, what, size_is):
    ch = chs[0]
    where = ch.where()
    ks = sort_keys(q, ch)
    if ks is None:
        if not any("priority" in str_of(t) for t in q.I.sorted_by):
            c.bad(where, "order", "%s are selected without regard to their priority"
                  % what, "order-" + what)
        else:
            c.note("%s: the order is not analysed" % where)
        return
    for p, keys in ks:
        if len(p.vars) != 1:
            c.note("%s: the order is not analysed" % where)
            return
        v = p.vars[0]
        first, desc = keys[0]
        prio = mk("pattr", mk("pdata", PDB, v), K("priority"))
        if first is v:
            c.bad(where, "order", "%s are selected in the order of their paths, "
                  "whatever their priority" % what, "order-" + what)
            continue
        ok = True
        for leaf, cond in leaves(first):
            f = AND(p.cond, cond)
            leaf, s = sign(leaf)
            for acc in (True, False):
                g = AND(f, atom(ACCOUNT) if acc else NOT(atom(ACCOUNT)))
                if g == 0:
                    continue
                t = q.c(leaf)
                if num_zero(t):
                    # For what has no size: no division by zero.
                    good = acc and any(
                        a.op == "exc" or any(y.op in ("phi", "stat", "sum")
                                             for y in subterms(a))
                        for a in atoms(g))
                    s = None
                elif acc:
                    good = t.op == "div" and q.c(t.args[0]) is prio and \
                        size_is(raw_div(leaf), v, paths(q.r, p.cond))
                else:
                    good = t is prio
                c.require(good, where, "the order of %s" % what,
                          "%s are ordered by %s%s" % (
                              what, short(t), ", although the size is to be "
                              "accounted for" if acc else ""),
                          "order-" + what)
                ok = ok and good
                if s is not None:
                    c.require(desc != s, where, "the order of %s" % what,
                              "those %s are selected first that have the "
                              "lowest priority" % what, "order-" + what)
        if not ok:
            continue
        rest = [k for k, d in keys[1:]]
        if not any(k is v for k in rest):
            if rest:
                c.note("%s: the order of equal priorities is not analysed"
                       % where)
            else:
                c.bad(where, "order", "%s of the same priority are selected in no "
                      "particular order" % what, "order-equal-" + what)
        else:
            c.ok(where, "the order of equal priorities")


def raw_div(t):
    return t.args[1]


def num_zero(t):
    return t.op == "k" and kval(t) in (0, 0.0)


def short(t):
    return show(t, 3)


def str_of(t):
    return show(t, 12)


# --------------------------------------------------------------------- rules
def is_dir(y):
    return atom(mk("pattr", mk("pdata", PDB, y), K("directory")))


class Form:
    """Linear forms over the quantities the selection is about: "S" a link in
    the local directory, ("size", what), ("N", what) a number of paths,
    ("S*N", what) the links to them.  size(term) names sizes; counts gives
    (name, condition on a path) of the numbers."""

    def __init__(self, q, size, counts=(), given=1):
        self.q, self.size, self.counts, self.given = q, size, counts, given
        self.memo = {}

    def named(self, d):
        out = {}
        for k, v in d.items():
            for n, w in self.name(k).items():
                out = plus(out, {n: v * w})
        return out

    def name(self, k):
        if k is None:
            return {None: 1}
        if k not in self.memo:
            self.memo[k] = self._name(k)
        return self.memo[k]

    def _name(self, k):
        t = self.q.c(k)
        if t is LIMIT or t is SPACE:
            return {t: 1}
        if is_block(self.q, t):
            return {"S": 1}
        if k.op == "mul" and len(k.args) == 2:
            a, b = self.name(k.args[0]), self.name(k.args[1])
            for x, y in ((a, b), (b, a)):
                if list(x) == ["S"] and len(y) == 1:
                    (n, w), = y.items()
                    if isinstance(n, tuple) and n[0] == "N":
                        return {("S*N", n[1]): w}
        if k.op == "len":
            for name, cond in self.counts:
                if self.q.total(k, cond, None, self.given) is None:
                    return {("N", name): 1}
        s = self.size(k)
        return s if s is not None else {("?", k): 1}


def compare(c, form, got, expect, where, what, how, ident):
    diff = plus(got, expect, -1)
    odd = [k for k in diff if isinstance(k, tuple) and k[0] == "?"]
    if any(not understood(form.q, k[1]) for k in odd):
        c.note("%s: the amount %s for %s is not analysed" % (where, how, what))
        return True
    return c.require(
        not diff, where, "the amount %s for %s" % (how, what),
        "the amount %s for %s is not what they take up: it differs by %s" % (
            how, what, ", ".join("%s * %s" % (v, name_of(k))
                                 for k, v in diff.items())), ident + what)


def name_of(k):
    if isinstance(k, tuple):
        return {"?": "another amount", "S*N": "the links to %s" % (k[1],),
                "N": "the number of %s" % (k[1],),
                "size": "the size of %s" % (k[1],)}[k[0]]
    return {"S": "a link", LIMIT: "the limit", SPACE: "the space given",
            None: "1"}[k]


def understood(q, t):
    """An amount that is certainly not the expected one, as opposed to one
    that is computed in a way not known here."""
    if q.c(t).op in ("stat", "option"):
        return True
    if t.op in ("len", "sum", "phi"):
        try:
            q.parts(t)
            return True
        except Unknown:
            return False
    if t.op == "mul":
        return all(a.op == "k" or understood(q, a) for a in t.args)
    return False


def check_step(c, q, ch, what, form, expect, skip):
    """What is selected is taken off the remaining space, it is selected
    exactly if that fits, and nothing is taken off otherwise."""
    where = ch.where()
    R = ch.R
    for leaf, cond in leaves(ch.R2):
        d = plus(lin(leaf), {R: 1}, -1)
        if d:
            c.require(
                not possible(AND(ch.pc, cond, NOT(ch.chosen))), where,
                "the space of what is not selected",
                "space is accounted for %s that are not selected" % what,
                "space-unselected-" + what)
        if possible(AND(ch.chosen, cond)):
            compare(c, form, form.named(d), expect, where, what, "taken off",
                    "space-")
    gs = ch.guards()
    held = [(l, d) for l, d, h, n in gs if h]
    if not held:
        if all(n for l, d, h, n in gs):
            c.bad(where, "%s fit" % what, "%s are selected whether or not "
                  "they fit" % what, "guard-" + what)
        else:
            c.note("%s: the condition of selection is not analysed" % where)
        return
    lits = 1
    for l, d in held:
        got = form.named(plus(d, {R: 1}, -1))
        if not plus(got, expect, -1):
            lits = AND(lits, l)
    if lits == 1:
        compare(c, form, got, expect, where, what,
                "compared with the remaining space", "guard-")
        return
    c.ok(where, "%s are selected if they fit" % what)
    for b in ch.breaks:
        c.require(not possible(AND(b.pc, lt(K(0), R))), where,
                  "%s that fit are selected" % what,
                  "no more %s are considered although there may be space left"
                  % what, "unselected-" + what)
    left = paths(q.r, AND(ch.pc, lits, NOT(ch.chosen), NOT(skip)))
    c.require(not possible(left), where, "%s that fit are selected" % what,
              "some %s are not selected although they fit" % what,
              "unselected-" + what)


def all_considered(c, q, chs, what, want):
    """Every path that satisfies want is an element of one of the loops."""
    y = fresh("y")
    seen = 0
    for ch in chs:
        f = exists_atoms(paths(q.r, ch.head.pc), lambda a: a.op == "exc")
        seen = OR(seen, bsubst(f, {ch.x: y}))
    c.require(not possible(AND(paths(q.r, want(y)), NOT(seen))),
              chs[0].where(), "all %s are considered" % what,
              "some %s are not considered" % what, "considered-" + what)


@rule("P26", "files are selected in order of priority as long as they fit, and "
             "what they take is taken off the remaining space")
def files_selected(c):
    r = c.run(lambda M: selection_run(M, "prioritize_files"),
              "FilesManager.prioritize_files")
    if r is None:
        return
    try:
        q = Quantities(r)
        chs = choices(r, q)
        z = fresh("e")

        def skip(x):
            return exists((z,), AND(atom(mk("in", "exclude", z)),
                                    OR(eq(x, z), within(x, z))))
        for ch in chs:
            x = ch.x

            def size(k):
                t = q.c(k)
                if t.op == "stat" and t.args[1] is K("st_blocks") and \
                        q.same(t.args[0], R(x)):
                    return {("size", "the file"): Fraction(1, 512)}
            form = Form(q, size)
            check_step(c, q, ch, "files", form,
                       {("size", "the file"): -1, "S": 1}, 0)
            f = paths(r, ch.chosen)
            c.require(not possible(AND(f, NOT(AND(known(x), NOT(is_dir(x)))))),
                      ch.where(), "only files",
                      "something other than known files is selected",
                      "files-only")
            c.require(not possible(AND(f, paths(r, skip(x)))), ch.where(),
                      "files in selected directories are left out",
                      "files are selected that are in directories selected "
                      "already, and take up space twice", "files-exclude")
            v = start_of(q, ch)
            if v is not None:
                compare(c, form, form.named(lin(v)), {SPACE: 1}, ch.where(),
                        "files", "there is at first", "start-")
        all_considered(c, q, chs, "files", lambda y: AND(
            known(y), NOT(is_dir(y)), NOT(skip(y))))
        in_order(c, q, chs, "files", lambda t, v, g: q.blocks(t, REMOTE, v, True))
    except Fixed:
        c.bad(r.name, "the space of files", "what the selected files take up "
              "is not taken off the remaining space", "space-files")
    except Nothing:
        c.bad(r.name, "what fits is selected", "nothing is ever selected",
              "nothing-selected")
    except Unknown as e:
        c.note("prioritize_files: %s is not analysed" % e)


class Sets:
    """The collections a selection loop keeps, by what they come to hold."""

    def __init__(self, q, ch):
        self.q, self.ch = q, ch
        self.y = fresh("y")
        self.slots = []
        for ref, o in ch.head.heap.items():
            e = ch.end.heap.get(ref)
            if self.is_set(o) and self.is_set(e) and e is not o:
                self.slots.append((ref, o, e, ch.entry.heap.get(ref)))
        for fid, fr in ch.head.frames.items():
            for n, v in fr.items():
                o, e, b = (self.q.I.coll_of(s.frames[fid].get(n), s)
                           if s.frames.get(fid, {}).get(n) is not None
                           else None for s in (ch.head, ch.end, ch.entry))
                if v is ch.end.frames.get(fid, {}).get(n):
                    continue
                if self.is_set(o) and self.is_set(e) and self.is_set(b):
                    self.slots.append(((fid, n), o, e, b))

    def is_set(self, o):
        return hasattr(o, "parts") and o.kind in ("set", "list", "dict")

    def has(self, coll, y):
        return paths(self.q.r, E.member(self.q.I, coll, y, self.q.r.final))

    def before(self, slot, y):
        return self.has(slot[1], y)

    def gains(self, slot, want):
        """None if, whenever the element is chosen, exactly the y with want(y)
        are added to the collection; otherwise what is different."""
        y, ch = self.y, self.ch
        r = ch.q.r
        h, e = self.has(slot[1], y), self.has(slot[2], y)
        ch_, no = (paths(r, f) for f in (ch.chosen, AND(
            ch.pc, NOT(ch.chosen))))
        if possible(AND(no, XOR(h, e))):
            return "changes although nothing is selected"
        if possible(AND(ch_, e, NOT(h), NOT(want(y)))):
            return "gets other paths"
        if possible(AND(ch_, NOT(e), h)):
            return "loses paths"
        if possible(AND(ch_, NOT(e), want(y))):
            return "lacks paths"
        return None


def XOR(a, b):
    return ite(a, NOT(b), b)


@rule("P26", "directories are selected in order of priority as long as all "
             "that is in them fits, and each path's space is counted once")
def dirs_selected(c):
    r = c.run(lambda M: selection_run(M, "prioritize_dirs"),
              "FilesManager.prioritize_dirs")
    if r is None:
        return
    try:
        q = Quantities(r)
        chs = choices(r, q)
        for ch in chs:
            dir_step(c, r, q, ch)
        all_considered(c, q, chs, "directories",
                       lambda y: AND(known(y), is_dir(y)))
        in_order(c, q, chs, "directories",
                 lambda t, v, g: dir_size(q, t, v, g, True))
        fresh_sizes(c, r, chs[0])
    except Fixed:
        c.bad(r.name, "the space of directories", "what the selected "
              "directories take up is not taken off the remaining space",
              "space-directories")
    except Nothing:
        c.bad(r.name, "what fits is selected", "nothing is ever selected",
              "nothing-selected")
    except Unknown as e:
        c.note("prioritize_dirs: %s is not analysed" % e)


def dir_size(q, t, d, given=1, scaled=False):
    """t is the disk usage of all that is in the directory d."""
    n = t if isinstance(t, dict) else lin(t)
    if len(n) != 1:
        return False
    (k, v), = n.items()
    if k is None or k.op not in ("phi", "sum") or not (
            v == 1 or scaled and v > 0):
        return False
    try:
        return q.total(k, lambda y: AND(rknown(y), within(y, d)),
                       lambda a, y: q.blocks(a, REMOTE, y), given) is None
    except Unknown:
        return False


def dir_step(c, r, q, ch):
    x = ch.x
    sets = Sets(q, ch)
    sel = next(s for s in sets.slots if s[0] is ch.ref)
    given = paths(r, ch.chosen)
    where = ch.where()

    def sel_h(y):
        return AND(known(y), is_dir(y), sets.before(sel, y))

    def below(y):
        return AND(known(y), within(y, x))

    def size(k):
        if k.op not in ("phi", "sum"):
            return None
        if dir_size(q, k, x, given):
            return {("size", "the directory"): 1}
        try:
            w = q.total(k, lambda y: AND(below(y), sel_h(y)),
                        lambda a, y: dir_size(q, a, y, AND(
                            known(y), is_dir(y))), given,
                        lambda y: IMP(sets.before(sel, y),
                                      AND(known(y), is_dir(y))))
        except Unknown:
            return None
        return {("size", "what is selected in it"): 1} if w is None else None

    counts = [("the files", lambda y: AND(known(y), NOT(is_dir(y)))),
              ("the files in it", lambda y: AND(below(y), NOT(is_dir(y))))]
    held = None
    for s in sets.slots:
        if sets.gains(s, lambda y: AND(below(y), NOT(is_dir(y)))) is None or \
                sets.gains(s, below) is None:
            counts.append(("the files newly held", lambda y, s=s: AND(
                below(y), NOT(is_dir(y)), NOT(sets.before(s, y)))))
            c.require(not possible(sets.has(s[3], sets.y))
                      or ch is not None and first_part(s), where,
                      "nothing is held at first",
                      "paths count as held at first", "held-first")
    form = Form(q, size, counts, given)
    # Directories in ones that are selected are not considered again.
    skips = []
    z = fresh("s")
    inside = exists((z,), AND(sel_h(z), within(x, z)))
    chosen = paths(r, ch.chosen)
    for s in sets.slots:
        if s is not sel and sets.gains(s, lambda y: AND(
                below(y), is_dir(y))) is None or sets.gains(s, below) is None:
            skips.append(sets.before(s, x))
    skips.append(inside)
    if any(not possible(AND(chosen, k)) for k in skips):
        c.ok(where, "directories in selected ones are skipped")
    elif any(a.op == "ex" or a.op in ("loopadd", "looprm")
             for a in atoms(chosen)) and len(skips) == 1 and any(
                 x in a.fv and a.op in ("ex", "loopadd")
                 for a in atoms(chosen)) and not stale(sets, chosen, x):
        c.note("%s: which directories are skipped is not analysed" % where)
    else:
        c.bad(where, "directories in selected ones are skipped",
              "a directory may be selected although it is in one that is "
              "selected already", "nested-directories")
    skip = OR(*skips)
    for a in atoms(ch.chosen):
        if a.op != "lt":
            continue
        d = difference(a)
        for s, lit in ((1, atom(a)), (-1, NOT(atom(a)))):
            # lit: the form is negative (or zero)
            n = form.named({k: v * s for k, v in d.items()})
            for lim in (LIMIT, SPACE):
                if n == {lim: 1, ("size", "the directory"): -1}:
                    skip = OR(skip, lit)
    check_step(c, q, ch, "directories", form,
               {("size", "the directory"): -1,
                ("size", "what is selected in it"): 1,
                ("S*N", "the files newly held"): 1}, skip)
    c.require(not possible(AND(chosen, NOT(AND(known(x), is_dir(x))))), where,
              "only directories", "something other than known directories is "
              "selected", "directories-only")
    y = sets.y
    h, e = sel_h(y), AND(known(y), is_dir(y), sets.has(sel[2], y))
    no = paths(r, AND(ch.pc, NOT(ch.chosen)))
    c.require(not possible(AND(no, XOR(h, e))), where,
              "the selection changes by the directory only",
              "the selection changes although a directory is not selected",
              "selection-changes")
    c.require(not possible(AND(chosen, e, NOT(h), NOT(eq(y, x)))), where,
              "the selection changes by the directory only",
              "other directories are selected along with one",
              "selection-others")
    c.require(not possible(AND(chosen, h, within(y, x), NOT(eq(y, x)), e)),
              where, "selected directories in it are replaced",
              "directories in a directory that is selected stay selected, and "
              "their space is given back more than once", "selection-nested")
    c.require(not possible(AND(chosen, h, NOT(within(y, x)), NOT(e))), where,
              "other selected directories stay selected",
              "directories that have been selected and accounted for are "
              "dropped again", "selection-dropped")
    v = start_of(q, ch)
    if v is not None:
        compare(c, form, form.named(lin(v)),
                {SPACE: 1, ("S*N", "the files"): -1}, where, "directories",
                "there is at first", "start-")


def first_part(s):
    return any(a.op == "loopadd" for p in s[1].parts.values()
               for a in atoms(p.cond))


def stale(sets, f, x):
    """f depends on a collection that never changes, as far as x goes."""
    return False


def fresh_sizes(c, r, ch):
    """Uploads change the sizes in the remote directory."""
    for e in r.I.events[r.init_events:]:
        if e.name == "scan_paths" and r.canon(e.args[0]) is REMOTE:
            c.require(e.args[1] is KFALSE, e.where(), "sizes are up to date",
                      "the sizes of remote files are those from before the "
                      "upload of local changes", "stale-sizes", e)


def excluded_total(q, k):
    """k is the disk usage of all excluded local files."""
    if k is None or k.op not in ("phi", "sum"):
        return False
    try:
        return q.total(k, excl, lambda a, y: q.blocks(a, LOCAL, y)) is None
    except Unknown:
        return False


@rule("P26", "the limit is what the profile says, less what excluded files "
             "take up; files get the space that selected directories leave, "
             "and exactly what was selected is copied")
def limit_composed(c):
    r, S = sync(c)
    if r is None:
        return
    q = Quantities(r)
    first = [e for e in r.events if e.name == "prioritize_dirs"]
    then = [e for e in r.events if e.name == "prioritize_files"]
    if not first or not then:
        c.note("the selection is made in another way")
        return
    for e in first:
        for t, cond in leaves(e.args[0]):
            if not possible(AND(e.pc, cond)):
                continue
            d = lin(t)
            lims = {k: v for k, v in d.items() if k is not None and v > 0 and
                    from_config(k, "StorageLimit")}
            less = {k: v for k, v in d.items() if k not in lims}
            if not lims and any(x.op in ("top", "phi") for x in subterms(t)):
                c.note("%s: the limit is not analysed" % e.where())
                continue
            if not c.require(lims, e.where(), "the limit",
                             "the selection does not go by the configured "
                             "limit", "limit", e):
                continue
            tot = [k for k, v in less.items() if v == -1 and
                   excluded_total(q, k)]
            if not tot and any(k is not None and not understood(q, k)
                               for k in less):
                c.note("%s: the space of excluded files is not analysed"
                       % e.where())
                continue
            c.require(tot, e.where(), "the space of excluded files",
                      "what excluded files take up is not taken off the limit",
                      "excluded-size", e)
            c.require(set(less) <= set(tot), e.where(), "the limit",
                      "something other than the excluded files is taken off "
                      "the limit", "limit-rest", e)
    D = var("D")
    for e in then:
        for t, cond in leaves(e.args[0]):
            d = lin(t)
            sp = [k for k in d if k is not None and k.op == "space" and
                  k.args[0] is K("prioritize_dirs")]
            if not sp and any(x.op in ("top", "phi") for x in subterms(t)):
                c.note("%s: the space for files is not analysed" % e.where())
                continue
            c.require(len(sp) == 1 and d == {sp[0]: 1}, e.where(),
                      "the space for files", "files do not get just the space "
                      "that the selected directories leave", "space-left", e)
        ex = e.colls.get("exclude")
        if ex is None:
            v = e.kw.get("exclude")
            if v is NONE or v is None:
                c.bad(e.where(), "files in selected directories",
                      "files in selected directories are selected again and "
                      "take up space twice", "files-again", e.path())
            else:
                c.note("%s: what is left out is not analysed" % e.where())
            continue
        m = paths(r, E.member(r.I, ex, D, r.final))
        for b in first:
            s = AND(paths(r, bsubst(truth_of(b.kw["known"]), {V0: D})),
                    atom(mk("selected", b.kw["site"], D)))
            c.never(AND(paths(r, e.pc), s, NOT(m)), e,
                    "files in selected directories",
                    "files in selected directories are selected again and "
                    "take up space twice", "files-again", D)
    for t in downloads(r):
        F = files_arg(r, t.ev, "files", X)
        if F is None:
            c.note("%s: what is copied is not analysed" % t.ev.where())
            continue
        sel = [(e, atom(mk("selected", e.kw["site"], X)))
               for e in first + then]
        c.never(AND(t.pc, F, *[NOT(s) for e, s in sel], NOT(excl(X))), t.ev,
                "only what was selected is copied", "files are copied that "
                "were not selected", "copied-unselected", X)
        for e, s in sel:
            k = paths(r, bsubst(truth_of(e.kw["known"]), {V0: X}))
            c.never(AND(paths(r, t.pc), paths(r, e.pc), s, k,
                        NOT(paths(r, F))), t.ev,
                    "what was selected is copied",
                    "not all that was selected is copied",
                    "selected-not-copied", X)


def from_config(k, name):
    return any(x.op == "cfgval" and x.args[1] == name or
               x.op == "cfgval" and x.args[1] is K(name)
               for x in subterms(k))


def usage_run(M):
    """disk_usage of both kinds of directory."""
    if "disk_usage" in M.cache:
        return M.cache["disk_usage"]

    def drive(run, I, st):
        run.usage = {}
        for cn, root in (("LocalSyncDir", LOCAL), ("RemoteSyncDir", REMOTE)):
            s = st.copy()
            o = I.call(M.cls(I, s, "zielen.userdata", cn), [root], {},
                       M.prog.dummy, s)
            f = I.getattr_(o, "disk_usage", M.prog.dummy, s)
            run.usage[cn] = I.call(f, [], {}, M.prog.dummy, s), root, s
        run.result = NONE
    r = M.cache["disk_usage"] = Run(M.prog, "disk_usage", drive)
    return r


@rule("P20", "the disk usage of a directory is that of all the files in it")
def usage_complete(c):
    r = c.run(usage_run, "disk_usage")
    if r is None:
        return
    q = Quantities(r)
    y0 = fresh("y")
    for cn, (t, root, st) in sorted(r.usage.items()):
        where = "%s.disk_usage" % cn
        if not c.require(not is_k(t), where, "files are added up",
                         "the disk usage of a directory is always the same",
                         "usage-constant"):
            continue
        try:
            entries, start = q.parts(t)
        except Unknown as e:
            c.note("%s: %s is not analysed" % (where, e))
            continue
        cover = 0
        ok = True
        for e in entries:
            if len(e.vs) != 1:
                ok = False
                continue
            y = e.vs[0]
            good = q.blocks(e.amount, root, y)
            if not good and len(e.amount) == 1:
                (k, v), = e.amount.items()
                k = q.c(k) if k is not None else None
                if k is not None and k.op == "stat" and \
                        q.same(k.args[0], pjoin(root, y)):
                    n = kval(k.args[1]) if is_k(k.args[1]) else None
                    good = (n, v) == ("st_size", 1)
                    c.require(good, where, "512 bytes for each block",
                              "the disk usage of a directory is %s times %s of "
                              "its files" % (v, n), "usage-amount")
            if good:
                f = exists_atoms(paths(r, e.cond), lambda a: a.op == "exc")
                cover = OR(cover, bsubst(f, {y: y0}))
            else:
                ok = False
        if not ok:
            c.note("%s: what is added up is not analysed" % where)
            continue
        here = inL(y0) if root is LOCAL else inR(y0)
        p = pjoin(root, y0)
        left = AND(here, NOT(isdir(p)), NOT(cover))
        c.require(not possible(paths(r, left)), where, "every file is counted",
                  "the disk usage of a directory leaves out some of its files, "
                  "so that too little space is not noticed", "usage-missed")
