"""The path databases: what each method's statements do, as formulas."""
from .terms import *
from .model import *
from .vocab import *
from .interp import HColl, Part, V0
from .check import rule
from . import sql
from .sql import Meaning, Unknown, Row, kk

Y = var("Y")
DBPATH = mk("root", "DB")
CLASSES = {"profile": ("zielen.profile", "ProfileDBFile",
                       {"priority": "priority", "local": "local"}),
           "remote": ("zielen.userdata", "RemoteDBFile",
                      {"lastsync": "lastsync"})}
DEPTH = mk("depthof", V0)


def p_id(I, st, node, b, fi):
    return mk("pid", list(b.values())[1])


def p_anc(I, st, node, b, fi):
    rec = I.iter_rec(list(b.values())[0], st, node)
    f = 0
    for p in rec.parts.values():
        m = {v: fresh("t") for v in p.vars}
        k, c = subst(p.key, m), bsubst(p.cond, m)
        f = OR(f, exists(list(m.values()), AND(c, within(k, V0))))
    f = AND(f, truth_of(V0))
    return I.new_coll(st, "list", [Part((V0,), V0, None, f)],
                      order=(DEPTH, True))


PRIMS_DB = {k: v for k, v in PRIMS.items()
            if not (k[0] or "").startswith("SyncDBFile")}
PRIMS_DB["SyncDBFile.*", "_get_path_id"] = p_id
PRIMS_DB[None, "get_path_ancestry"] = p_anc


def arg(n):
    return mk("arg", n)


def db_run(M, which, meth, coll=(), kind="list", **kw):
    mod, cls, _ = CLASSES[which]
    key = "db.%s.%s.%s%s" % (which, meth, "" if kind == "list" else kind,
                             "-".join(
        "%s=%s" % (a, show(b, 2)) for a, b in sorted(kw.items())))

    def setup(run, I, st, f):
        return I.call(f, [DBPATH], {}, M.prog.dummy, st)

    def mkargs(run, I, st):
        d = {n: argcoll(I, st, n, kind) for n in coll}
        d.update(kw)
        return [], d
    return func_run(M, key, mod, meth, mkargs, PRIMS_DB, cls=cls, setup=setup)


class Stmt:
    """One statement, as executed for each of its parameter sets."""

    def __init__(self, ev, ast, params, vs, cond, order, i):
        self.ev, self.ast, self.params = ev, ast, params
        self.vs, self.cond, self.order, self.i = vs, cond, order, i

    def where(self):
        return self.ev.where()


EXEC = (".execute", ".executemany", ".executescript")


class Body:
    """The statements of one method."""

    def __init__(self, r, which, start=None):
        self.r, self.which = r, which
        self.stmts, self.unknown, self.scripts = [], [], []
        self.commits = []
        self.selects = []
        evs = r.events[r.init_events if start is None else start:]
        for i, e in enumerate(evs):
            if e.name in (".commit", "with.commit", "db.commit"):
                self.commits.append(e)
            if e.name in EXEC:
                try:
                    self.add(e, i)
                except Unknown as x:
                    self.unknown.append((e, str(x)))

    def add(self, e, i):
        r = self.r
        t = r.c(e.args[0]) if e.args else None
        if t is None or t.op != "k" or not isinstance(kval(t), str):
            raise Unknown("the statement is not a constant")
        asts = sql.parse(kval(t))
        cond = self.clean(r.pc(e))
        xs = [x for l in e.loops for x in l[1]]
        if e.name == ".executescript":
            self.scripts += [(e, a, cond) for a in asts]
            for a in asts:
                if a[0] in ("insert", "update", "delete"):
                    self.stmts.append(Stmt(e, a, {}, xs, cond, None, i))
            return
        if len(asts) != 1:
            raise Unknown("several statements")
        a = asts[0]
        p = e.arg(1, "parameters")
        sets = []
        order = None
        for l in e.loops:
            rec = l[3] if len(l) > 3 else None
            if isinstance(rec, HColl) and rec.meta.get("order"):
                order = rec.meta["order"]
        if e.name == ".executemany":
            h = e.colls.get(1) or e.colls.get("parameters")
            if h is None:
                raise Unknown("parameters")
            if h.meta.get("order"):
                order = h.meta["order"]
            for q in h.parts.values():
                m = {v: fresh("w") for v in q.vars}
                sets.append((subst(q.key, m), list(m.values()) + xs,
                             AND(cond, self.clean(
                                 r.canon.b(bsubst(q.cond, m))))))
        elif p is None:
            sets.append((None, xs, cond))
        else:
            sets.append((p, xs, cond))
        for t, vs, f in sets:
            self.stmts.append(Stmt(e, a, self.binding(t), vs, f, order, i))

    def binding(self, t):
        if t is None:
            return {}
        r = self.r
        st = r.final.copy()
        t = r.I.materialise(t, st)
        if t.op == "tup":
            return {i: r.c(x) for i, x in enumerate(t.args)}
        h = r.I.coll_of(t, st)
        if h is None:
            raise Unknown("parameters")
        out = {}
        if h.kind == "dict":
            for q in h.parts.values():
                if q.vars or q.key.op != "k" or q.cond != 1:
                    raise Unknown("parameters")
                out[kval(q.key)] = r.c(q.val)
        else:
            for i, q in enumerate(h.parts.values()):
                if q.vars or q.cond != 1:
                    raise Unknown("parameters")
                out[i] = r.c(q.key)
        return out

    def clean(self, f):
        """Whatever calls return; the database exists."""
        def there(a):
            if a.op == "ex":
                return exists(list(a.args[0]), bmap(a.args[1], there))
            if a.op == "fs":
                return 1
            if a.op == "eq" and any(s is DBPATH for s in subterms(a)):
                return 0
            return atom(a)
        f = bmap(f, there)
        return exists_atoms(f, lambda a: a.op == "exc" or any(
            s.op in ("res", "tmeth") for s in subterms(a)))

    def columns(self, M):
        return table_columns(M, self.which)

    def effects(self, M, kind, table):
        """[(stmt, key terms, variables, condition, columns)]"""
        out = []
        cols = self.columns(M)
        for s in self.stmts:
            if s.ast[0] == "select" or s.ast[0] not in (
                    "insert", "update", "delete"):
                continue
            t = s.ast[2] if s.ast[0] == "insert" else s.ast[1]
            if s.ast[0] != kind or t != table:
                continue
            for k, tab, ks, vs, f, d in Meaning(s.params, cols).effect(s.ast):
                out.append((s, ks, s.vs + list(vs), AND(s.cond, f), d))
        return out


def tidy(f):
    """Injectivity of path ids; every row is its own descendant."""
    def go(a):
        if a.op == "eq" and a.args[0].op == "pid" and a.args[1].op == "pid":
            return eq(a.args[0].args[0], a.args[1].args[0])
        if a.op == "ex" and len(a.args[0]) == 1:
            b = a.args[1]
            at = list(atoms(b))
            if len(at) == 1 and at[0].op == "clo" and b == atom(at[0]):
                v, = a.args[0]
                for x, y in (at[0].args, at[0].args[::-1]):
                    if x is v and y is not v:
                        return atom(mk("node", y))
        return atom(a)
    return bmap(f, go)


def applies(eff, keys):
    """The statement touches the row with these keys."""
    s, ks, vs, f, d = eff
    vs = list(vs)
    for k, x in zip(ks, keys):
        if k.op == "var" and k in vs:
            f = bsubst(f, {k: x})
            vs.remove(k)
        else:
            f = AND(f, idof(k, x))
    return closed(vs, f)


def closed(vs, f):
    """Exists vs with f, in a form that does not depend on how f is written:
    terms that have to be equal to one without variables are replaced by it."""
    f = tidy(f)
    done = set()
    again = True
    while again:
        again = False
        for a in atoms(f):
            if a.op != "eq" or a in done or cofactor(f, a, 0) != 0:
                continue
            done.add(a)
            x, y = a.args
            bound = lambda t: bool(t.fv & set(vs))
            if bound(x) == bound(y):
                continue
            if bound(y):
                x, y = y, x
            rest = assign(cofactor(f, a, 1), {x: y})
            f = rest if x in vs else AND(atom(a), rest)
            again = True
            break
    g = tidy(exists([v for v in vs if v in bfv(f)], f))
    for a in atoms(g):
        if a.op == "ex" and cofactor(g, a, 0) == 0:
            # Rows of the hierarchy exist.
            for b in atoms(a.args[1]):
                if b.op == "clo" and cofactor(a.args[1], b, 0) == 0:
                    for t in b.args:
                        if not t.fv & set(a.args[0]):
                            n = mk("node", t)
                            if n in atoms(g):
                                g = cofactor(g, n, 1)
    return g


def idof(k, x):
    """k and x name the same row."""
    if k.op == "ite":
        return OR(AND(k.args[0], idof(k.args[1], x)),
                  AND(NOT(k.args[0]), idof(k.args[2], x)))
    if k.op == "pid" and x.op == "pid":
        return eq(k.args[0], x.args[0])
    return eq(k, x)


def subst_eq(vs, f):
    return f


def table_columns(M, which):
    d = {}
    for e, a in scripts(M, which)[0]:
        if a[0] == "create":
            d[a[1]] = a[2]["cols"]
    return d


def scripts(M, which):
    """Statements of create() and of the constructor."""
    key = "db-scripts-" + which
    if key in M.cache:
        return M.cache[key]
    r = db_run(M, which, "create")
    body = Body(r, which)
    init = Body(r, which, 0)
    n = len(body.scripts)
    made = [(e, a) for e, a, c in body.scripts]
    opened = [(e, a) for e, a, c in init.scripts[:len(init.scripts) - n]]
    # Statements executed one at a time.
    for s in body.stmts:
        made.append((s.ev, s.ast))
    for s in init.stmts[:len(init.stmts) - len(body.stmts)]:
        opened.append((s.ev, s.ast))
    M.cache[key] = made, opened, body, init, r
    return M.cache[key]


def isarg(name, x):
    return atom(mk("in", name, x))


def truthy(t):
    return atom(t)


def parentof(x):
    return dirname(x)


class DB:
    def __init__(self, c, which, meth, coll=(), **kw):
        self.c, self.which, self.meth = c, which, meth
        mod, self.cls, self.values = CLASSES[which]
        self.ok = False
        self.name = "%s.%s" % (self.cls, meth)
        self.file = mod.replace(".", "/") + ".py"
        self.r = r = c.run(lambda M: db_run(M, which, meth, coll, **kw),
                           "%s.%s" % (which, meth))
        if r is None or r.final is None or r.final.dead():
            return
        self.b = Body(r, which)
        if self.b.unknown:
            e, why = self.b.unknown[0]
            c.note("%s: a statement is not analysed (%s)" % (e.where(), why))
            return
        self.ok = True

    def eff(self, kind, table):
        try:
            return self.b.effects(self.c.M, kind, table)
        except Unknown as x:
            self.c.note("%s: a statement is not analysed (%s)" % (self.name, x))
            self.ok = False
            return []

    def same(self, got, want, ev, what, less, more, ident, extra=0):
        """got covers want, and nothing more but extra."""
        c = self.c
        c.never(AND(want, NOT(got)), ev, "%s: %s" % (self.name, what),
                "%s %s" % (self.name, less), ident + "-less", Y)
        c.never(AND(got, NOT(want), NOT(extra)), ev,
                "%s: %s, no others" % (self.name, what),
                "%s %s" % (self.name, more), ident + "-more", Y)

    def first(self, effs):
        return effs[0][0].ev if effs else None

    def need(self, effs, what, msg, ident):
        return self.c.require(effs, self.file, "%s: %s" % (self.name, what),
                              "%s %s" % (self.name, msg), ident)


I_, A_ = mk("pid", Y), var("A")


def value_of(d, col, eff, x):
    """The value a statement gives to a column of the row of path x."""
    s, ks, vs, f, cols = eff
    t = cols.get(col)
    if t is None:
        return None
    for v in vs:
        if v in t.fv:
            t = subst(t, {v: x})
    return t


def is_truth(t):
    """Condition under which a value is true."""
    if t.op == "b":
        return t.args[0]
    if t.op == "k":
        return 1 if kval(t) else 0
    return None


def both(which=("profile", "remote")):
    return which


# ----------------------------------------------------------------- additions
@rule("P18 P03 P26", "adding paths records each of them once, under its own id, "
      "with the values given")
def db_add_nodes(c):
    for which in both():
        vals = CLASSES[which][2]
        kw = {n: arg(n) for n in vals if n != "lastsync"}
        d = DB(c, which, "add_paths", ("files", "dirs"), **kw)
        if not d.ok:
            continue
        effs = d.eff("insert", "nodes")
        if not d.ok or not d.need(effs, "rows are added", "adds no rows",
                                  "no-insert"):
            continue
        want = OR(isarg("files", Y), isarg("dirs", Y))
        got = OR(*[applies(e, (I_,)) for e in effs])
        d.same(got, want, d.first(effs), "every path is added",
               "does not add every path it is given",
               "adds rows for other paths or under other ids", "add")
        made = scripts(c.M, which)[0]
        tables = {a[1]: a[2] for e, a in made if a[0] == "create"}
        for e in effs:
            s = e[0]
            p = value_of(d, "path", e, Y)
            c.require(p is Y or p is not None and strange(p), s.where(),
                      d.name + ": the path is stored",
                      "%s stores %s as the path of a row" % (
                          d.name, show(p, 4) if p else "nothing"), "add-path")
            t = value_of(d, "directory", e, Y)
            tr = is_truth(t) if t is not None else None
            if tr is None:
                c.note(s.where() + ": the directory mark is not analysed")
            else:
                c.never(AND(applies(e, (I_,)), want, NOT(IFF(
                    tr, isarg("dirs", Y)))), s.ev,
                    d.name + ": directories are marked",
                    "%s does not mark exactly the directories as such" %
                    d.name, "add-directory", Y)
            for col, n in vals.items():
                v = value_of(d, col, e, Y)
                if col == "lastsync":
                    good = v is not None and any(
                        x.op == "res" and x.args[0] == "time.time"
                        for x in subterms(v)) or strange(v)
                else:
                    good = v is arg(n) or v is not None and strange(v)
                c.require(good, s.where(), "%s: the %s is stored" % (
                    d.name, col), "%s stores %s as the %s of a row" % (
                        d.name, show(v, 4) if v else "nothing", col),
                    "add-" + col)
            orr = s.ast[1]
            c.require((orr or tables.get("nodes", {}).get("conflict"))
                      == "ignore", s.where(),
                      d.name + ": existing rows stay as they are",
                      "%s does not leave the rows of paths that are already "
                      "in the database alone" % d.name, "add-conflict")


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def strange(t):
    return t is not None and any(s.op in UNKNOWN for s in subterms(t))


def order_kind(o):
    """'down' if parents come before what is in them, 'up' if after, 'bad' if
    the order is of another kind, None if that is not known."""
    if not o:
        return None
    t, rev = o
    ops = {x.op for x in subterms(t)}
    if "basename" in ops or any(
            x.op == "m:count" and x.args[1:] != (K("/"),)
            for x in subterms(t)):
        return "bad"
    if t is V0 or t is DEPTH or t.op == "dirname" or \
            ops & {"m:count", "len", "m:split"}:
        return "up" if rev else "down"
    return None


@rule("P18", "adding paths records their place under each of their ancestors")
def db_add_closure(c):
    for which in both():
        d = DB(c, which, "add_paths", ("files", "dirs"))
        if not d.ok:
            continue
        effs = d.eff("insert", "closure")
        nodes = d.eff("insert", "nodes")
        if not d.ok or not d.need(effs, "the hierarchy is recorded",
                                  "does not record the hierarchy",
                                  "no-closure"):
            continue
        par = parentof(Y)
        here = OR(isarg("files", Y), isarg("dirs", Y))
        up = AND(here, truthy(par), atom(mk("clo", A_, mk("pid", par))))
        want = OR(AND(here, eq(A_, I_)), up)
        got = OR(*[applies(e, (A_, I_)) for e in effs])
        d.same(got, want, d.first(effs), "every ancestor is recorded",
               "does not record a path under each of its ancestors",
               "records a path under others than its ancestors", "closure",
               atom(mk("clo", A_, I_)))
        for e in effs:
            s, ks, vs, f, cols = e
            t = cols.get("depth")
            if t is None:
                c.require(all(idof(ks[0], ks[1]) == 1 for _ in (0,)),
                          s.where(), d.name + ": depth", "%s does not record "
                          "how far a path is below an ancestor" % d.name,
                          "closure-depth")
                continue
            if ks[0] is ks[1] and t.op == "k":
                c.require(t is kk(0), s.where(), d.name + ": own depth",
                          "%s gives a path the depth %s below itself" % (
                              d.name, show(t)), "closure-self")
            else:
                g = set()
                for a in atoms(f):
                    if a.op == "clo":
                        g.add(mk("sql+", *sorted(
                            (mk("depth", *a.args), kk(1)),
                            key=lambda x: x.id)))
                c.require(t in g or not g or strange(t), s.where(),
                          d.name + ": depth below ancestors",
                          "%s records %s as the depth of a path below its "
                          "ancestors" % (d.name, show(t, 4)), "closure-depth")
        for e in effs:
            later = [n for n in nodes if n[0].i > e[0].i]
            c.require(not later, e[0].where(), d.name + ": rows come first",
                      "%s records the hierarchy before the rows it is about "
                      "exist" % d.name, "closure-order")
            if any(k.op == "clo" for k in atoms(e[3])):
                o = e[0].order
                if o and order_kind(o) is None:
                    c.note(e[0].where() + ": the order is not analysed")
                    continue
                c.require(order_kind(o) == "down", e[0].where(),
                          d.name + ": parents are added first",
                          "%s adds paths in an order in which a parent may "
                          "come after what is in it, and their relation is "
                          "then missing" % d.name, "closure-unsorted")


@rule("P18 P26", "the parents of added paths count as directories")
def db_add_parents(c):
    for which in both():
        d = DB(c, which, "add_paths", ("files", "dirs"))
        if not d.ok:
            continue
        effs = [e for e in d.eff("update", "nodes") if "directory" in e[4]]
        if not d.ok or not d.need(effs, "parents are marked as directories",
                                  "does not mark parents as directories",
                                  "no-mark"):
            continue
        x = fresh("x")
        want = closed([x], AND(OR(isarg("files", x), isarg("dirs", x)),
                               truthy(parentof(x)), eq(parentof(x), Y)))
        here = atom(mk("node", I_))
        isd = atom(mk("sqltrue", mk("ncol", I_, K("directory"))))
        got = OR(*[applies(e, (I_,)) for e in effs
                   if is_truth(e[4]["directory"]) == 1])
        bad = OR(*[applies(e, (I_,)) for e in effs
                   if is_truth(e[4]["directory"]) != 1])
        ev = d.first(effs)
        c.never(AND(want, here, NOT(got), NOT(isd)), ev,
                d.name + ": parents are marked", d.name + " does not mark "
                "every parent of an added path as a directory", "mark-less", Y)
        c.never(AND(got, NOT(want), NOT(isd)), ev, d.name + ": nothing else "
                "is marked", d.name + " marks paths as directories that are "
                "no parents", "mark-more", Y)
        c.never(bad, ev, d.name + ": no directory loses its mark",
                d.name + " takes the mark of a directory from paths",
                "mark-off", Y)
        ins = [e[0].i for e in d.eff("insert", "nodes")]
        c.require(ins and max(e[0].i for e in effs) > max(ins), ev.where(),
                  d.name + ": parents are marked once they are there",
                  d.name + " marks parents before those that are added with "
                  "their contents exist", "mark-early")


# ------------------------------------------------------------------ removals
@rule("P18 P04 P05", "removing paths removes them with everything below them, "
      "and nothing else")
def db_remove(c):
    for which in both():
        d = DB(c, which, "rm_paths", ("paths",))
        if not d.ok:
            continue
        effs = d.eff("delete", "nodes")
        coll = d.eff("delete", "collisions")
        clo = d.eff("delete", "closure")
        if not d.ok or not d.need(effs, "rows are removed", "removes no rows",
                                  "no-delete"):
            continue
        x = fresh("x")
        want = closed([x], AND(isarg("paths", x), atom(mk(
            "clo", mk("pid", x), I_))))
        got = OR(*[applies(e, (I_,)) for e in effs])
        d.same(got, want, d.first(effs), "what is below is removed",
               "leaves paths in the database that are below removed ones",
               "removes paths that are neither given nor below given ones",
               "rm")
        row = atom(mk("colli", Y))
        for e in coll:
            s = e[0]
            known = atom(mk("node", I_))
            f = applies(e, (Y,))
            # Rows are found by their path.
            k = exists_atoms(f, lambda a: False)
            live = live_paths(f)
            if live is None:
                c.note(s.where() + ": what is forgotten is not analysed")
                continue
            c.never(AND(live, f), s.ev, d.name + ": salts of remaining paths "
                    "stay", d.name + " forgets how the ids of remaining "
                    "paths were made", "salt-lost", Y)
        made, opened, _, _, _ = scripts(c.M, which)
        tables = {a[1]: a[2] for e, a in made if a[0] == "create"}
        fk = tables.get("closure", {}).get("fk", {})
        casc = all(fk.get(k, (0, 0, False))[0] == "nodes" and fk[k][2]
                   for k in ("ancestor", "descendant"))
        c.require(casc or clo, d.file, d.name + ": hierarchy rows go as well",
                  "%s leaves rows of removed paths in the hierarchy" % d.name,
                  "rm-closure")


def live_paths(f):
    """The path Y is in the database; false if f does not mention it."""
    w = fresh("w")
    g = AND(atom(mk("node", w)), eq(mk("ncol", w, K("path")), Y))
    seen = False
    for a in atoms(f):
        if a.op != "ex":
            continue
        if len(a.args[0]) != 1:
            return None
        body = bsubst(a.args[1], {a.args[0][0]: w})
        seen = seen or any(b.op == "eq" and any(
            t.op == "ncol" and kval(t.args[1]) == "path" for t in b.args)
            for b in atoms(body))
        g = AND(g, OR(atom(a), NOT(body)))
    return g if seen else (1 if all(
        a.op in ("colli", "exc") for a in atoms(f)) else None)


# ------------------------------------------------- totals of directories
def totals(which):
    """The accepted ways of computing the value of a directory."""
    q = {}
    below = ("SELECT %s FROM nodes AS n JOIN closure AS c ON n.id = "
             "c.descendant WHERE c.ancestor = :p AND %s")
    for col, fn in (("priority", "SUM"), ("local", "MIN")):
        q[col] = [below % ("COALESCE(%s(n.%s), 0)" % (fn, col), w)
                  for w in ("c.depth = 1", "n.directory = 0",
                            "n.directory = 0 AND c.depth > 0")]
    return q


@rule("P18 P26", "the priority of a directory is the total of what is in it, "
      "and it counts as local only if all that is in it does")
def db_totals(c):
    which = "profile"
    spec = {}
    for col, qs in totals(which).items():
        spec[col] = []
        for i, t in enumerate(qs):
            st, = sql.parse(t)
            spec[col].append(Meaning({"p": I_}).scalar(st[1], {}))
    said = {"priority": "the total of the priorities in it",
            "local": "whether all that is in it is local"}
    for meth, coll, kws in (
            ("add_paths", ("files", "dirs"), [{}]),
            ("rm_paths", ("paths",), [{}]),
            ("update_paths", ("paths",), [
                {"priority": arg("priority"), "local": NONE},
                {"priority": NONE, "local": arg("local")}]),
            ("increment", ("paths",), [{"increment": arg("n")}])):
        for kw in kws:
            d = DB(c, which, meth, coll, **kw)
            if not d.ok:
                continue
            effs = d.eff("update", "nodes")
            others = effs + d.eff("insert", "nodes") + d.eff(
                "delete", "nodes") + d.eff("insert", "closure")
            x = fresh("x")
            mem = OR(*[isarg(n, x) for n in coll])
            par = parentof(x)
            anc = closed([x], AND(mem, truthy(par), within(par, Y),
                                  truthy(Y)))
            here = atom(mk("node", I_))
            for col in ("priority", "local"):
                agg = [e for e in effs if col in e[4] and any(
                    s.op == "agg" for s in subterms(e[4][col]))]
                due = meth != "increment" if col == "local" else True
                if meth == "update_paths" and kw.get(col) is NONE:
                    due = False
                if due and not c.require(
                        agg, d.file, "%s: the %s of directories" % (
                            d.name, col), "%s does not bring the %s of the "
                        "directories above up to date" % (d.name, col),
                        "total-none-" + col):
                    continue
                if not agg:
                    continue
                got = OR(*[applies(e, (I_,)) for e in agg])
                ev = agg[0][0].ev
                # Only when the arguments call for it.
                give = 1
                if meth == "update_paths":
                    give = exists_atoms(1, lambda a: True)
                if due:
                    c.never(AND(anc, here, NOT(assume_given(got, kw)), give),
                            ev, "%s: every directory above" % d.name,
                            "%s does not update the %s of every directory "
                            "above a path" % (d.name, col),
                            "total-less-" + col, Y)
                c.never(AND(got, NOT(anc)), ev,
                        "%s: only directories above" % d.name,
                        "%s computes the %s of paths as if they were "
                        "directories above the given ones" % (d.name, col),
                        "total-more-" + col, Y)
                for e in agg:
                    t = e[4][col]
                    t = keyed(e, t)
                    if strange(t):
                        continue
                    n = [i for i, s in enumerate(spec[col]) if s is t]
                    if not c.require(
                            n, e[0].where(), "%s: value of %s" % (d.name, col),
                            "the %s of a directory becomes %s, not %s" % (
                                col, show(t, 6), said[col]),
                            "total-value-" + col):
                        continue
                    if n[0] == 0:
                        o = e[0].order
                        if o and order_kind(o) is None:
                            c.note(e[0].where() + ": the order is not "
                                   "analysed")
                        else:
                            c.require(order_kind(o) == "up", e[0].where(),
                                      "%s: from the leaves up" % d.name,
                                      "the %s of a directory is computed "
                                      "before those of the directories in it"
                                      % col, "total-order-" + col)
                    after = [o for o in others if o[0].i > e[0].i and not (
                        o in agg) and (o[0].ast[0] != "update"
                                       or col in o[4])]
                    c.require(not after, e[0].where(),
                              "%s: totals come last" % d.name,
                              "the %s of directories is computed before the "
                              "rows are final" % col, "total-early-" + col)


def assume_given(f, kw):
    """f for calls that give a value to the changed column."""
    for a in atoms(f):
        if a.op == "isnone" and a.args[0] in kw.values() or \
                a.op == "eq" and NONE in a.args and any(
                    t in kw.values() for t in a.args if t is not NONE):
            f = cofactor(f, a, 0)
    return f


def keyed(e, t):
    """A computed value in terms of the row it is stored in."""
    s, ks, vs, f, d = e
    for a in atoms(f):
        if a.op == "eq" and cofactor(f, a, 0) == 0 and ks[0] in a.args:
            o = a.args[1] if a.args[0] is ks[0] else a.args[0]
            if o.op == "pid" and o.args[0] in vs:
                return subst(t, {o.args[0]: Y, ks[0]: I_})
    return subst(t, {ks[0]: I_})


# ------------------------------------------------------------------- updates
@rule("P18 P19", "an update changes exactly the given columns of the given "
      "paths")
def db_update(c):
    for which, cols in (("profile", ("directory", "priority", "local")),
                        ("remote", ("directory", "lastsync"))):
        for one in cols:
            kw = {n: arg(n) if n == one else NONE for n in cols}
            d = DB(c, which, "update_paths", ("paths",), **kw)
            if not d.ok:
                continue
            effs = d.eff("update", "nodes")
            if not d.ok:
                continue
            for col in cols:
                mine = [e for e in effs if col in e[4] and not any(
                    s.op == "agg" for s in subterms(e[4][col]))]
                f = 0
                for e in mine:
                    g = applies(e, (I_,))
                    for v, k in leaves(e[4][col]):
                        same = v is mk("ncol", e[1][0], K(col))
                        if col == one and feasible(assume_given(k, kw)):
                            c.require(same or val_is(v, arg(one)),
                                      e[0].where(),
                                      "%s: new %s" % (d.name, col),
                                      "%s sets the %s of paths to %s" % (
                                          d.name, col, show(v, 4)),
                                      "update-value-" + col)
                        if not same:
                            f = OR(f, AND(k, g))
                ev = d.first(mine) or d.first(effs)
                want = AND(isarg("paths", Y), atom(mk("node", I_)))
                if col != one:
                    c.never(f, ev, "%s: %s unchanged" % (d.name, col),
                            "%s changes the %s of paths although it was given "
                            "none" % (d.name, col), "update-other-" + col, Y)
                    continue
                f = assume_given(f, kw)
                c.never(AND(want, NOT(f)), ev, "%s: %s of each path" % (
                    d.name, col), "%s does not set the %s of every path" % (
                        d.name, col), "update-less-" + col, Y)
                c.never(AND(f, NOT(want)), ev, "%s: %s of no other path" % (
                    d.name, col), "%s sets the %s of other paths" % (
                        d.name, col), "update-more-" + col, Y)


def val_is(v, t):
    """v is t, or t for those values that t can have."""
    if strange(v):
        return True
    if v.op == "ite":
        return all(x is t or f == 0 or (x.op == "k") for x, f in leaves(v)) \
            and any(x is t for x, f in leaves(v))
    return v is t or v.op in ("int", "bool", "float") and v.args[0] is t or \
        any(s is t for s in subterms(v)) and v.op in ("res", "pure", "b", "tofloat")


@rule("P18 P19", "incrementing adds the increment to the priority of the "
      "given paths only")
def db_increment(c):
    d = DB(c, "profile", "increment", ("paths",), increment=arg("n"))
    if not d.ok:
        return
    effs = [e for e in d.eff("update", "nodes") if "priority" in e[4]
            and not any(s.op == "agg" for s in subterms(e[4]["priority"]))]
    if not d.ok or not d.need(effs, "priorities are raised",
                              "raises no priorities", "no-increment"):
        return
    got = OR(*[applies(e, (I_,)) for e in effs])
    d.same(got, AND(isarg("paths", Y), atom(mk("node", I_))), d.first(effs),
           "every path is raised", "does not raise every path it is given",
           "raises other paths", "increment")
    for e in effs:
        v = keyed(e, e[4]["priority"])
        w = mk("sql+", *sorted((mk("ncol", I_, K("priority")), arg("n")),
                               key=lambda t: t.id))
        c.require(v is w or strange(v), e[0].where(), d.name + ": by the "
                  "increment", "%s sets a priority to %s" % (
                      d.name, show(v, 5)), "increment-value")


@rule("P18 P19", "adjusting multiplies the priority of every path")
def db_adjust(c):
    d = DB(c, "profile", "adjust_all", (), adjustment=arg("n"))
    if not d.ok:
        return
    effs = [e for e in d.eff("update", "nodes") if "priority" in e[4]]
    if not d.ok or not d.need(effs, "priorities are adjusted",
                              "adjusts no priorities", "no-adjust"):
        return
    got = OR(*[applies(e, (I_,)) for e in effs])
    c.never(AND(atom(mk("node", I_)), NOT(got)), d.first(effs),
            d.name + ": every path", d.name + " does not adjust the priority "
            "of every path", "adjust-less", Y)
    for e in effs:
        v = keyed(e, e[4]["priority"])
        w = mk("sql*", *sorted((mk("ncol", I_, K("priority")), arg("n")),
                               key=lambda t: t.id))
        c.require(v is w or strange(v), e[0].where(), d.name + ": times the "
                  "adjustment", "%s sets a priority to %s" % (
                      d.name, show(v, 5)), "adjust-value")
    c.require(len(effs) == 1, effs[0][0].where(), d.name + ": once",
              d.name + " adjusts priorities more than once", "adjust-twice")


# ------------------------------------------------------------------- queries
def select_of(d, c):
    """The query whose rows the method returns: the last one executed."""
    sel = [s for s in d.b.stmts if s.ast[0] == "select"]
    if not sel:
        c.require(False, d.file, d.name + ": there is a query",
                  d.name + " makes no query", "no-query")
        return None
    return sel[-1]


def query(d, c, s):
    """[(column terms, condition)] of a query; the rows are those of the node
    with id I_."""
    try:
        _, parts, limit = s.ast[1]
        if limit is not None:
            raise Unknown("LIMIT")
        out = []
        for p in parts:
            m = Meaning(s.params, table_columns(c.M, d.which))
            cols, en, vs, f = m.core(p, {})
            f = AND(f, s.cond)
            # Which variable stands for the row that is returned.
            ids = {t.args[0] for t in cols if t.op == "ncol"}
            if len(ids) != 1:
                raise Unknown("rows of several tables")
            i, = ids
            if i.op == "var":
                f = bsubst(f, {i: I_})
                cols = [subst(t, {i: I_}) for t in cols]
            else:
                f = AND(f, idof(i, I_))
                cols = [assign_term(t, {i: I_}) for t in cols]
            out.append((cols, closed([v for v in vs if v is not i], f)))
        return out
    except Unknown as x:
        c.note("%s: a query is not analysed (%s)" % (d.name, x))
        return None


def assign_term(t, m):
    return subst_terms(t, m)


def row_index(t, vs=()):
    """(row, n) for the nth column of a fetched row."""
    if t.op == "idx" and t.args[1].op == "k" and (
            t.args[0] in vs or t.args[0].op == "res" or first_of(t.args[0])):
        return t.args[0], kval(t.args[1])
    return None


def first_of(t):
    """The first of the rows fetched."""
    return t.op == "idx" and t.args[1].op == "k" and \
        kval(t.args[1]) == 0 and t.args[0].op == "res" and \
        ".fetchall" in repr(t.args[0].args[0])


def check_fields(c, d, v, rows, cols, where, ident, I):
    """v is the named tuple of the class's data with each field from the
    column of its name."""
    if v.op != "ntup":
        if not strange(v):
            c.note("%s: what is returned is not analysed" % d.name)
        return
    names = I.classes[v.args[0].args[0]].ntfields or []
    for n, t in zip(names, v.args[1]):
        i = row_index(t, rows)
        if i is None:
            if not strange(t):
                c.require(False, where, "%s: field %s" % (d.name, n),
                          "%s gives %s as the %s of a path" % (
                              d.name, show(t, 3), n), ident + "-field")
            continue
        col = cols[i[1]] if i[1] < len(cols) else None
        c.require(col is mk("ncol", I_, K(n)), where,
                  "%s: field %s" % (d.name, n), "%s gives the column %s as "
                  "the %s of a path" % (d.name, kval(col.args[1]) if col is not
                                        None and col.op == "ncol" else "?", n),
                  ident + "-field")


@rule("P18 P04 P05 P23 P26", "a query returns exactly the paths asked for, each "
      "with its own data")
def db_query(c):
    for which, flt in (("profile", ("directory", "local")),
                       ("remote", ("directory", "min_lastsync"))):
        for kw in [{}] + [{n: arg(n)} for n in ("root",) + flt]:
            d = DB(c, which, "get_paths", (), **kw)
            if not d.ok:
                continue
            s = select_of(d, c)
            if s is None:
                continue
            q = query(d, c, s)
            if q is None:
                continue
            r = d.r
            h = r.I.coll_of(r.result, r.final)
            if h is None or h.kind != "dict":
                c.note(d.name + ": what is returned is not analysed")
                continue
            got = 0
            bad = False
            for p in h.parts.values():
                k, v = r.c(p.key), r.c(p.val)
                i = row_index(k, p.vars)
                if i is None:
                    bad = True
                    continue
                for cols, f in q:
                    col = cols[i[1]] if i[1] < len(cols) else None
                    c.require(col is mk("ncol", I_, K("path")), s.where(),
                              d.name + ": rows are found by path",
                              "%s names paths by the column %s" % (
                                  d.name, show(col, 3) if col else "?"),
                              "query-key")
                    check_fields(c, d, v, p.vars, cols, s.where(), "query",
                                 r.I)
                    g = r.canon.b(p.cond)
                    g = exists_atoms(g, lambda a: a.op == "ex" and any(
                        b.op == "initer" for b in atoms(a.args[1]))
                        or a.op in ("initer", "exc"))
                    m = {}
                    for a in atoms(g):
                        for t in subterms(a):
                            j = row_index(t, p.vars)
                            if j and j[1] < len(cols):
                                m[t] = cols[j[1]]
                    g = assign(g, m) if m else g
                    got = OR(got, AND(f, g))
            if bad:
                c.note(d.name + ": what is returned is not analysed")
                continue
            want = atom(mk("node", I_))
            for n, v in kw.items():
                given = NOT(atom(mk("isnone", v)))
                if n == "root":
                    t = truth_of(v)
                    want = AND(want, OR(NOT(t), atom(mk(
                        "clo", mk("pid", v), I_))))
                elif n == "min_lastsync":
                    want = AND(want, OR(NOT(given), lt(v, mk(
                        "ncol", I_, K("lastsync")))))
                else:
                    want = AND(want, OR(NOT(given), IFF(
                        atom(mk("sqltrue", mk("ncol", I_, K(n)))),
                        atom(mk("sqltrue", v)))))
            got, want = norm_params(got, kw), norm_params(want, kw)
            n = next(iter(kw), "all")
            c.never(AND(want, NOT(got)), s.ev, "%s(%s): complete" % (d.name, n),
                    "%s(%s) leaves out paths" % (d.name, n),
                    "query-less-" + n, Y)
            c.never(AND(got, NOT(want)), s.ev, "%s(%s): no others" % (
                d.name, n), "%s(%s) returns paths that were not asked for" % (
                    d.name, n), "query-more-" + n, Y)


def norm_params(f, kw):
    """Truth of a parameter in SQL and in Python are the same; rows of the
    hierarchy exist."""
    def go(a):
        if a.op == "sqltrue" and a.args[0] in kw.values():
            return truth_of(a.args[0])
        if a.op == "eq" and NONE in a.args:
            o = a.args[1] if a.args[0] is NONE else a.args[0]
            if o in kw.values():
                return atom(mk("isnone", o))
        return atom(a)
    f = bmap(f, go)
    for a in atoms(f):
        # None is not true.
        if a.op == "isnone" and a.args[0] in kw.values():
            t = truth_of(a.args[0])
            f = AND(f, NOT(AND(atom(a), t)))
    for a in atoms(f):
        if a.op == "clo":
            for t in a.args:
                if not t.fv - {Y}:
                    n = mk("node", t)
                    if n in atoms(f) or True:
                        f = OR(AND(atom(a), cofactor(cofactor(f, a, 1), n, 1)),
                               AND(NOT(atom(a)), cofactor(f, a, 0)))
    return f


@rule("P18 P26", "looking up a path gives its own data, or nothing if it is "
      "not in the database")
def db_lookup(c):
    for which in both():
        d = DB(c, which, "get_path_info", (), path=Y)
        if not d.ok:
            continue
        s = select_of(d, c)
        q = s and query(d, c, s)
        if not q:
            continue
        f = OR(*[x for _, x in q])
        here = atom(mk("node", I_))
        c.never(AND(here, NOT(f)), s.ev, d.name + ": found",
                d.name + " does not find every path", "lookup-less", Y)
        # Only the row of this path: with another one's id nothing matches.
        for a in ("Z",):
            z = mk("pid", var(a))
            g = exists_none(q, c, d, s, z)
            if g is not None:
                c.never(AND(g, NOT(eq(var(a), Y))), s.ev, d.name +
                        ": no other row", d.name + " looks at rows of other "
                        "paths", "lookup-more", Y)
        r = d.r
        seen = 0
        for v, f in leaves(r.c(r.result)):
            if v is NONE:
                continue
            seen += 1
            check_fields(c, d, v, (), q[0][0], s.where(), "lookup", r.I)
        c.require(seen, d.file, d.name + ": returns data",
                  d.name + " returns nothing", "lookup-nothing")


def exists_none(q, c, d, s, z):
    try:
        f = 0
        for p in s.ast[1][1]:
            m = Meaning(s.params, table_columns(c.M, d.which))
            cols, en, vs, g = m.core(p, {})
            ids = {t.args[0] for t in cols if t.op == "ncol"}
            i, = ids
            g = bsubst(g, {i: z}) if i.op == "var" else AND(g, idof(i, z))
            f = OR(f, closed([v for v in vs if v is not i], AND(g, s.cond)))
        return f
    except (Unknown, ValueError):
        return None


def has(a, x):
    return any(y is x for y in subterms(a))


@rule("P17 P18", "what can be gone through only once is not handed to a method "
                 "that goes through it again")
def iterators_used_once(c):
    for n in ("sync", "init", "reset"):
        r = c.run(n)
        if r is None:
            continue
        for e in r.events:
            if not e.name.startswith("db."):
                continue
            for k, coll in e.colls.items():
                if coll.kind != "gen" or not isinstance(k, str):
                    continue
                which = "profile" if r.c(e.args[0]) is PDB else "remote"
                meth = e.name[3:]
                colls = [x for x in e.kw if x in e.colls]
                b = db_run(c.M, which, meth, colls, **{
                    x: y for x, y in e.kw.items() if x not in colls + ["kind"]})
                b2 = db_run(c.M, which, meth, colls, kind="gen", **{
                    x: y for x, y in e.kw.items() if x not in colls + ["kind"]})
                again = [p for p in b2.I.problems if p[0] == "oneshot"]
                c.require(not again, e.where(), "%s of %s" % (k, meth),
                          "%s goes through its paths more than once, but is "
                          "given an iterator that can be gone through only "
                          "once" % meth, "iterator", e)


@rule("P18 P16 P26", "files added with an inflated priority get the highest "
      "priority of any file")
def db_inflated(c):
    d = DB(c, "profile", "add_inflated", ("files", "dirs"))
    if not d.ok:
        return
    effs = d.eff("insert", "nodes")
    if not d.ok or not d.need(effs, "rows are added", "adds no rows",
                              "inflate-none"):
        return
    got = OR(*[applies(e, (I_,)) for e in effs])
    c.never(AND(OR(isarg("files", Y), isarg("dirs", Y)), NOT(got)),
            d.first(effs), d.name + ": every path is added",
            d.name + " does not add every path", "inflate-less", Y)
    sel = [s for s in d.b.stmts if s.ast[0] == "select"]
    m = Meaning({})
    spec = []
    for t in ("SELECT COALESCE(MAX(priority), 0) FROM nodes WHERE directory = "
              "0", "SELECT MAX(priority) FROM nodes WHERE directory = 0"):
        st, = sql.parse(t)
        spec.append(Meaning({}).scalar(st[1], {}))
    for e in effs:
        v = e[4].get("priority")
        if v is None or strange(v):
            continue
        src = None
        for x, f in leaves(v):
            i = row_index(x)
            if i is None:
                continue
            src = i
        if not c.require(src is not None or v.op == "ite", e[0].where(),
                         d.name + ": priority", "%s gives new files the "
                         "priority %s" % (d.name, show(v, 4)), "inflate-value"):
            continue
        if not sel or src is None:
            continue
        try:
            s = sel[-1]
            t = Meaning(s.params).scalar(s.ast[1], {})
        except Unknown as x:
            c.note("%s: the query is not analysed (%s)" % (d.name, x))
            continue
        c.require(t in spec, s.where(), d.name + ": highest priority",
                  "%s takes %s for the highest priority of a file" % (
                      d.name, show(t, 6)), "inflate-max")
        if t is spec[1]:
            # (It is null if there are no files.)
            for x, f in leaves(v):
                if row_index(x) is not None:
                    c.require(any(has(a, x) for a in atoms(f)), s.where(),
                              d.name + ": the first files",
                              d.name + " gives the first files of an empty "
                              "database no priority", "inflate-null")


# ------------------------------------------------------------ the connection
@rule("P02 P18", "nothing is written to a database before it is committed, and "
      "committing it writes everything")
def db_transactions(c):
    for which in both():
        made, opened, body, init, r = scripts(c.M, which)
        c.runs["db-" + which] = r
        mod, cls, _ = CLASSES[which]
        f = mod.replace(".", "/") + ".py"
        for e in r.events:
            if e.name != "sqlite3.connect":
                continue
            iso = e.arg(3, "isolation_level", K(""))
            auto = e.kw.get("autocommit")
            c.require(iso is not NONE and (auto is None or auto.op != "k"
                                           or kval(auto) is not True),
                      e.where(), "%s: transactions" % cls, "%s writes every "
                      "change at once instead of with the commit" % cls,
                      "autocommit")
        # Foreign keys are only enforced where that was asked for.
        made_t = {a[1]: a[2] for e, a in made if a[0] == "create"}
        if made_t.get("closure", {}).get("fk"):
            for name, sts in (("create", made), ("__init__", opened)):
                on = [a for e, a in sts if a[0] == "pragma"
                      and a[1] == "foreign_keys"
                      and a[2] in ("on", "1", "true", "yes")]
                c.require(on, f, "%s.%s: foreign keys" % (cls, name),
                          "%s.%s does not turn on the foreign keys that "
                          "removing rows relies on" % (cls, name),
                          "foreign-keys")
        kw = {n: arg(n) for n in CLASSES[which][2] if n != "lastsync"}
        for meth, coll, kw in (("add_paths", ("files", "dirs"), kw),
                               ("rm_paths", ("paths",), {}),
                               ("update_paths", ("paths",), {}),
                               ("get_paths", (), {}),
                               ("get_path_info", (), {"path": Y}),
                               ("add_inflated", ("files", "dirs"), {}),
                               ("increment", ("paths",),
                                {"increment": arg("n")}),
                               ("adjust_all", (), {"adjustment": arg("n")})):
            if which == "remote" and meth in ("add_inflated", "increment",
                                              "adjust_all"):
                continue
            d = DB(c, which, meth, coll, **kw)
            if not d.ok:
                continue
            bad = d.b.commits + [e for e, a, f2 in d.b.scripts]
            bad += [s.ev for s in d.b.stmts if s.ast[0] in (
                "other", "pragma", "create", "create-other")]
            c.require(not bad, bad[0].where() if bad else d.file,
                      d.name + ": does not commit", d.name + " writes to the "
                      "database before the commit", "early-commit", ev=bad[0]
                      if bad else None)
        d = DB(c, which, "commit")
        if d.ok:
            c.require(d.b.commits or any(
                s.ast == ("other", "commit") for s in d.b.stmts), d.file,
                d.name + ": commits", "%s does not commit" % d.name,
                "no-commit")


# ------------------------------------------------------------------- path ids
@rule("P18", "the id of a path is a function of the path and its salt")
def db_path_id(c):
    for which in both():
        mod, cls, _ = CLASSES[which]

        def run(M, mod=mod, cls=cls, which=which):
            prims = dict(PRIMS_DB)
            del prims["SyncDBFile.*", "_get_path_id"]
            return func_run(
                M, "db-id-" + which, mod, "_get_path_id",
                lambda run, I, st: ([Y], {}), prims, cls=cls,
                setup=lambda run, I, st, f: I.call(
                    f, [DBPATH], {}, M.prog.dummy, st))
        r = c.run(run, "path id")
        if r is None or r.final is None or r.final.dead():
            continue
        b = Body(r, which)
        if b.unknown:
            c.note(cls + "._get_path_id: not analysed")
            continue
        hashes = [e for e in r.events[r.init_events:] if e.name in (
            ".update",) or e.name.startswith("hashlib.") and e.args]
        sel = [s for s in b.stmts if s.ast[0] == "select"]
        f = "zielen/containerbase.py"
        if not hashes:
            c.note(cls + "._get_path_id: not analysed")
            continue
        ok_salt = 0
        for s in sel:
            try:
                cols, en, vs, w = Meaning(s.params).core(s.ast[1][1][0], {})
                g = closed([v for v in vs], w)
                if len(cols) == 1 and cols[0].op == "salt" and \
                        AND(g, NOT(atom(mk("colli", Y)))) == 0:
                    ok_salt += 1
            except Unknown:
                pass
        where = hashes[-1].where()
        c.require(ok_salt, where, cls + ": the salt is looked up",
                  "%s does not use the salt of the path for its id" % cls,
                  "id-salt")
        # What goes into the hash.
        e = hashes[-1]
        salted = plain = False
        for t, g in leaves(r.c(e.args[0])):
            path = any(x is Y for x in subterms(t)) and not any(
                x.op in ("basename", "dirname") for x in subterms(t))
            c.require(path or strange(t), where, cls + ": ids depend on the "
                      "whole path", "the id of a path is made from %s" %
                      show(t, 5), "id-path")
            res = any(x.op == "res" and x.args[0] in (".fetchone", ".fetchall")
                      for x in subterms(t))
            salted |= res
            plain |= not res
        c.require(salted or len(hashes) > 1, where, cls + ": salted ids",
                  "%s makes the id of a path without its salt" % cls,
                  "id-unsalted")
        v = r.c(r.result)
        if v.op == "res" and v.args[0].endswith("from_bytes") or \
                "from_bytes" in v.op:
            txt = show(v, 9)
            c.require("signed" in txt and "True" in txt or "idx" not in txt
                      and "slice" not in txt, where, cls + ": ids fit",
                      "ids do not fit into a column of the database",
                      "id-range")


@rule("P18", "ids that collide with those of other paths are replaced before "
      "rows are added")
def db_collisions(c):
    for which in both():
        d = DB(c, which, "add_paths", ("files", "dirs"))
        if not d.ok:
            continue
        effs = d.eff("insert", "collisions")
        nodes = d.eff("insert", "nodes")
        if not d.ok or not d.need(effs, "collisions are recorded",
                                  "does not notice ids that are in use by "
                                  "other paths", "no-collisions"):
            continue
        x = fresh("x")
        mem = OR(isarg("files", Y), isarg("dirs", Y))
        want = AND(mem, atom(mk("node", I_)), NOT(eq(
            mk("ncol", I_, K("path")), Y)))
        got = OR(*[applies(e, (Y,)) for e in effs])
        d.same(got, want, d.first(effs), "ids in use by another path",
               "does not notice that the id of a new path is in use by "
               "another", "gives new ids to paths that have one",
               "collision")
        c.require(all(e[0].i < n[0].i for e in effs for n in nodes),
                  effs[0][0].where(), d.name + ": before the rows",
                  d.name + " looks for collisions only after adding rows",
                  "collision-late")
        # Ids are computed again until there are none.
        for e in effs:
            loops = [l for l in e[0].ev.loops if l[0].startswith("w")]
            told = [1 for n in nodes for a in atoms(d.r.pc(n[0].ev)) if any(
                x.op in ("res", "tmeth", "phi") for x in subterms(a))]
            c.require(loops and told, e[0].where(), d.name + ": until there are none",
                      d.name + " does not compute the ids again after a "
                      "collision", "collision-once")


@rule("P14 P02", "a database that exists is never created anew; that it exists "
                 "is told by an exception of its own")
def created_once(c):
    for which in CLASSES:
        d = DB(c, which, "create")
        if d.r is None:
            continue
        r = d.r
        es = []
        for e, a in scripts(c.M, which)[0]:
            if a[0] == "create" and e not in es:
                es.append(e)
        if not es:
            c.note("%s: no statement is executed" % d.name)
            continue
        for e in es:
            f = r.pc(e)
            tests = [a for a in atoms(f) if a.op == "fs" and a.args[0] in
                     ("isfile", "exists", "lexists") and
                     r.c(a.args[1]) is r.c(DBPATH)]
            there = AND(*[atom(a) for a in tests])
            sql = str(kval(e.args[0])) if isinstance(e.args[0], T) and \
                e.args[0].op == "k" else ""
            if "if not exists" in sql.lower():
                continue
            # Without a test, the statement itself fails, in a way that is
            # only understood where it was called if it is an OSError.
            c.require(tests, e.where(), "whether the database exists is tested",
                      "the tables of a database that exists are created again, "
                      "which is no error that init foresees", "db-exists", e)
            if tests:
                c.never(AND(f, there), e, "nothing is created in a database "
                        "that exists", "the tables of a database that exists "
                        "are created again", "db-exists")
            break
