"""Runs of the interpreter over the program's entry points, and the vocabulary
(regions, canonical names) in which the rules are written."""
import os
import time

from .terms import *
from . import terms as TM
from .terms import T
from .interp import Interp, HInst, HColl, V0, AnalysisLimit
from .program import Program
from .prims import PRIMS


# ------------------------------------------------------------ canonical terms
_WRAP = ("norm", "expanduser", "abspath", "realpath", "rstripsep")
LOCAL, REMOTE = mk("root", "LOCAL"), mk("root", "REMOTE")
PROFDIR, PROFS = mk("root", "PROFILE"), mk("root", "PROFILES")
ROOTS = {"LocalDir": LOCAL, "RemoteDir": REMOTE}


class Canon:
    """Rewrites terms into a vocabulary independent of how paths are spelled:
    LOCAL, REMOTE, PROFILE/..., with value-preserving wrappers removed."""

    def __init__(self, selected=None):
        self.selected = selected      # test for the selected profile's name
        self.memo = {}
        self.bmemo = {}
        self.amemo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._go(t)
            self.memo[t] = r
        return r

    def b(self, f):
        if f <= 1:
            return f
        r = self.bmemo.get(f)
        if r is None:
            r = bmap(f, self.at)
            self.bmemo[f] = r
        return r

    def at(self, a):
        r = self.amemo.get(a)
        if r is None:
            t = self(a)
            r = t.args[0] if t.op == "b" else (
                truth_of(t) if t.op in ("k", "ite") else atom(t))
            self.amemo[a] = r
        return r

    def _arg(self, a):
        if isinstance(a, T):
            return self(a)
        if isinstance(a, tuple):
            return tuple(self._arg(x) for x in a)
        return a

    def _go(self, t):
        op = t.op
        if op in ("var", "k", "arg", "ref", "fn", "cls", "root"):
            return t
        if op == "ite":
            return vite(self.b(t.args[0]), self(t.args[1]), self(t.args[2]))
        if op == "b":
            return vbool(self.b(t.args[0]))
        if op == "ex":
            return vbool(exists(t.args[0], self.b(t.args[1])))
        args = tuple(self._arg(a) for a in t.args)
        if op in _WRAP:
            u = args[0]
            if u.op == "root" or u.op == "pjoin" and u.args[0].op == "root" \
                    and not any(c is K("..") for c in u.args[1:]):
                return u
            if u.op == "root":
                return u
        rb = TM._rebuilders.get(op)
        if rb is not None:
            r = rb(*args)
        else:
            r = mk(op, *args)
        return self.root(r)

    def root(self, r):
        if r.op == "pjoin":
            a = r.args
            if a[0].op == "env" and len(a) >= 3 and a[1] is K("zielen") and \
                    a[2] is K("profiles"):
                if len(a) == 3:
                    return PROFS
                if self.is_selected(a[3]):
                    return pjoin(PROFDIR, *a[4:])
                return pjoin(mk("profdir", a[3]), *a[4:])
        if r.op in ("cfgval", "cfg") and r.args[1].op == "k" and \
                kval(r.args[1]) in ROOTS and (
                    r.args[0].op == "pjoin" and r.args[0].args[0] is PROFDIR):
            return ROOTS[kval(r.args[1])]
        return r

    def is_selected(self, n):
        if self.selected is not None:
            return self.selected(n)
        return True


def has_op(t, *ops):
    return any(s.op in ops for s in subterms(t))


_op_memo = {}


def atom_has(a, ops):
    k = (a, ops)
    r = _op_memo.get(k)
    if r is None:
        r = any(s.op in ops for s in subterms(a))
        _op_memo[k] = r
    return r


UNKNOWN = ("top", "phi", "topzip", "havoc")


def definite(f, ops=UNKNOWN):
    """f restricted to what holds however imprecise values turn out."""
    free = {}
    for a in atoms(f):
        m = measured(a)
        if m is not None and atom_has(a, ops):
            free.setdefault(m, []).append(a)
    for m, ats in free.items():
        # A measurement of the environment that is compared with one thing
        # only can come out either way, whatever that thing is.
        if len(ats) == 1:
            f = OR(cofactor(f, ats[0], True), cofactor(f, ats[0], False))
    return forall_atoms(f, lambda a: atom_has(a, ops))


def measured(a):
    """The free measurement of the environment that a comparison is about."""
    if a.op == "lt":
        for t in a.args:
            if t.op == "attr" and t.args[0].op == "res" and t.args[0].args[0] \
                    in ("shutil.disk_usage", "os.statvfs"):
                return t
    return None


def varies(t):
    """t depends on the current time or on what exists."""
    return any(x.op == "res" and isinstance(x.args[0], str) and any(
        w in x.args[0] for w in ("now", "time", "strftime", "uuid"))
        or x.op in ("phi", "top", "havoc") for x in subterms(t))


def timed(t):
    """t is a name made from the current time, perhaps again and again."""
    if t.op == "phi":
        alts = PHI_ALTS.get(t.args[:2], ())
        return bool(alts) and all(a.op in ("cat", "pjoin") and any(
            x.op == "res" and isinstance(x.args[0], str) and
            ("now" in x.args[0] or "time" in x.args[0])
            for x in subterms(a)) for a in alts)
    return t.op in ("cat", "pjoin") and varies(t)


def fresh_names(f):
    """f under the assumption that a name made from the current time is not
    the name of any path found before."""
    def fn(a):
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if x.op == "var" and timed(y):
                    return 0
        elif a.op == "ex":
            b = fresh_names(a.args[1])
            if b != a.args[1]:
                return exists(a.args[0], b)
        return atom(a)
    return bmap(f, fn)


def feasible(f):
    """f without the assignments that contradict the meaning of its atoms."""
    if f <= 1:
        return f
    exs = [a for a in atoms(f) if a.op == "ex"]
    if exs and len(exs) <= 60:
        free = [v for v in bfv(f) if not v.args[0].startswith("#")]
        for a in exs:
            vs, body = a.args
            # An instance of the body makes the quantified fact true.
            if len(vs) == 1 and len(free) <= 8:
                for v in free + instances(f, vs[0], body):
                    f = AND(f, OR(NOT(bsubst(body, {vs[0]: v})), atom(a)))
                    if f == 0:
                        return f
            for b in exs:
                if b is not a and b.args[0] == vs and f > 1 and \
                        AND(body, NOT(b.args[1])) == 0:
                    f = AND(f, OR(NOT(atom(a)), atom(b)))
        if f == 0:
            return f
    ats = list(atoms(f))
    aset = set(ats)
    f = shift_axioms(f, ats)
    for a in ats:
        if a.op == "lt":
            b = mk("lt", a.args[1], a.args[0])
            if b in aset and a is not b:
                f = AND(f, NOT(AND(atom(a), atom(b))))
        elif a.op == "eq":
            f = eq_axiom(f, a, ats)
            for b in (mk("within", *a.args), mk("within", *a.args[::-1])):
                if b in aset:
                    f = AND(f, OR(NOT(atom(a)), atom(b)))
        if f == 0:
            break
    return f


def shifted(a):
    """(x, constant, y) if a says x + constant < y."""
    x, y = a.args
    if x.op == "add":
        for k, t in (x.args, x.args[::-1]):
            if k.op == "k" and isinstance(kval(k), (int, float)):
                return t, kval(k), y
    return x, 0, y


def shift_axioms(f, ats):
    """Comparisons of the same two quantities that differ by a constant."""
    lts = [(a, shifted(a)) for a in ats if a.op == "lt"]
    if not any(s[1] for a, s in lts):
        return f
    for a, (x, k, y) in lts:
        for b, (u, j, v) in lts:
            if a is b or f == 0:
                continue
            if u is x and v is y and k >= j and (k or j):
                f = AND(f, OR(NOT(atom(a)), atom(b)))
            elif u is y and v is x and k + j >= 0 and (k or j):
                f = AND(f, NOT(AND(atom(a), atom(b))))
    return f


def instances(f, v, body):
    """Other terms than variables of which f says what the body says of v."""
    out = []
    for b in atoms(body):
        if v not in b.args:
            continue
        for a in atoms(f):
            if a.op == b.op and len(a.args) == len(b.args) and a is not b:
                ts = {x for x, y in zip(a.args, b.args) if y is v}
                if len(ts) == 1 and all(
                        x is y or y is v for x, y in zip(a.args, b.args)):
                    t = ts.pop()
                    if t.__class__ is T and t.op != "var" and t not in out:
                        out.append(t)
    return out[:8]


def witness(f, x=None, limit=20):
    """A short description of one way to satisfy f."""
    from .terms import one_model
    out, rest = [], []
    for a, v in one_model(f) or ():
        if a.op == "exc" and not v:
            continue
        s = ("" if v else "not ") + show(a, 5)
        if len(s) > 160:
            s = s[:160] + "..."
        (out if x is None or x in a.fv else rest).append(s)
    return "; ".join((out + rest)[:limit])


def eq_axiom(f, a, ats):
    """One term cannot equal two different constants."""
    for x, y in (a.args, a.args[::-1]):
        if x.op == "k" and y.op != "k":
            for b in ats:
                if b is a or b.op != "eq":
                    continue
                for u, v in (b.args, b.args[::-1]):
                    if v is y and u.op == "k" and u is not x:
                        f = AND(f, NOT(AND(atom(a), atom(b))))
    return f


# -------------------------------------------------------------------- regions
class Loc:
    """Where a path points: region, and the components below its root."""
    __slots__ = ("region", "comps", "term")

    def __init__(self, region, comps, term):
        self.region, self.comps, self.term = region, comps, term

    def __repr__(self):
        return "%s/%s" % (self.region, "/".join(show(c, 3) for c in self.comps))

    @property
    def rel(self):
        return pjoin(*self.comps) if self.comps else K("")


UTILNAME = K(".zielen")


def locate(t):
    """[(Loc, condition)] for a canonical path term."""
    out = []
    for l, c in leaves(t):
        out.append((locate1(l), c))
    return out


def locate1(t):
    t0 = t
    while t.op in _WRAP:
        normed = t.op in ("norm", "realpath", "abspath")
        t = t.args[0]
        if normed and t.op == "pjoin":
            t2 = norm(t)
            t = t2.args[0] if t2.op == "norm" else t2
    if t.op == "dirent":
        t = t.args[0]
    tail = ()
    if t.op == "cat":
        # "<path>.tmp": same directory, derived name
        f = t.args[0]
        if f.op == "pjoin":
            tail = (mk("cat", f.args[-1], *t.args[1:]),)
            t = pjoin(*f.args[:-1])
        elif f.op == "root":
            return Loc("BESIDE-" + f.args[0], t.args[1:], t0)
    if t.op in ("dirname",):
        inner = locate1(t.args[0])
        return Loc(inner.region, inner.comps[:-1] + (
            (mk("dirname", inner.comps[-1]),) if inner.comps else ()), t0)
    if t.op == "root":
        return Loc(t.args[0], tail, t0)
    if t.op == "pjoin" and t.args[0].op == "root":
        reg, comps = t.args[0].args[0], t.args[1:] + tail
        if reg == "REMOTE" and comps and comps[0] is UTILNAME:
            if len(comps) > 1 and comps[1] is K(".."):
                return Loc("SAFE", comps[2:], t0)
            if len(comps) > 1 and comps[1] is K("Trash"):
                return Loc("TRASH", comps[2:], t0)
            return Loc("UTIL", comps[1:], t0)
        return Loc(reg, comps, t0)
    if t.op == "pjoin" and t.args[0].op == "dirname":
        inner = locate1(t.args[0])
        if inner.region != "?":
            return Loc(inner.region, inner.comps + t.args[1:] + tail, t0)
    if t.op == "pjoin" and t.args[0].op == "profdir":
        return Loc("OTHERPROFILE", t.args[1:] + tail, t0)
    return Loc("?", (t,), t0)


REMOTE_REGIONS = ("REMOTE", "SAFE", "UTIL", "TRASH")

# ------------------------------------------------------------------ mutations
# name -> [(effect, argument index, keyword)]
FSOPS = {
    "os.remove": [("delete", 0, "path")], "os.rmdir": [("rmdir", 0, "path")],
    "os.removedirs": [("rmdir", 0, "name")],
    "shutil.rmtree": [("rmtree", 0, "path")],
    "os.rename": [("move-src", 0, "src"), ("move-dst", 1, "dst")],
    "os.renames": [("move-src", 0, "old"), ("move-dst", 1, "new")],
    "os.replace": [("move-src", 0, "src"), ("move-dst", 1, "dst")],
    "shutil.move": [("move-src", 0, "src"), ("move-dst", 1, "dst")],
    "os.mkdir": [("mkdir", 0, "path")], "os.makedirs": [("mkdir", 0, "name")],
    "os.symlink": [("link", 1, "dst")], "os.link": [("link", 1, "dst")],
    "shutil.copy": [("write", 1, "dst")], "shutil.copy2": [("write", 1, "dst")],
    "shutil.copyfile": [("write", 1, "dst")],
    "shutil.copytree": [("write", 1, "dst")],
    "os.utime": [("meta", 0, "path")], "os.chmod": [("meta", 0, "path")],
    "shutil.copystat": [("meta", 1, "dst")],
    "os.truncate": [("write", 0, "path")],
    "os.chown": [("meta", 0, "path")],
}
DESTROY = ("delete", "rmtree", "move-src", "rmdir")


class Mut:
    """One effect on the file system or on a database."""
    __slots__ = ("ev", "effect", "loc", "pc", "xs")

    def __init__(self, ev, effect, loc, pc):
        self.ev, self.effect, self.loc, self.pc = ev, effect, loc, pc
        self.xs = [x for l in ev.loops for x in l[1]]

    def __repr__(self):
        return "<%s %r @%s>" % (self.effect, self.loc, self.ev.where())


DBW = {"db.add_paths", "db.add_inflated", "db.update_paths", "db.rm_paths",
       "db.increment", "db.adjust_all", "db.create"}


class Run:
    """One interpretation of an entry point."""

    def __init__(self, prog, name, drive, prims=PRIMS, selected=None,
                 budget=4_000_000):
        self.name = name
        self.prog = prog = prog.clone()
        t0 = time.time()
        I = self.I = Interp(prog, prims)
        I.MAX_STEPS = budget
        I.on_event = self.on_event
        self.error = None
        self.final = None
        self.obj = None
        self.canon = Canon(selected)
        try:
            I.load_all()
            st = I.base.copy()
            st.pc = 1
            drive(self, I, st)
            self.final = st
        except (AnalysisLimit, RecursionError) as e:
            self.error = "analysis limit: %s" % e
        self.raised = I.raise_sinks[-1] if I.raise_sinks else []
        self.events = I.events
        self.wall = time.time() - t0
        self._muts = None

    def on_event(self, ev, st):
        """Remember the database contents at writes."""
        if ev.name in WATCHED:
            ev.dbs = self.db_state(st)

    def db_state(self, st):
        out = {}
        for r, h in st.heap.items():
            if isinstance(h, HInst) and "__p" in h.fields:
                c = self.I.coll_of(h.fields["__p"], st)
                if c is not None:
                    out[self.I.classes[h.cls.args[0]].name,
                        self.canon(h.fields.get("path", NONE))] = c
        return out

    # canonical views
    def c(self, t):
        return self.canon(t)

    def pc(self, ev):
        return self.canon.b(AND(ev.pc, ev.ax))

    def ev(self, *names):
        return [e for e in self.events if e.name in names]

    def muts(self):
        if self._muts is None:
            out = []
            for e in self.events:
                out.extend(self.mut(e))
            self._muts = out
        return self._muts

    def mut(self, e):
        n = e.name
        specs = FSOPS.get(n)
        if specs is None and n == "open":
            m = e.arg(1, "mode", K("r"))
            ms = [kval(l) if l.op == "k" else "w" for l, _ in leaves(m)]
            if any(c in (x or "r") for x in ms for c in "wax+"):
                specs = [("write", 0, "file")]
        if specs is None and n == "tempfile.NamedTemporaryFile":
            specs = [("touch", None, "dir")]
        if n == "transfer_tree":
            specs = [("transfer", 1, "dest")]
            if e.kw.get("rm_source", KFALSE) is not KFALSE:
                specs.append(("transfer-src", 0, "source"))
        if n == "symlink_tree":
            specs = [("symlink-tree", 1, "dest_dir")]
        out = []
        for eff, i, k in specs or ():
            a = e.arg(i, k)
            if a is None:
                continue
            a = self.canon(a)
            # What is not there cannot be deleted or moved: a test for that
            # is no different from a failure that is ignored.
            pc = self.there(self.pc(e), e)
            if eff == "transfer-src":
                pc = AND(pc, self.canon.b(truth_of(e.kw["rm_source"])))
            for loc, c in locate(a):
                p = AND(pc, c)
                if p != 0:
                    out.append(Mut(e, eff, loc, p))
        return out

    def there(self, f, e):
        """f if what the event e deletes or moves is there."""
        gone = set()
        for eff, i, k in FSOPS.get(e.name, ()):
            a = e.arg(i, k)
            if eff in DESTROY and a is not None:
                gone |= {l for l, _ in leaves(self.canon(a))}
        return bmap(f, lambda x: 1 if x.op == "fs" and x.args[0] == "lexists"
                    and x.args[1] in gone else atom(x)) if gone else f

    def elem(self, ev, f):
        """f without the conjuncts that are not about the current elements."""
        xs = set(x for l in ev.loops for x in l[1])
        return exists_atoms(f, lambda a: not (xs & a.fv))


WATCHED = set(FSOPS) | {"transfer_tree", "symlink_tree", "db.commit"} | DBW


# ---------------------------------------------------------------- entry points
class Model:
    """All runs over one source tree (computed on demand, kept)."""

    def __init__(self, root="/repo"):
        self.root = root
        self.prog = Program(root)
        self.cache = {}

    def cls(self, I, st, mod, name):
        m = I.program.modules.get(mod)
        if m is None:
            raise Missing("module " + mod)
        c = st.frames[m.fid].get(name)
        if c is None:
            raise Missing("%s.%s" % (mod, name))
        I.fid, I.module = m.fid, m
        return c

    def method_run(self, key, mod, clsname, nargs, method="main", **kw):
        if key in self.cache:
            return self.cache[key]

        def drive(run, I, st):
            c = self.cls(I, st, mod, clsname)
            args = [mk("arg", str(i)) for i in range(nargs)]
            run.obj = I.instantiate(c, args, {}, self.prog.dummy, st)
            run.init_events = len(I.events)
            run.init_st = st.copy()
            f = I.getattr_(run.obj, method, self.prog.dummy, st)
            run.result = I.call(f, [], {}, self.prog.dummy, st)
        r = Run(self.prog, key, drive, **kw)
        self.cache[key] = r
        return r

    @property
    def sync(self):
        return self.method_run("sync", "zielen.commands.sync", "SyncCommand", 1)

    @property
    def init(self):
        return self.method_run("init", "zielen.commands.init", "InitCommand", 4,
                               selected=lambda n: n.op == "arg")

    @property
    def reset(self):
        return self.method_run("reset", "zielen.commands.reset", "ResetCommand", 3)

    @property
    def empty_trash(self):
        return self.method_run("empty-trash", "zielen.commands.emptytrash",
                               "EmptyTrashCommand", 1)

    @property
    def list(self):
        return self.method_run("list", "zielen.commands.list", "ListCommand", 0)

    @property
    def daemon(self):
        return self.method_run("daemon", "zielen.daemon", "Daemon", 1)

    @property
    def commands(self):
        return [self.sync, self.init, self.reset, self.empty_trash, self.list]


class Missing(Exception):
    pass


# ------------------------------------------------- bodies of the primitives
def without(*names):
    return {k: v for k, v in PRIMS.items() if k[1] not in names}


def argcoll(I, st, name, kind="list"):
    """A collection argument with unknown contents."""
    from .interp import Part
    return I.new_coll(st, kind, [Part((V0,), V0, None, atom(mk("in", name, V0)))])


def func_run(M, key, mod, name, mkargs, prims=PRIMS, cls=None, setup=None,
             names=None):
    """Interpret one function (or method of a fresh instance) on arguments
    built by mkargs(run, I, st) -> (args, kw)."""
    if key in M.cache:
        return M.cache[key]

    def drive(run, I, st):
        m = run.prog.modules.get(mod)
        if m is None:
            raise Missing("module " + mod)
        I.fid, I.module = m.fid, m
        f = st.frames[m.fid].get(cls or name)
        if f is None:
            raise Missing("%s.%s" % (mod, cls or name))
        if cls:
            run.obj = setup(run, I, st, f)
            run.init_events = len(I.events)
            f = I.getattr_(run.obj, name, M.prog.dummy, st)
        args, kw = mkargs(run, I, st)
        run.result = I.call(f, args, kw, M.prog.dummy, st)
    r = Run(M.prog, key, drive, prims=prims)
    M.cache[key] = r
    return r


SRC, DST = mk("root", "SRC"), mk("root", "DST")


def transfer_body(M, whole=False):
    """The body of transfer_tree with the usual arguments; with whole, for a
    whole directory."""
    def mkargs(run, I, st):
        return [SRC, DST], {
            "files": NONE if whole else argcoll(I, st, "files"),
            "exclude": argcoll(I, st, "exclude"),
            "message": K("m"), "rm_source": mk("arg", "rm_source")}
    return func_run(M, "transfer_tree%d" % whole, "zielen.fstools",
                    "transfer_tree", mkargs, without("transfer_tree"))


def symlink_body(M):
    def mkargs(run, I, st):
        return [SRC, DST, argcoll(I, st, "files"), argcoll(I, st, "dirs")], {
            "overwrite": mk("arg", "overwrite")}
    return func_run(M, "symlink_tree", "zielen.fstools", "symlink_tree",
                    mkargs, without("symlink_tree"))


def fstool_body(M, name, *args, **kw):
    return func_run(M, name, "zielen.fstools", name,
                    lambda run, I, st: (list(args), dict(kw)), without(name))
