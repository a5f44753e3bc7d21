"""Facts of the file system and the databases, as the rules name them."""
from .terms import *
from . import ext as E
from .model import *

PDB = pjoin(PROFDIR, K("local.db"))
RDB = pjoin(REMOTE, K(".zielen"), K("remote.db"))
EXCL = pjoin(PROFDIR, K("exclude"))
INFO = pjoin(PROFDIR, K("info.json"))
UTIL = pjoin(REMOTE, K(".zielen"))
SAFE = pjoin(REMOTE, K(".zielen"), K(".."))
TRASH = pjoin(REMOTE, K(".zielen"), K("Trash"))
X = var("X")


def L(x):
    return pjoin(LOCAL, x)


def R(x):
    return pjoin(REMOTE, x)


def known(x):
    return atom(mk("indb", PDB, x))


def rknown(x):
    return atom(mk("indb", RDB, x))


def excl(x):
    return atom(mk("excl", EXCL, LOCAL, x))


def inL(x):
    return atom(mk("intree", LOCAL, K("first"), x))


def inR(x):
    """x was seen by the scan of the remote directory."""
    return AND(atom(mk("intree", REMOTE, K("first"), x)), NOT(inutil(x)))


def inutil(x):
    return within(x, K(".zielen"))


def link(p):
    return atom(mk("islink", p))


def kdir(p):
    return atom(mk("kdir", p))


def isdir(p):
    return AND(NOT(link(p)), kdir(p))


def unsafe(x, base=None):
    base = base or LOCAL
    p = pjoin(base, x)
    return AND(link(p), atom(mk("unsafe", p, base)))


def dbdir(x, db=None):
    return atom(mk("pattr", mk("pdata", db or PDB, x), K("directory")))


def mtime(p):
    return mk("stat", p, K("st_mtime"))


def last_syncs(run):
    """Terms standing for the time of the last sync, as it was when the
    command started."""
    out = set()
    for e in run.events:
        for a in atoms(run.pc(e)):
            if a.op == "lt":
                for t in a.args:
                    if any(s.op == "jsonval" and s.args[1] is K("LastSync")
                           for s in subterms(t)):
                        out.add(shift_base(t))
    return out


def shift_base(t):
    if t.op == "add":
        for k, x in (t.args, t.args[::-1]):
            if k.op == "k":
                return x
    return t


class Sync:
    """What a sync is to do, in terms of one path x."""

    def __init__(self, run):
        self.run = run
        ls = last_syncs(run)
        self.LS = next(iter(ls)) if len(ls) == 1 else None
        self.ls_all = ls

    def newL(self, x):
        return AND(inL(x), NOT(known(x)), NOT(excl(x)), NOT(unsafe(x)))

    def newR(self, x):
        return AND(inR(x), NOT(known(x)), NOT(AND(excl(x), inL(x))))

    def modL(self, x):
        return AND(inL(x), NOT(isdir(L(x))), known(x),
                   lt(self.LS, mtime(L(x))), NOT(unsafe(x)))

    def modR(self, x):
        a = AND(inR(x), NOT(isdir(R(x))), known(x), lt(self.LS, mtime(R(x))))
        return OR(a, self.updR(x))

    def updR(self, x):
        """Another client's sync updated x."""
        return AND(known(x), inR(x), rknown(x), NOT(dbdir(x, RDB)),
                   lt(self.LS, mk("pattr", mk("pdata", RDB, x), K("lastsync"))))

    def chL(self, x):
        return OR(self.newL(x), self.modL(x))

    def chR(self, x):
        return OR(self.newR(x), self.modR(x))


def member(run, coll, x):
    """Canonical membership condition of x in a collection argument."""
    return run.canon.b(E.member(run.I, coll, x, run.final))


def files_arg(run, ev, name, x):
    """Membership condition of x in a collection argument of an event."""
    c = ev.colls.get(name)
    if c is None:
        v = ev.kw.get(name)
        return 0 if v is None or v is NONE else None
    return member(run, c, x)


def at(run, mut, x):
    """Condition under which the effect is applied to path x: the loop
    variables are bound so that the location's relative path is x."""
    if not mut.loc.comps:
        return 0
    rel = mut.loc.rel
    f = AND(mut.pc, eq(rel, x)) if rel is not x else mut.pc
    vs = [v for v in mut.xs if v in (bfv(f))]
    if rel.op == "var" and rel in vs:
        f = bsubst(mut.pc, {rel: x})
        vs = [v for v in mut.xs if v in bfv(f)]
    return exists(vs, f) if vs else f


def relaxed(f):
    """f whatever the outcome of calls that may fail."""
    return exists_atoms(f, lambda a: a.op == "exc")
