"""Locking, order of effects, reset, init and trash."""
import ast
from .terms import *
from .model import *
from .vocab import *
from .interp import HInst, HColl
from .check import rule
from .rules_sync import (sync, uploads, downloads, destroys, renames, done,
                         done_any, at, relaxed, end_pc, trashings, early, late,
                         commits, IFF, AND_pc, mounted_tests)

LOCKED = ("sync", "reset", "init", "empty_trash")


def handled_excs(r):
    """Names of the repository's exception classes under the base that the
    command line handles."""
    return r.I


def binds(r):
    """Events that bind a socket made by this program."""
    return [e for e in r.events if e.name == ".bind" and e.recv is not None
            and any(l.op == "res" and l.args[0] == "socket.socket"
                    for l, _ in leaves(r.c(e.recv)))]


READS = {"config.read", "open", "json.load", "db.get_paths", "db.get_path_info",
         "exclude.all_matches", "exclude.matches", "scan_paths"}


def in_profile(r, e):
    """The event reads or writes something that belongs to the profile or its
    directories."""
    if e.name in DBW or e.name in ("db.commit", "db.get_paths",
                                   "db.get_path_info", "db.close"):
        return True
    if e.name in ("open", "config.read", "exclude.all_matches",
                  "exclude.matches", "scan_paths", "os.scandir"):
        for a in e.args[:1]:
            return any(l.region in ("PROFILE", "LOCAL", "REMOTE", "SAFE",
                                    "UTIL", "TRASH")
                       for l, _ in locate(r.c(a)))
    return False


def profile_name(r):
    """The terms for the selected profile's directory name."""
    out = set()
    for e in r.events:
        if e.name not in ("open", "config.read", "db.commit") or not e.args:
            continue
        for l, _ in leaves(e.args[0]):
            if l.op == "cat":
                l = l.args[0]
            if l.op == "pjoin" and K("profiles") in l.args:
                i = l.args.index(K("profiles"))
                if i + 1 < len(l.args) and r.canon.is_selected(l.args[i + 1]):
                    out.add(l.args[i + 1])
    return out


# ------------------------------------------------------------- P01: the lock
@rule("P01", "every operation binds an abstract unix socket named after user "
             "and profile before it reads or changes anything of the profile")
def locked_before_use(c):
    for name in LOCKED:
        r = c.run(name)
        if r is None:
            continue
        lk = binds(r)
        if not c.require(lk, "zielen/commands", "%s takes the lock" % name,
                         "the %s command does not lock the profile" % name,
                         "no-lock-" + name):
            continue
        held = lambda e: r.canon.b(OR(*[e.done.get(k.key, 0) for k in lk]))
        # What the constructor reads serves to select the profile.
        for i, e in enumerate(r.events):
            if i < r.init_events:
                for m in r.mut(e):
                    c.require(m.loc.region == "PROFILES" and m.effect == "mkdir",
                              e.where(), "%s: effect before locking" % name,
                              "the %s command changes files before it locks "
                              "the profile" % name, "effect-before-lock", e)
                if e.name in ("open", "json.load") and in_profile(r, e):
                    c.bad(e.where(), "%s: read before locking" % name,
                          "the %s command reads the profile's state before it "
                          "locks it" % name, "read-before-lock", e.path())
                continue
            if e.name in (".bind", ".close"):
                continue
            ms = [m for m in r.mut(e) if m.loc.region not in ("PROFILES",)]
            if ms or in_profile(r, e):
                c.never(AND(r.pc(e), NOT(held(e))), e,
                        "%s: %s after locking" % (name, e.name),
                        "the %s command %s before it holds the lock" % (
                            name, "changes something" if ms else
                            "reads the state of the profile"),
                        "before-lock")


@rule("P01", "the lock's name contains user and profile and is the same for "
             "all operations, and lives in the abstract namespace")
def lock_name(c):
    names = {}
    for name in LOCKED:
        r = c.run(name)
        if r is None:
            continue
        for e in binds(r):
            for l, _ in leaves(r.c(e.recv)):
                if l.op == "res":
                    fam = l.args[1][0] if l.args[1] else NONE
                    c.require(fam is K(1) or "AF_UNIX" in show(fam), e.where(),
                              "%s: address family" % name,
                              "the lock is not a unix socket, so it is not "
                              "tied to this machine and process",
                              "lock-family", e)
            if not e.args:
                continue
            a = r.c(e.args[0])
            for l, _ in leaves(a):
                first = l.args[0] if l.op == "cat" and l.args else l
                s = kval(first) if first.op == "k" else None
                c.require(not isinstance(s, (str, bytes)) or
                          s[:1] in ("\0", b"\0"), e.where(),
                          "%s: abstract address" % name,
                          "the lock is a file that stays behind when the "
                          "process is killed", "lock-file", e)
                subs = subterms(l)
                c.require(any(x.op in ("pure", "res") and isinstance(
                    x.args[0], str) and ("uid" in x.args[0] or
                                         "getuser" in x.args[0] or
                                         "getlogin" in x.args[0])
                    for x in subs) or any("HOME" in show(x) for x in subs
                                          if x.op == "env"), e.where(),
                    "%s: user in the lock's name" % name,
                    "the lock does not depend on the user: users block each "
                    "other's profiles", "lock-user", e)
                c.require(not any(x.op in ("pure", "res") and isinstance(
                    x.args[0], str) and any(w in x.args[0] for w in (
                        "getpid", "time", "uuid", "random", "urandom",
                        "get_ident")) for x in subs), e.where(),
                    "%s: same name in every process" % name,
                    "the lock's name differs from process to process",
                    "lock-varies", e)
                pn = profile_name(r)
                c.require(any(x in pn for x in subs) if pn else any(
                    x.op in ("var", "arg") for x in subs), e.where(),
                          "%s: profile in the lock's name" % name,
                          "the lock does not depend on the profile",
                          "lock-profile", e)
                m = {}

                def norm_(t):
                    if t.op in ("var", "arg"):
                        return K("<profile>")
                    if t.op in ("k",) or not t.args:
                        return t
                    return mk(t.op, *[norm_(x) if isinstance(x, T) else
                                      tuple(norm_(y) if isinstance(y, T) else y
                                            for y in x)
                                      if isinstance(x, tuple) else x
                                      for x in t.args])
                if l.op not in UNKNOWN:
                    names.setdefault(norm_(l), []).append((name, e))
    if len(names) > 1:
        many = max(names.values(), key=len)
        for k, v in names.items():
            if v is not many:
                for name, e in v:
                    c.bad(e.where(), "%s: same lock as the others" % name,
                          "the %s command uses another lock than %s" % (
                              name, many[0][0]), "lock-differs", e.path())
    elif names:
        c.ok("zielen/commandbase.py", "all operations use the same lock")


@rule("P01", "the lock is held until the operation has finished")
def lock_kept(c):
    for name in LOCKED:
        r = c.run(name)
        if r is None:
            continue
        lk = binds(r)
        socks = {l for e in lk for l, _ in leaves(r.c(e.recv))}
        rel = [e for e in r.events if e.name in (".close", ".detach",
                                                 ".shutdown")
               and e.recv is not None and
               any(l in socks for l, _ in leaves(r.c(e.recv)))]
        rel = [e for e in rel if e.name != ".shutdown"]
        for i, e in enumerate(r.events[r.init_events:]):
            if not (r.mut(e) or in_profile(r, e)):
                continue
            d = r.canon.b(OR(*[e.done.get(k.key, 0) for k in rel]))
            c.never(AND(r.pc(e), d), e, "%s: %s before unlocking" % (
                name, e.name), "the lock is released before the %s command "
                "has finished" % name, "released-early")
        # The socket object must stay alive: something outside of the
        # function that made it refers to it.
        for s in socks:
            if s.op != "res":
                continue
            st = [e for e in r.events if e.name == "setattr" and len(e.args) > 2
                  and any(l is s for l, _ in leaves(r.c(e.args[2])))]
            glob = any(s in [x for v in fr.values() if isinstance(v, T)
                             for x in subterms(r.c(v))]
                       for fid, fr in r.final.frames.items()
                       if fid in r.I.module_frames)
            inheap = glob or any(
                s in subterms(r.c(v)) for h in r.final.heap.values()
                for v in heap_values(h))
            c.require(st or inheap, lk[0].where(), "%s: the socket is kept" % name,
                      "the socket is not kept anywhere, so the lock is "
                      "released as soon as the function that took it returns",
                      "lock-dropped", lk[0])
            for e in st:
                # Overwritten by another value before the end?
                obj, attr = e.args[0], e.args[1]
                for e2 in r.events:
                    if e2.name == "setattr" and e2 is not e and \
                            e2.args[0] is obj and e2.args[1] is attr and \
                            all(l is not s for l, _ in leaves(r.c(e2.args[2]))):
                        for ev in r.events[r.init_events:]:
                            if r.mut(ev):
                                d = r.canon.b(AND(
                                    ev.done.get(e2.key, 0),
                                    e2.done.get(e.key, 0)))
                                c.never(AND(r.pc(ev), d), ev,
                                        "%s: the socket is kept" % name,
                                        "the lock is dropped before the %s "
                                        "command has finished" % name,
                                        "lock-dropped")


def heap_values(h):
    if isinstance(h, HInst):
        return [v for v in h.fields.values() if isinstance(v, T)]
    return [x for p in h.parts.values() for x in (p.key, p.val)
            if isinstance(x, T)]


@rule("P01 P20", "a lock that is taken leads to an error that the command line "
                 "reports")
def lock_failure_reported(c):
    for name in LOCKED:
        r = c.run(name)
        if r is None:
            continue
        lk = binds(r)
        if not lk:
            continue
        fails = [a for e in r.events[r.init_events:] for a in atoms(r.pc(e))
                 if a.op == "exc" and a.args[1] == ".bind"]
        found = None
        for cls, val, st in r.raised:
            for a in atoms(r.canon.b(AND(st.pc, st.ax))):
                if a.op == "exc" and ".bind" in [x for x in a.args
                                                 if isinstance(x, str)]:
                    f = r.canon.b(AND(st.pc, st.ax))
                    if AND(f, NOT(atom(a))) == 0 or feasible(
                            AND(f, NOT(atom(a)))) == 0:
                        found = cls
                        c.require(program_error(r, cls), lk[0].where(),
                                  "%s: reported failure of the lock" % name,
                                  "a profile that is in use leads to %s, which "
                                  "the command line does not report" %
                                  cls_name(r, cls), "lock-error-class")
        c.require(found is not None, lk[0].where(),
                  "%s: failure of the lock" % name,
                  "the %s command goes on when the profile is in use" % name,
                  "lock-ignored", lk[0])


def cls_name(r, cls):
    if cls.op == "cls":
        return r.I.classes[cls.args[0]].name
    if cls.op == "ext":
        return cls.args[0]
    return show(cls, 2)


def program_error(r, cls):
    """The class derives from the exception that cli.main handles."""
    return cls.op == "cls" and r.I.is_subclass(cls, "ProgramError")


# ------------------------------------------------------------ P07: the trash
RANDOM = ("uuid", "secrets", "random", "secure_string", "mkdtemp", "mkstemp",
          "token", "NamedTemporaryFile", "mktemp")


def is_random(t):
    return any(s.op in ("res", "pure") and isinstance(s.args[0], str) and
               any(w in s.args[0] for w in RANDOM) for s in subterms(t))


def trash_users():
    return ("sync", "reset", "init", "empty_trash")


@rule("P07", "a file gets a name in the trash that no entry of the trash and "
             "no other file moved at the same time has")
def trash_names_unique(c):
    r = c.run("sync")
    if r is None:
        return
    indir = lambda t: mk("indir", TRASH, t)
    for src, dst in trashings(r):
        t = dst.loc.rel
        where, ev = dst.ev.where(), dst.ev
        if is_random(t):
            c.ok(where, "a name from a random source")
            continue
        phis = [s for s in subterms(t) if s.op == "phi"]
        # The event's own condition may say it directly.
        own = dst.pc
        if any(a.op == "fs" and a.args[0] in ("exists", "lexists") and
               a.args[1] is pjoin(TRASH, t) and AND(own, atom(a)) == 0
               for a in atoms(own)):
            c.ok(where, "the name is tested right before the move")
            continue
        if any(s.op in UNKNOWN and s.op != "phi" for s in subterms(t)):
            c.note("%s: the name in the trash could not be analysed" % where)
            continue
        facts = phi_facts(r, t) if t in phis else []
        if phis and t not in phis and not free_name(own, t, TRASH):
            c.note("%s: the name in the trash is computed from a loop "
                   "in a way that is not analysed" % where)
            continue
        good = free_name(own, t, TRASH) or (facts and all(
            free_name(f, t, TRASH) for f in facts))
        if not c.require(good, where, "the name is not in the trash",
                         "files are moved to the trash under a name that may "
                         "exist there already", "trash-name", ev, show(t, 6)):
            continue
        dist = distinct_name(r, own, t) or (facts and all(
            distinct_name(r, f, t) for f in facts))
        c.require(dist, where, "different names for files moved together",
                  "two files that are moved to the trash together may "
                  "get the same name", "trash-name-same", ev)


def phi_facts(r, t):
    out = []
    for k, fs in r.I.term_facts.items():
        kc = r.c(k)
        if kc.op == "phi" and kc.args[:2] == t.args[:2]:
            for f in fs:
                f = r.canon.b(f)
                out.append(map_atoms(f, {kc: t}))
    return out


def map_atoms(f, m):
    return bsubst(f, m) if all(k.op == "var" for k in m) else \
        bmap(f, lambda a: atom(subst_terms(a, m)))


def alpha(t):
    """t with its variables renamed in order of appearance."""
    vs = []

    def go(x):
        if x.op == "phi":
            return mk("phi", *x.args[:2])
        if x.op == "var":
            if x not in vs:
                vs.append(x)
            return mk("k", "<v%d>" % vs.index(x))
        if not any(isinstance(a, (T, tuple)) for a in x.args):
            return x
        return mk(x.op, *[go(a) if isinstance(a, T) else tuple(
            go(y) if isinstance(y, T) else y for y in a)
            if isinstance(a, tuple) else a for a in x.args])
    return go(t)


def free_name(f, t, where):
    """f implies that no entry of the directory is named t."""
    def loop(a):
        return a.op == "looprm" and t in subterms(a)
    for a in atoms(f):
        if loop(a):
            f = cofactor(f, a, False)
    ins = [a for a in atoms(f) if a.op in ("indir", "fs") and
           ((a.op == "indir" and a.args[0] is where and a.args[1] is t) or
            (a.op == "fs" and a.args[0] in ("exists", "lexists", "isfile",
                                            "isdir")
             and a.args[1] is pjoin(where, t) and a.args[0] in
             ("exists", "lexists")))]
    if not ins:
        return False
    return any(AND(f, atom(a)) == 0 for a in ins)


def distinct_name(r, f, t):
    """f implies that t is not among names chosen before, and names chosen
    are added to those."""
    for a in atoms(f):
        if a.op == "loopadd" and a.args[-1] is t and AND(f, atom(a)) == 0:
            added = r.I.loop_adds.get((a.args[0], a.args[1]), ())
            if any(alpha(l) is alpha(t) for x in added
                   for l, _ in leaves(r.c(x))):
                return True
        # Tested against the directory right before the move.
        if a.op == "fs" and a.args[0] in ("exists", "lexists") and \
                AND(f, atom(a)) == 0:
            return True
    return False


@rule("P07", "a file's time in the trash starts when it is moved there")
def trash_time_starts(c):
    r = c.run("sync")
    if r is None:
        return
    for src, dst in trashings(r):
        cover = 0
        xs = set(dst.xs)
        for m in r.muts():
            if m.effect not in ("meta", "touch") or m.ev is dst.ev:
                continue
            same = m.loc.region == "TRASH" and has_phi_like(m.loc.rel,
                                                            dst.loc.rel)
            if m.loc.region in ("SAFE", "REMOTE"):
                same = r.events.index(m.ev) < r.events.index(dst.ev) and (
                    m.loc.rel is src.loc.rel or
                    m.loc.rel.op == "var" and src.loc.rel.op == "var")
            if not same:
                continue
            if m.effect == "meta" and m.ev.name not in (
                    "os.utime", "update_mtime"):
                continue
            if m.ev.name == "os.utime" and not now_times(r, m.ev):
                continue
            p = m.pc
            ren = dict(zip(m.xs, dst.xs)) if len(m.xs) == len(dst.xs) else {}
            p = bsubst(p, ren) if ren else p
            # Whether the entry exists or is a directory selects the way in
            # which its time is set; a missing one has no time.
            p = exists_atoms(p, lambda a: a.op in (
                "exc", "fs", "islink", "kdir", "stat", "loopadd", "looprm",
                "indir") or atom_has(a, UNKNOWN))
            cover = OR(cover, p)
        f = exists_atoms(dst.pc, lambda a: a.op in ("exc", "loopadd", "looprm",
                                                    "indir")
                         or atom_has(a, UNKNOWN))
        c.never(AND(f, NOT(cover)), dst.ev, "the time in the trash is set",
                "a file is moved to the trash with its old modification time, "
                "so it is deleted before its time", "trash-time")


def has_phi_like(a, b):
    if a is b:
        return True
    return a.op == b.op and (a.op == "var" or (
        a.op == "phi" and a.args[:2] == b.args[:2]))


def now_times(r, e):
    """os.utime sets the current time."""
    for i, k in ((1, "times"), (None, "ns")):
        t = e.arg(i, k) if i is not None else e.kw.get(k)
        if t is None or t is NONE:
            continue
        t = r.c(t)
        if t.op in UNKNOWN:
            return True
        if not any(s.op == "res" and "time" in str(s.args[0])
                   for s in subterms(t)):
            return False
    return True


@rule("P07", "nothing but the move writes to the trash")
def trash_not_written(c):
    for name in trash_users():
        r = c.run(name)
        if r is None:
            continue
        ok = {id(b.ev) for a, b in trashings(r)}
        for m in r.muts():
            if m.loc.region == "TRASH" and m.loc.comps and m.effect in (
                    "write", "transfer", "symlink", "move-dst", "copy-dst"):
                c.require(id(m.ev) in ok, m.ev.where(),
                          "%s in the trash" % m.effect,
                          "something is written into the trash",
                          "trash-written", m.ev)


@rule("P07", "the trash directory is never created together with a missing "
             "remote directory, and exists before files are moved there")
def trash_dir_made(c):
    r = c.run("sync")
    if r is None:
        return
    for src, dst in trashings(r):
        mk_ = [e for e in r.events if e.name in ("os.mkdir", "os.makedirs")
               and any(l.region == "TRASH" and not l.comps
                       for l, _ in locate(r.c(e.args[0])))]
        d = r.canon.b(OR(*[dst.ev.done.get(e.key, 0) for e in mk_]))
        ex = exists_atoms(dst.pc, lambda a: a.op == "exc")
        d = OR(d, *[atom(a) for a in atoms(dst.pc) if a.op == "fs" and
                    a.args[0] in ("isdir", "exists") and any(
                        l.region == "TRASH" and not l.comps
                        for l, _ in locate(a.args[1]))])
        c.require(mk_ and AND(ex, NOT(exists_atoms(
            d, lambda a: a.op == "exc"))) == 0, dst.ev.where(),
            "the trash directory is made first",
            "files are moved to a trash directory that may not exist",
            "trash-dir", dst.ev)


# ---------------------------------------------------------- P08: the clean-up
from .arith import lin, plus, difference, is_now

CFG = pjoin(PROFDIR, K("config"))


def cfgval(name):
    return mk("cfgval", CFG, K(name))


def cfg_atoms(r, name):
    """(atom for 'the option is there and not blank', all its atoms)."""
    key, val = atom(mk("cfgkey", CFG, K(name))), atom(cfgval(name))
    return AND(key, val)


DAY = 24 * 60 * 60


class Expiry:
    """Reads the conditions under which clean-up deletes an entry of the
    trash."""

    def __init__(self, r, x):
        self.r, self.x = r, x
        self.m = mtime(pjoin(TRASH, x))
        self.v = cfgval("TrashCleanupPeriod")
        self.given = cfg_atoms(r, "TrashCleanupPeriod")
        self.unread, self.wrong = [], []

    def classify(self, a):
        """What an atom about the entry's time says: ("young"|"old", the
        period as ("user"|"default", seconds)), else None."""
        if a.op != "lt" or not any(s.op == "stat" and s.args[0] is
                                   self.m.args[0] for s in subterms(a)):
            return None
        d = difference(a)
        cm = d.pop(self.m, 0)
        if not cm and all(k is None or k.op == "stat" or is_now(k) or
                          self.is_value(k) for k in d):
            self.wrong.append(a)
        nows = [k for k in d if k is not None and is_now(k)]
        if len(nows) != 1 or abs(cm) != 1:
            return "?"
        cn = d.pop(nows[0])
        if cn != -cm:
            return "?"
        # now - mtime - period < 0 means young; the negation old-or-equal.
        sign = 1 if cm == -1 else -1
        p = {k: -v * sign for k, v in d.items()}
        if not p:
            per = ("default", 0)
        elif list(p) == [None]:
            per = ("default", p[None])
        elif len(p) == 1:
            (k, c), = p.items()
            per = ("user", c) if self.is_value(k) else "?"
        else:
            per = "?"
        if per == "?":
            return "?"
        return ("young" if sign == 1 else "old"), per

    def is_value(self, t):
        return t.op in ("int", "float", "pure", "res") and \
            any(s is self.v for s in subterms(t)) or t is self.v

    def negative(self, a):
        """+1: the atom says that the value is negative, -1: that it is not."""
        if a.op == "startswith" and a.args[0] is self.v and a.args[1] is K("-"):
            return 1
        if a.op == "eq" and K("-") in a.args:
            o = a.args[1] if a.args[0] is K("-") else a.args[0]
            if o.op in ("idx", "slice") and o.args[0] is self.v:
                return 1
        if a.op == "lt":
            d = difference(a)
            ks = [k for k in d if k is not None]
            if len(ks) == 1 and self.is_value(ks[0]):
                c, k = d.get(None, 0), d[ks[0]]
                if k > 0 and c == 0 or k > 0 and 0 < c / k < 1:
                    return 1                         # v < 0
                if k < 0 and 0 < c / -k <= 1 and c:
                    pass
                if k < 0 and c / k == 1:             # -1 < v
                    return -1
        return 0

    def normalise(self, f):
        neg = atom(mk("k-neg", self.v))

        def fn(a):
            s = self.negative(a)
            if s:
                return neg if s > 0 else NOT(neg)
            c = self.classify(a)
            if c and c != "?":
                kind, (who, sec) = c
                return atom(mk("k-" + kind, K(who), K(str(sec))))
            if c == "?":
                self.unread.append(a)
            return atom(a)
        return bmap(f, fn), neg


@rule("P08", "clean-up deletes exactly the entries of the trash that have been "
             "there for at least the configured period")
def cleanup_by_age(c):
    r = c.run("sync")
    if r is None:
        return
    ms = [m for m in destroys(r, "TRASH") if m.loc.comps]
    if not c.require(ms, "zielen/filelogic.py", "clean-up deletes something",
                     "expired files are never deleted from the trash",
                     "no-cleanup"):
        return
    x = X
    E_ = Expiry(r, x)
    ind = [a for a in atoms(OR(*[at(r, m, x) for m in ms]))
           if a.op == "indir" and a.args[0] is TRASH and a.args[1] is x]
    D = DT = 0
    for m in ms:
        f = relaxed(at(r, m, x))
        g, neg = E_.normalise(f)
        if E_.wrong:
            c.require(False, m.ev.where(), "age of an entry of the trash",
                      "the age of an entry is not the time since it was moved "
                      "to the trash: %s" % show(E_.wrong[0], 6)[:100],
                      "cleanup-other-time", m.ev)
            return
        if any(s.op == "const" and s.args[0] is None or s is K(None)
               for a in E_.unread for s in subterms(a)):
            c.never(AND(g, neg, E_.given), m.ev,
                    "no deletion from the trash if clean-up is off",
                    "files are deleted from the trash although clean-up is "
                    "off", "cleanup-off", x)
        if E_.unread:
            c.note("%s: the age of an entry is computed in a way that is not "
                   "analysed: %s" % (m.ev.where(), show(E_.unread[0], 6)[:120]))
            return
        ts = [a for a in atoms(g) if a.op in ("k-young", "k-old")]
        what = "%s of an entry of the trash" % m.effect
        c.never(AND(g, neg, E_.given), m.ev, what + " if clean-up is off",
                "files are deleted from the trash although clean-up is off",
                "cleanup-off", x)
        for cond, who, unit in ((E_.given, "user", DAY),
                                (NOT(E_.given), "default", None)):
            h = AND(g, cond)
            if feasible(h) == 0:
                continue
            oks = [a for a in ts if a.args[0] is K(who) and
                   (unit is None and kval(a.args[1]) == str(30 * DAY) or
                    unit is not None and kval(a.args[1]) == str(unit))]
            young = OR(*[atom(a) for a in oks if a.op == "k-young"])
            old = OR(*[atom(a) for a in oks if a.op == "k-old"])
            left = AND(h, OR(young, NOT(old)) if any(
                a.op == "k-old" for a in oks) and not any(
                a.op == "k-young" for a in oks) else (
                young if oks else 1))
            # An entry older than the period by any other measure than its
            # own time, or compared with another period, is a violation.
            c.never(left, m.ev, what + " only if it is old enough (%s)" % who,
                    "files are deleted from the trash before the configured "
                    "period has passed", "cleanup-early", x)
        D = OR(D, g)
        if m.effect == "rmtree":
            DT = OR(DT, g)
    # Completeness.
    end, neg = E_.normalise(end_pc(r))
    young = OR(*[atom(a) for a in atoms(D) if a.op == "k-young" or
                 a.op == "k-old"])
    isin = OR(*[atom(a) for a in ind])
    ts = [a for a in atoms(D) if a.op in ("k-young", "k-old")]
    expired = 1
    for a in ts:
        # Strictly older: what happens at the very instant is left open.
        expired = AND(expired, atom(a) if a.op == "k-old" else NOT(atom(a)))
    pset = NOT(AND(E_.given, neg))
    if not ind:
        c.note("the listing of the trash could not be identified")
        return
    ev = ms[0].ev
    c.never(AND(end, isin, pset, expired, NOT(D)), ev,
            "every expired entry is deleted",
            "an entry of the trash that is old enough is not deleted",
            "cleanup-missed", x)
    real = isdir(pjoin(TRASH, x))
    c.never(AND(end, isin, pset, expired, real, NOT(DT)), ev,
            "expired directories are deleted",
            "a directory in the trash that is old enough is not deleted",
            "cleanup-missed-dir", x)


@rule("P08", "nothing outside of the trash is deleted by clean-up or by "
             "emptying the trash, and no link in it is followed")
def trash_deletes_confined(c):
    for name in ("sync", "empty_trash"):
        r = c.run(name)
        if r is None:
            continue
        for m in r.muts():
            if m.effect not in DESTROY:
                continue
            own = m.ev.stack_has("cleanup_trash") if hasattr(
                m.ev, "stack_has") else False
            if name == "empty_trash" or m.loc.region in ("TRASH", "UTIL"):
                c.require(m.loc.region == "TRASH" and m.loc.comps,
                          m.ev.where(), "%s in the trash (%s)" % (
                              m.effect, name),
                          "%s outside of the trash: %r" % (m.effect, m.loc),
                          "outside-trash", m.ev)
            if m.loc.region == "TRASH" and m.loc.comps:
                p = pjoin(TRASH, m.loc.rel)
                if m.loc.rel.op == "var" and m.effect != "move-src":
                    lst = [a for a in atoms(m.pc) if a.op == "indir" and
                           a.args[0] is TRASH and a.args[1] is m.loc.rel]
                    c.never(AND(m.pc, NOT(OR(*[atom(a) for a in lst]))), m.ev,
                            "%s of an entry of the trash (%s)" % (
                                m.effect, name),
                            "something that is no entry of the trash is "
                            "deleted", "not-an-entry")
                if m.effect == "rmtree":
                    dirs = [a for a in atoms(m.pc) if a.op == "exc" and
                            a.args[0] in ("IsADirectoryError",)]
                    f = AND(m.pc, NOT(isdir(p)),
                            NOT(OR(*[atom(a) for a in dirs])))
                    c.never(f, m.ev, "rmtree of a real directory (%s)" % name,
                            "a link in the trash is treated like the "
                            "directory it points to", "rmtree-link")


@rule("P08", "emptying the trash deletes every entry")
def empty_trash_complete(c):
    r = c.run("empty_trash")
    if r is None:
        return
    ms = [m for m in destroys(r, "TRASH") if m.loc.comps]
    if not c.require(ms, "zielen/commands/emptytrash.py", "entries are deleted",
                     "empty-trash deletes nothing", "empty-nothing"):
        return
    D = DT = 0
    ind = set()
    for m in ms:
        f = at(r, m, X)
        ind |= {a for a in atoms(f) if a.op == "indir" and
                a.args[0] is TRASH and a.args[1] is X}
        # A file that is gone is deleted; a directory raises the error that
        # selects rmtree.
        g = f
        D = OR(D, exists_atoms(g, lambda a: a.op == "exc"))
        if m.effect == "rmtree":
            h = f
            for a in atoms(f):
                if a.op == "exc" and "IsADirectoryError" == a.args[0]:
                    h = cofactor(h, a, True)
            DT = OR(DT, exists_atoms(h, lambda a: a.op == "exc"))
    if not ind:
        c.note("the listing of the trash could not be identified")
        return
    isin = OR(*[atom(a) for a in ind])
    end = end_pc(r)
    c.never(AND(end, isin, NOT(D)), ms[0].ev, "every entry is deleted",
            "empty-trash leaves entries in the trash", "empty-missed", X)
    c.never(AND(end, isin, isdir(pjoin(TRASH, X)), NOT(DT)), ms[0].ev,
            "every directory is deleted",
            "empty-trash leaves directories in the trash", "empty-missed-dir",
            X)
    # It must also look at the remote directory that is mounted.


# ------------------------------------------------------------------ P13: reset
RESETARGS = {"keep_remote": 1, "no_retrieve": 2}
INITARGS = {"exclude": 1, "template": 2, "add_remote": 3}


def option_arg(r, mod, cls, name, table):
    """The truth of a command's constructor argument."""
    for n in ast.walk(r.prog.modules[mod].tree):
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                    ps = [a.arg for a in f.args.args][1:]
                    if name in ps:
                        return truth_of(mk("arg", str(ps.index(name))))
    return truth_of(mk("arg", str(table[name])))


def reset(c):
    r = c.run("reset")
    if r is None:
        return None, 0, 0
    o = [option_arg(r, "zielen.commands.reset", "ResetCommand", n, RESETARGS)
         for n in ("keep_remote", "no_retrieve")]
    return r, o[0], o[1]


def own_exclude(m):
    """The mutation is about a file in .zielen/exclude."""
    return m.loc.region == "UTIL" and len(m.loc.comps) == 2 and \
        m.loc.comps[0] is K("exclude")


def retrievals(r):
    return [m for m in r.muts() if m.effect in ("transfer", "write") and
            m.loc.region == "LOCAL" and m.ev.name == "transfer_tree"]


def remote_destroys(r):
    return [m for m in r.muts() if m.effect in DESTROY and
            m.loc.region in ("REMOTE", "SAFE", "UTIL", "TRASH") and
            not own_exclude(m)]


def completed(r, m, evs):
    """One of the events evs completed before the effect m."""
    return OR(*[r.canon.b(m.ev.done.get(e.key, 0)) for e in evs])


def removes_profile(r):
    return [m for m in r.muts() if m.loc.region == "PROFILE" and
            (not m.loc.comps and m.effect in DESTROY)]


@rule("P13", "every remote file is in the set that reset copies to the local "
             "directory, and the copy runs unless the user said otherwise")
def reset_retrieves(c):
    r, keep, noret = reset(c)
    if r is None:
        return
    w = "zielen/commands/reset.py"
    rt = retrievals(r)
    if not c.require(rt, w, "reset copies files back",
                     "reset does not copy the remote files back",
                     "no-retrieval"):
        return
    F = 0
    for m in rt:
        src = [l for l, _ in locate(r.c(m.ev.args[0]))]
        c.require(all(l.region in ("REMOTE", "SAFE") and not l.comps
                      for l in src), m.ev.where(), "source of the copy",
                  "reset does not copy from the remote directory",
                  "retrieve-source", m.ev)
        if m.ev.kw.get("files", NONE) is NONE:
            f = 1
        else:
            f = files_arg(r, m.ev, "files", X)
            if f is None:
                c.note("the set of files to retrieve is not known")
                return
        if m.ev.kw.get("exclude", NONE) is not NONE:
            g = files_arg(r, m.ev, "exclude", X)
            f = AND(f, NOT(g)) if g is not None else f
        F = OR(F, AND(relaxed(m.pc), f))
        c.never(AND(relaxed(m.pc), r.canon.b(truth_of(m.ev.kw.get(
            "rm_source", KFALSE))), keep), m.ev,
            "the copy leaves the remote files in place with --keep-remote",
            "remote files are removed although the user asked to keep them",
            "keep-remote")
    base = OR(*[relaxed(m.pc) for m in rt])
    file = AND(inR(X), rknown(X))
    c.never(AND(base, file, NOT(F)), rt[0].ev, "every remote file is copied",
            "reset does not copy every remote file to the local directory",
            "retrieve-all", X)
    if not r.final.dead():
        end = end_pc(r)
        d = OR(*[r.canon.b(r.final.done.get(m.ev.key, 0)) for m in rt])
        c.never(AND(end, NOT(noret), NOT(d)), rt[0].ev,
                "the files are copied back before reset succeeds",
                "reset can succeed without copying the files back",
                "retrieve-skipped")
        # Something must remove the remote content in the normal case.
        rm = remote_destroys(r)
        c.require(rm, w, "reset removes the remote content",
                  "reset never removes the remote files", "remote-kept")


@rule("P13 P04 P05", "reset deletes remote content only if the user did not "
             "ask to keep it, after the copy succeeded and a new scan found "
             "that nothing was left behind")
def reset_removes_after_check(c):
    r, keep, noret = reset(c)
    if r is None:
        return
    rt = retrievals(r)
    scans = [e for e in r.events if e.name == "scan_paths" and
             any(l.region in ("REMOTE", "SAFE") and not l.comps
                 for l, _ in locate(r.c(e.args[0])))]
    for m in remote_destroys(r):
        base = m.pc
        c.never(AND(base, keep), m.ev, "%s of remote content without "
                "--keep-remote" % m.effect, "remote files are deleted although "
                "the user asked to keep them", "keep-remote")
        c.never(AND(base, noret), m.ev, "%s of remote content after a copy"
                % m.effect, "remote files are deleted without having been "
                "copied", "no-retrieve")
        c.never(AND(base, NOT(completed(r, m, [x.ev for x in rt]))), m.ev,
                "%s of remote content after the copy" % m.effect,
                "remote files are deleted before they were copied",
                "removed-first")
        good, left = [], base
        for s in scans:
            if any(x.ev.key in s.done for x in rt) and s.key in m.ev.done:
                snap = s.kw.get("snap", NONE)
                if snap.op != "k":
                    continue
                there = AND(atom(mk("intree", REMOTE, snap, X)),
                            NOT(inutil(X)), NOT(isdir(R(X))))
                # Not a scan that was made before the copy and remembered.
                early = any(t.kw.get("snap") is snap and any(
                    t.key in x.ev.done for x in rt) for t in scans)
                if not early:
                    good.append(s)
                    left = AND(left, there)
        if not c.require(good, m.ev.where(), "the remote directory is scanned "
                         "again before %s" % m.effect,
                         "remote content is deleted without a new scan for "
                         "files that were left behind", "no-rescan", m.ev):
            continue
        f = 1
        for s in good:
            there = AND(atom(mk("intree", REMOTE, s.kw["snap"], X)),
                        NOT(inutil(X)), NOT(isdir(R(X))))
            f = AND(f, there)
        c.never(AND(base, f), m.ev, "no file is left behind at %s" % m.effect,
                "remote content is deleted although files may have been left "
                "behind", "left-behind", X)


def link_target(t, full):
    """[(form, condition)] of a term that stands for where the link at full
    points: "raw", "joined", "norm" (joined, normalised), or "?"."""
    out = []
    for l, cnd in leaves(t):
        n = False
        while l.op in ("norm", "abspath"):
            n, l = True, l.args[0]
        rl = mk("readlink", full)
        if l is rl:
            form = "raw"
        elif l.op == "pjoin" and l.args[-1] is rl and \
                pjoin(*l.args[:-1]) is dirname(full):
            form = "joined"
        elif l.op == "pjoin" and l.args[-1] is rl and \
                pjoin(*l.args[:-1]) in (LOCAL, REMOTE):
            form = "elsewhere"
        else:
            form = "?"
        out.append((form, n, cnd))
    return out


@rule("P13 P10", "reset removes from the local directory nothing but symbolic "
             "links that lead into the remote directory, and all of those")
def reset_removes_links_only(c):
    r, keep, noret = reset(c)
    if r is None:
        return
    rl = mk("readlink", L(X))
    isabs = [a for a in atoms(OR(*[at(r, m, X) for m in r.muts()
                                   if m.loc.region == "LOCAL" and m.loc.comps]))
             if a.op == "os.path.isabs" and a.args[0] is rl]
    D = 0
    evs = []
    for m in r.muts():
        if m.loc.region != "LOCAL" or m.effect in ("mkdir",) or \
                m.ev.name == "transfer_tree":
            continue
        c.require(m.effect == "delete" and m.loc.comps, m.ev.where(),
                  "%s in the local directory" % m.effect,
                  "reset changes the local directory other than by removing "
                  "links", "local-" + m.effect, m.ev)
        if not m.loc.comps:
            continue
        f = at(r, m, X)
        evs.append(m)
        D = OR(D, f)
        c.never(AND(f, NOT(link(L(X)))), m.ev, "only links are removed",
                "reset deletes local files", "delete-file", X)
        good = 0
        for a in atoms(f):
            if a.op != "within" or a.args[1] is not REMOTE:
                continue
            forms = link_target(a.args[0], L(X))
            ok = 1
            for form, normed, cnd in forms:
                if form == "?":
                    c.note("%s: the link's target is computed in a way that "
                           "is not analysed" % m.ev.where())
                    return
                if form == "elsewhere":
                    c.never(AND(f, cnd, NOT(atom(mk("os.path.isabs", rl)))),
                            m.ev, "a relative target counts from the link's "
                            "own directory", "the target of a relative link "
                            "is not taken from the directory that the link "
                            "is in", "link-base", X)
                    continue
                c.require(normed, m.ev.where(), "target of a link is "
                          "normalised", "a link that leads out of the remote "
                          "directory through '..' is taken for one into it",
                          "link-not-normalised", m.ev)
                if form == "raw":
                    # Relative to something else than the link.
                    ab = OR(*[atom(b) for b in list(atoms(cnd)) + isabs
                              if b.op == "os.path.isabs"])
                    ok = AND(ok, IMP(cnd, ab))
            good = OR(good, AND(atom(a), ok))
        c.never(AND(f, NOT(good)), m.ev,
                "only links into the remote directory are removed",
                "reset removes the user's own symbolic links",
                "delete-own-link", X)
    end = end_pc(r)
    if not c.require(evs, "zielen/commands/reset.py", "links are removed",
                     "reset leaves its links in the local directory",
                     "links-kept"):
        return
    # Completeness, from a scan that was made after the copy.
    scans = [e for e in r.events if e.name == "scan_paths" and
             r.c(e.args[0]) is LOCAL]
    seen_ = [a for a in atoms(D) if a.op == "intree" and a.args[0] is LOCAL
             and a.args[2] is X]
    ins = AND(*[atom(a) for a in seen_])
    wi = [a for a in atoms(D) if a.op == "within" and a.args[1] is REMOTE]
    if seen_ and wi:
        c.never(AND(end, ins, link(L(X)), AND(*[atom(a) for a in wi]),
                    NOT(relaxed(D))), evs[0].ev, "every link is removed",
                "reset leaves links into the remote directory behind",
                "links-kept", X)
    for m in retrievals(r):
        stale = [s for s in scans if s.key in m.ev.done and
                 s.kw.get("snap") in [a.args[1] for a in seen_]]
        c.require(not stale, m.ev.where(),
                  "the local directory is scanned after the copy",
                  "reset looks for links in a listing made before the files "
                  "were copied", "stale-local-scan", m.ev)


@rule("P13", "the profile is removed last, and only if everything before "
             "succeeded")
def reset_profile_last(c):
    r, keep, noret = reset(c)
    if r is None:
        return
    rt = retrievals(r)
    pm = removes_profile(r)
    if not c.require(pm, "zielen/commands/reset.py", "the profile is removed",
                     "reset does not remove the profile", "profile-kept"):
        return
    end = end_pc(r)
    d = OR(*[r.canon.b(r.final.done.get(m.ev.key, 0)) for m in pm])
    c.never(AND(end, NOT(relaxed(d))), pm[0].ev, "the profile is removed",
            "reset can succeed without removing the profile", "profile-kept")
    for m in [m for m in r.muts() if m.loc.region == "PROFILE"
              and m.effect in DESTROY]:
        c.never(AND(m.pc, NOT(noret), NOT(completed(r, m, [
            x.ev for x in rt]))), m.ev, "the profile is removed after the copy",
            "the profile is removed before the files were copied back",
            "profile-first")
        c.never(AND(m.pc, r.canon.b(m.ev.done.get("abort", 0))), m.ev,
                "the profile is not removed on failure",
                "the profile is removed although reset failed",
                "profile-on-failure")
        for n in r.muts():
            if n.ev is not m.ev and n.loc.region in (
                    "LOCAL", "REMOTE", "SAFE", "UTIL", "TRASH"):
                c.never(AND(n.pc, r.canon.b(n.ev.done.get(m.ev.key, 0))), n.ev,
                        "%s in %s before the profile is removed" % (
                            n.effect, n.loc.region),
                        "reset goes on working after the profile was removed",
                        "work-after-profile")


# --------------------------------------------------- P28: shared exclude files
def idents(r):
    """Terms for the profile's identity."""
    return lambda t: any(s.op == "jsonval" and s.args[1] is K("ID")
                         for s in subterms(t))


def own_id(t):
    """t stands for this profile's identity: what its info file says, or the
    new identity that init stores there."""
    while t.op in ("tmeth", "pure", "m:strip") and t.op == "tmeth":
        t = t.args[-1] if t.args[-1].op == "res" else t.args[1]
    if t.op == "jsonval" and t.args[1] is K("ID"):
        return any(s.op == "res" and s.args[0] == "open" and any(
            INFO in subterms(a) for a in s.args[1]) for s in subterms(t))
    return any(s.op == "res" and str(s.args[0]).startswith("uuid.")
               for s in subterms(t))


def exclude_copies(r):
    """Writes of files into .zielen/exclude."""
    return [m for m in r.muts() if m.loc.region == "UTIL" and
            len(m.loc.comps) == 2 and m.loc.comps[0] is K("exclude") and
            m.effect in ("write", "move-dst", "link")]


@rule("P28 P09", "sync and init put the profile's exclude patterns into the "
                 "remote directory under the profile's identity, before the "
                 "shared patterns are used")
def exclude_shared(c):
    for name in ("sync", "init"):
        r = c.run(name)
        if r is None or r.final.dead():
            continue
        w = "zielen/commands/%s.py" % name
        cp = exclude_copies(r)
        if not c.require(cp, w, "%s shares the exclude patterns" % name,
                         "%s does not put the exclude patterns into the remote "
                         "directory" % name, "not-shared"):
            continue
        for m in cp:
            a = m.ev.args[0] if m.ev.args else NONE
            if m.ev.name == "open":
                c.note("%s: the patterns are written by hand; what is written "
                       "is not analysed" % m.ev.where())
            else:
                if m.effect == "move-dst":
                    c.note("%s: moved into place" % m.ev.where())
                else:
                    c.require(r.c(a) is EXCL, m.ev.where(),
                              "source of the shared patterns (%s)" % name,
                              "what is put into the remote directory are not "
                              "the profile's own exclude patterns",
                              "shared-source", m.ev)
            c.require(own_id(m.loc.comps[1]), m.ev.where(),
                      "name of the shared patterns (%s)" % name,
                      "the exclude patterns are not stored under the "
                      "profile's own identity", "shared-name", m.ev)
        end = end_pc(r)
        d = OR(*[r.canon.b(r.final.done.get(m.ev.key, 0)) for m in cp])
        c.never(AND(end, NOT(d)), cp[0].ev, "%s always shares the exclude "
                "patterns" % name, "%s can end without putting the current "
                "exclude patterns into the remote directory" % name,
                "share-skipped")
        for e in r.events:
            if e.name not in ("os.scandir", "os.listdir"):
                continue
            if any(l.region == "UTIL" and l.comps == (K("exclude"),)
                   for l, _ in locate(r.c(e.args[0]))):
                d = OR(*[r.canon.b(e.done.get(m.ev.key, 0)) for m in cp])
                c.never(AND(r.pc(e), NOT(d)), e, "the patterns are shared "
                        "before the shared ones are used",
                        "the shared exclude patterns are used before this "
                        "profile's current ones were put there",
                        "share-late")


@rule("P28 P27", "nothing in the directory of shared exclude patterns is "
                 "changed but the profile's own file, which reset removes")
def exclude_own_only(c):
    for name in ("sync", "init", "reset", "empty_trash"):
        r = c.run(name)
        if r is None:
            continue
        for m in r.muts():
            if m.loc.region != "UTIL" or not m.loc.comps or \
                    m.loc.comps[0] is not K("exclude") or m.effect == "mkdir":
                continue
            ok = len(m.loc.comps) == 2 and own_id(m.loc.comps[1])
            c.require(ok, m.ev.where(), "%s of the profile's own patterns (%s)"
                      % (m.effect, name), "%s changes exclude patterns other "
                      "than the profile's own" % name, "foreign-patterns", m.ev)
            if m.effect in DESTROY:
                c.require(name == "reset", m.ev.where(),
                          "patterns are removed by reset only",
                          "%s removes the shared exclude patterns" % name,
                          "patterns-removed", m.ev)
        if name == "reset" and not r.final.dead():
            rm = [m for m in r.muts() if own_exclude(m) and
                  m.effect in DESTROY]
            if not c.require(rm, "zielen/commands/reset.py",
                             "reset removes the shared patterns",
                             "reset leaves the profile's exclude patterns in "
                             "the remote directory", "patterns-kept"):
                continue
            d = OR(*[r.there(r.canon.b(r.final.done.get(m.ev.key, 0)), m.ev)
                     for m in rm])
            # The whole remote content may be gone already.
            allrm = OR(*[r.canon.b(r.final.done.get(m.ev.key, 0))
                         for m in remote_destroys(r) if not m.loc.comps])
            c.never(AND(end_pc(r), NOT(relaxed(OR(d, allrm)))), rm[0].ev,
                    "reset removes the shared patterns",
                    "reset can leave the profile's exclude patterns in the "
                    "remote directory", "patterns-kept")
            for m in removes_profile(r):
                c.never(AND(m.pc, NOT(relaxed(OR(*[
                    r.there(completed(r, m, [x.ev]), x.ev) for x in rm])))),
                    m.ev, "the shared patterns are removed before the profile",
                    "the profile, and with it its identity, is gone before its "
                    "shared exclude patterns are removed", "patterns-late")


# ------------------------------------------------------------------- P14: init
def status_is(name):
    """Atoms for 'the info file says that the status is name'."""
    return lambda a: a.op == "eq" and K(name) in a.args and any(
        t.op == "jsonval" and t.args[1] is K("Status") for t in a.args)


class Init:
    def __init__(self, c):
        self.c = c
        self.r = r = c.run("init")
        if r is None:
            return
        ex, tp, ar = [option_arg(r, "zielen.commands.init", "InitCommand", n,
                                 INITARGS)
                      for n in ("exclude", "template", "add_remote")]
        self.exclude, self.template, self.add_remote = ex, tp, ar
        self.effects = [m for m in r.muts() if m.ev.seq >= 0 and
                        m.loc.region in ("LOCAL", "REMOTE", "SAFE", "UTIL",
                                         "TRASH") and m.effect != "mkdir"]
        allats = set()
        for e in r.events[r.init_events:]:
            allats |= set(atoms(r.pc(e)))
        self.ats = allats
        # The info file was there to be read.
        read = OR(*[r.pc(e) for e in r.events if e.name == "json.load" and
                    any(INFO in subterms(r.c(x)) for x in e.args)])
        vals = {t for a in allats for t in subterms(a)
                if t.op == "jsonval" and t.args[1] is K("Status")}
        self.partial, self.done_before = [AND(read, OR(*[
            eq(K(n), t) for t in vals])) for n in ("partial", "initialized")]
        self.stored = [a for a in allats if a.op in ("idx", "jsonval") and
                       K("add_remote") in a.args]

        keep = set(a for a in atoms(OR(self.partial, self.done_before))
                   if a.op == "exc")
        self.any_exc = lambda f: exists_atoms(
            f, lambda a: a.op == "exc" and a not in keep)

    def end(self):
        r = self.r
        return self.any_exc(r.canon.b(AND(r.final.pc, r.final.ax)))

    def fs(self, kind, path):
        return [a for a in self.ats if a.op == "fs" and
                a.args[0] in kind and path in (
                    a.args[1],) + (a.args[1].args if a.args[1].op == "tup"
                                   else ())]


def init(c):
    k = Init(c)
    if k.r is None or not k.c.require(
            k.effects, "zielen/commands/init.py", "init sets up directories",
            "init changes neither the local nor the remote directory",
            "no-effects"):
        return None
    return k


def given(f, t, v):
    """f if the term t has the value v."""
    return assign(f, {t: v})


def has_term(a, t):
    return any(s is t for s in subterms(a))


BADNAMES = ("", " ", "a b", "a\tb", "a\n", "a/b", "..", ".", "../x", "/x",
            "a\nb", "a:b", "a@b", "a*")
GOODNAMES = ("work", "a-b_1", "X", "x9")


@rule("P14", "init does nothing until the name of the profile has been checked")
def init_checks_name(c):
    k = init(c)
    if k is None:
        return
    r = k.r
    name = mk("arg", "0")
    ms = k.effects + [m for m in r.muts() if m.loc.region == "PROFILE"
                      and m.effect != "mkdir"]
    pc = OR(*[m.pc for m in ms])
    for bad in BADNAMES:
        f = feasible(given(pc, name, K(bad)))
        if f == 0:
            c.ok(ms[0].ev.where(), "name %r is refused" % bad)
            continue
        # What is asked of the name that could not be evaluated?
        open_ = [a for a in atoms(f) if has_term(a, K(bad)) and
                 a.op not in ("indir", "fs", "islink", "kdir", "exc", "within",
                              "cfgkey", "eq", "intree", "indb", "excl")]
        if open_:
            c.note("the check of the name is not understood: %s"
                   % show(open_[0], 5))
            return
        c.require(False, ms[0].ev.where(), "name %r is refused" % bad,
                  "a profile whose name is %r can be initialized" % bad,
                  "bad-name")
        return
    for good in GOODNAMES:
        f = given(pc, name, K(good))
        c.require(f != 0, ms[0].ev.where(), "name %r is accepted" % good,
                  "a profile cannot be named %r" % good, "good-name")


def dir_checks(k, eff, region, path, empty):
    """Obligations: effect happens only if the directory was checked; `empty`
    is the condition under which it has to be empty (or not to exist), and has
    to exist otherwise."""
    c = k.c
    what = "local" if region == "LOCAL" else "remote"
    base = AND(eff.pc, NOT(k.partial))
    ex = k.fs(("exists", "lexists", "isdir", "listdir"), path)
    isd = k.fs(("isdir",), path)
    acc = [a for a in k.fs(("access",), path) if a.args[1].op == "tup" and
           a.args[1].args[1].op == "k" and
           isinstance(kval(a.args[1].args[1]), int) and
           kval(a.args[1].args[1]) & 2]
    exi = [a for a in ex if a.args[0] in ("exists", "lexists")]
    here = AND(*[atom(a) for a in exi]) if exi else OR(*map(atom, isd))
    if not c.require(isd or exi, eff.ev.where(), "the %s directory is checked"
                     % what, "init uses the %s directory without checking it"
                     % what, what + "-unchecked", eff.ev):
        return
    nots = AND(*[NOT(atom(a)) for a in ex])
    c.never(AND(base, NOT(empty), nots), eff.ev,
            "the %s directory has to exist" % what,
            "init goes ahead although the %s directory does not exist" % what,
            what + "-missing")
    c.never(AND(base, here, AND(*[NOT(atom(a)) for a in isd])), eff.ev,
            "the %s directory has to be a directory" % what,
            "init goes ahead although the %s directory is no directory" % what,
            what + "-nodir")
    c.never(AND(base, here, AND(*[NOT(atom(a)) for a in acc])), eff.ev,
            "the %s directory has to be writable" % what,
            "init goes ahead although the %s directory is not writable" % what,
            what + "-access")
    lists = [a.args[2] for a in subatoms(k.ats) if a.op == "indir" and
             a.args[0] is path]
    c.never(AND(base, empty, here,
                AND(*[atom(mk("indir", path, X, s)) for s in set(lists)])),
            eff.ev, "the %s directory has to be empty if files come from the "
            "other side" % what, "init goes ahead although there are files in "
            "both directories", what + "-not-empty", X)


def subatoms(ats):
    out = set()
    for a in ats:
        out.add(a)
        if a.op == "ex":
            out |= subatoms(atoms(a.args[1]))
    return out


@rule("P14", "init changes no file of the user before the options and both "
             "directories have been checked")
def init_checks_directories(c):
    k = init(c)
    if k is None:
        return
    for m in k.effects:
        base = AND(m.pc, NOT(k.partial))
        for opt, t, what in ((k.exclude, "exclude", "--exclude"),
                             (k.template, "template", "--template")):
            files = [a for a in k.ats if a.op == "fs" and a.args[0] in
                     ("isfile",) and truth_of(a.args[1]) == opt]
            c.never(AND(base, opt, AND(*[NOT(atom(a)) for a in files])), m.ev,
                    "the file given with %s exists" % what,
                    "init starts although the file given with %s does not exist"
                    % what, "option-" + t)
        dir_checks(k, m, "LOCAL", LOCAL, k.add_remote)
        dir_checks(k, m, "REMOTE", REMOTE, NOT(k.add_remote))
        c.never(AND(m.pc, k.done_before), m.ev,
                "a profile that is initialized is refused",
                "an initialized profile can be initialized again", "again")
    for m in k.r.muts():
        if m.loc.region == "PROFILE" and m.effect != "mkdir":
            c.never(AND(m.pc, k.done_before), m.ev,
                    "a profile that is initialized is refused",
                    "an initialized profile can be initialized again", "again")


def other_local(k):
    """Terms for the local directory of another profile."""
    out = set()
    for a in subatoms(k.ats):
        for s in subterms(a):
            if s.op == "expanduser" or s.op == "norm" or s.op == "cfgval":
                if any(q.op == "cfgval" and q.args[1] is K("LocalDir") and
                       any(p.op == "profdir" for p in subterms(q.args[0]))
                       for q in subterms(s)):
                    out.add(s)
    # The outermost ones.
    return [t for t in out if not any(t is not o and t in subterms(o)
                                      for o in out)]


def there(f):
    """f for a profile directory that exists, complete with its config."""
    def fn(a):
        if a.op == "indir" and a.args[0].op == "root" and \
                a.args[0].args[0] == "PROFILES":
            return 1
        if a.op == "fs" and any(s.op == "profdir" for s in subterms(a)):
            return 1
        if a.op == "kdir" and a.args[0].op == "profdir":
            return 1
        if a.op == "islink" and a.args[0].op == "profdir":
            return 0
        if a.op in ("cfgkey", "cfgval") and any(
                s.op == "profdir" for s in subterms(a)):
            return 1
        if a.op == "ex":
            b = bmap(a.args[1], fn)
            return b if b <= 1 else exists(a.args[0], b)
        return atom(a)
    return bmap(f, fn)


PROGDIR = "zielen"


@rule("P14", "init changes no file of the user before the local directory was "
             "compared with those of the other profiles and with the program's "
             "own files")
def init_checks_overlap(c):
    k = init(c)
    if k is None:
        return
    ts = other_local(k)
    ev = k.effects[0].ev
    if not c.require(ts, ev.where(), "other profiles are looked at",
                     "init does not compare the local directory with those of "
                     "other profiles", "overlap"):
        return
    pairs = [a for a in subatoms(k.ats) if a.op == "within" and
             any(t in subterms(x) for x in a.args for t in ts)
             and LOCAL in a.args]
    if not pairs:
        c.note("how the local directory is compared with those of other "
               "profiles is not analysed")
        return
    T = {x for a in pairs for x in a.args if x is not LOCAL}
    prog = {x for a in subatoms(k.ats) if a.op == "within" and LOCAL in a.args
            for x in a.args if x is not LOCAL and x not in T and
            x.op == "pjoin" and x.args[-1] is K(PROGDIR)}
    if not c.require(prog, ev.where(), "the program's files are looked at",
                     "init does not compare the local directory with the "
                     "program's own files", "program-overlap"):
        return
    for m in k.effects:
        base = there(AND(m.pc, NOT(k.partial)))
        for t in T:
            for a, b, w in ((LOCAL, t, "inside that of another profile"),
                            (t, LOCAL, "around that of another profile")):
                c.never(AND(base, atom(mk("within", a, b)),
                            NOT(atom(mk("within", b, a)))), m.ev,
                        "a local directory %s is refused" % w,
                        "a local directory %s is accepted" % w, "overlap")
        for t in prog:
            for a, b, w in ((LOCAL, t, "inside the program's own"),
                            (t, LOCAL, "around the program's own")):
                c.never(AND(base, atom(mk("within", a, b)),
                            NOT(atom(mk("within", b, a)))), m.ev,
                        "a local directory %s is refused" % w,
                        "a local directory %s is accepted" % w,
                        "program-overlap")


def handlers(r):
    """{function term: (register events, unregister events, mutations that the
    handler makes)} for functions run when the program exits."""
    out = {}
    I = r.I
    for e in r.events:
        if e.name not in ("atexit.register", "atexit.unregister") or \
                not e.args:
            continue
        fn = e.args[0]
        d = out.setdefault(fn, ([], [], []))
        d[0 if e.name == "atexit.register" else 1].append(e)
    for fn, d in out.items():
        n = len(I.events)
        st = r.final.copy()
        st.pc = st.ax = 1
        try:
            I.call(fn, [], {}, r.prog.dummy, st)
            for q in I.events[n:]:
                d[2].extend(r.mut(q))
        finally:
            del I.events[n:]
    return out


@rule("P14 P02", "an init that fails before the user's files are touched "
                 "leaves no profile, and one that is interrupted later leaves "
                 "it to be resumed")
def init_undone_or_resumed(c):
    k = init(c)
    if k is None or k.r.final.dead():
        return
    r = k.r
    hs = handlers(r)
    dele = {fn: d for fn, d in hs.items() if any(
        m.effect == "rmtree" and m.loc.region == "PROFILE" and not m.loc.comps
        for m in d[2])}
    inline = [m for m in r.muts() if m.effect == "rmtree" and
              m.loc.region == "PROFILE" and not m.loc.comps]
    if inline and not dele:
        c.note("the profile of a failed init is removed in a way that is not "
               "analysed")
        return
    made = [m for m in r.muts() if m.loc.region == "PROFILE" and m.loc.comps
            and m.effect in ("write", "move-dst")]
    if not c.require(dele, "zielen/commands/init.py",
                     "a failed init removes its profile",
                     "nothing removes the profile of an init that failed",
                     "profile-left"):
        return
    reg = [e for d in dele.values() for e in d[0]]
    unreg = [e for d in dele.values() for e in d[1]]

    def armed(e):
        """A handler is registered when e happens."""
        a = OR(*[r.canon.b(e.done.get(x.key, 0)) for x in reg])
        b = OR(*[r.canon.b(e.done.get(x.key, 0)) for x in unreg])
        return AND(a, NOT(b))
    for m in made:
        # Until the profile is given up for removal, it must be armed.
        later = OR(*[r.canon.b(m.ev.done.get(x.key, 0)) for x in unreg])
        c.never(AND(m.pc, NOT(k.partial), NOT(armed(m.ev)), NOT(later)), m.ev,
                "a failed init removes %r" % m.loc,
                "an init that fails after this leaves a profile behind",
                "profile-left")
    for m in k.effects:
        c.never(AND(m.pc, armed(m.ev)), m.ev,
                "an interrupted init can be resumed",
                "the profile is deleted if init is interrupted while the "
                "user's files are being moved", "not-resumable")
    for e in unreg:
        # It is given up only when the checks are over: nothing that refuses
        # the user's input comes later.
        for cls_, val, st in r.raised:
            n = k.c.M.root and cls_
            name = r.I.classes[cls_.args[0]].name if cls_.op == "cls" else ""
            if name != "InputError":
                continue
            f = r.canon.b(AND(st.pc, st.ax, st.done.get(e.key, 0)))
            c.never(AND(f, NOT(k.partial)), e,
                    "input is checked before the profile is kept",
                    "an init that is refused leaves a profile behind",
                    "refused-late")
    for e in reg:
        c.never(AND(r.pc(e), k.partial), e,
                "a resumed init does not remove the profile when it fails",
                "the profile of an interrupted init is deleted if resuming it "
                "fails", "resume-deleted")
        c.never(AND(r.pc(e), k.done_before), e,
                "an initialized profile is never removed",
                "init deletes a profile that is in use", "in-use-deleted")
    for fn, d in hs.items():
        if fn in dele:
            continue
        for m in d[2]:
            c.require(m.effect == "rmdir" and m.loc.region == "PROFILE",
                      m.ev.where(), "handler run at exit",
                      "a handler that runs at exit deletes more than an empty "
                      "profile directory", "exit-handler", m.ev)


def dumped(r, e, key):
    """[(condition, value)] of what a json.dump event writes for a key."""
    coll = e.colls.get(0)
    if coll is None:
        return None
    from . import ext as X_
    f, v = X_.dict_lookup(r.I, coll, K(key), r.final)
    if v is None:
        return []
    return [(r.canon.b(AND(f, cnd)), r.c(l)) for l, cnd in leaves(r.c(v))]


def saves(r):
    """[(json.dump event, event that makes it durable)] for the info file."""
    out = []
    muts = [m for m in r.muts() if m.loc.region == "PROFILE" and
            m.loc.comps == (K("info.json"),) and
            m.effect in ("move-dst", "write")]
    for d in r.events:
        if d.name != "json.dump":
            continue
        for m in muts:
            if m.effect == "move-dst" and d.key in m.ev.done:
                out.append((d, m.ev))
                break
            if m.effect == "write" and m.ev.key in d.done:
                out.append((d, d))
    return out


@rule("P02 P14", "init records that it is unfinished before it touches the "
                 "user's files, and that it is finished only after everything "
                 "else")
def init_status(c):
    k = init(c)
    if k is None or k.r.final.dead():
        return
    r = k.r
    sv = saves(r)
    w = "zielen/commands/init.py"
    if not c.require(sv, w, "init writes the info file",
                     "init does not record its state", "no-info"):
        return
    val = {}
    for d, s in sv:
        v = dumped(r, d, "Status")
        if v is None:
            c.note("%s: what is written to the info file is not known"
                   % d.where())
            return
        val[d.key] = v
    early_ = [(d, s) for d, s in sv if any(
        x is K("partial") for _, x in val[d.key])]
    late_ = [(d, s) for d, s in sv if any(
        x is K("initialized") for _, x in val[d.key])]
    if not c.require(early_, w, "init records that it is unfinished",
                     "an interrupted init is not recognised", "no-partial"):
        return
    if not c.require(late_, w, "init records that it is finished",
                     "init never records that it is finished", "no-final"):
        return
    part = []
    for d, s in early_:
        f = OR(*[cnd for cnd, x in val[d.key] if x is K("partial")])
        part.append((s, f))
    for m in k.effects + [x for x in r.muts() if x.loc.region == "REMOTE"
                          and x.effect != "mkdir"]:
        d = OR(*[AND(r.canon.b(m.ev.done.get(s.key, 0)), f) for s, f in part])
        c.never(AND(m.pc, NOT(k.partial), NOT(k.any_exc(d))), m.ev,
                "%s in %s after the info file says that init is unfinished"
                % (m.effect, m.loc.region),
                "the user's files are touched before init is recorded as "
                "unfinished", "partial-late")
    for d, s in late_:
        fin = OR(*[cnd for cnd, x in val[d.key] if x is K("initialized")])
        for m in k.effects:
            c.never(AND(m.pc, k.any_exc(r.canon.b(m.ev.done.get(s.key, 0))),
                        k.any_exc(fin)), m.ev,
                    "%s in %s before init is recorded as finished"
                    % (m.effect, m.loc.region),
                    "init is recorded as finished before everything is in "
                    "place", "final-early")
        for e in r.events:
            if e.name in DBW or e.name == "db.commit" and \
                    r.c(e.args[0]) is RDB:
                c.never(AND(r.pc(e), r.canon.b(e.done.get(s.key, 0)),
                            k.any_exc(fin)), e, "%s before init is recorded "
                        "as finished" % e.name, "init is recorded as finished "
                        "before everything is in place", "final-early")
        c.never(AND(r.pc(s), r.canon.b(s.done.get("abort", 0)), fin), s,
                "init is not recorded as finished on failure",
                "an init that failed is recorded as finished", "final-failed")
    end = k.end()
    d = OR(*[AND(r.canon.b(r.final.done.get(s.key, 0)),
                 OR(*[cnd for cnd, x in val[d.key] if x is K("initialized")]))
             for d, s in late_])
    c.never(AND(end, NOT(k.any_exc(d))), late_[0][1],
            "a successful init is recorded as finished",
            "init can succeed without being recorded as finished",
            "final-missing")
    # Both databases and the time of the sync are recorded as well.
    for what, p in (("the profile's database", PDB),
                    ("the remote database", RDB)):
        cm = [e for e in r.events if e.name == "db.commit" and
              r.c(e.args[0]) is p]
        d = OR(*[r.canon.b(r.final.done.get(e.key, 0)) for e in cm])
        c.never(AND(end, NOT(k.any_exc(d))), late_[0][1], "%s is saved" % what,
                "init can succeed without saving %s" % what, "not-saved")


@rule("P14 P10", "init puts every local file that is not excluded into the remote "
             "directory, or links every remote file, and replaces no file of "
             "the user with a link")
def init_result(c):
    k = init(c)
    if k is None or k.r.final.dead():
        return
    r = k.r
    end = k.end()
    w = "zielen/commands/init.py"
    ups = [m for m in r.muts() if m.effect == "transfer" and
           m.loc.region in ("SAFE", "REMOTE") and r.c(m.ev.args[0]) is LOCAL]
    lns = [m for m in r.muts() if m.effect == "symlink-tree" and
           m.loc.region == "LOCAL"]
    if not c.require(ups, w, "local files are copied to the remote directory",
                     "init does not copy local files to the remote directory",
                     "no-upload") or \
            not c.require(lns, w, "remote files are linked locally",
                          "init does not link remote files locally", "no-links"):
        return
    st = OR(*[atom(a) for a in k.stored])
    frm = OR(AND(NOT(k.partial), k.add_remote), AND(k.partial, st))
    du = OR(*[r.canon.b(r.final.done.get(m.ev.key, 0)) for m in ups])
    dl = OR(*[r.canon.b(r.final.done.get(m.ev.key, 0)) for m in lns])
    c.never(AND(end, NOT(frm), NOT(k.any_exc(du))), ups[0].ev,
            "local files are copied to the remote directory",
            "init can succeed without copying the local files to the remote "
            "directory", "upload-skipped")
    c.never(AND(end, NOT(k.any_exc(dl))), lns[0].ev,
            "remote files are linked", "init can succeed without linking the "
            "remote files", "links-skipped")
    for m in ups:
        src = m.ev
        c.never(AND(m.pc, frm), m.ev,
                "no local file is copied with --add-remote",
                "local files are copied to a remote directory that is to be "
                "added as it is", "upload-into-existing")
        c.require(m.ev.kw.get("rm_source", KFALSE) is KFALSE, m.ev.where(),
                  "local files stay until they are replaced with links",
                  "init removes local files while it copies them", "rm-source",
                  m.ev)
        f = 1
        if m.ev.kw.get("files", NONE) is not NONE:
            f = files_arg(r, m.ev, "files", X)
        g = files_arg(r, m.ev, "exclude", X)
        if f is None or g is None:
            c.note("the set of files that init copies is not known")
            continue
        c.never(AND(k.any_exc(m.pc), inL(X), NOT(excl(X)), NOT(unsafe(X)),
                    OR(NOT(f), g)), m.ev,
                "every local file is copied",
                "init does not copy every local file that is not excluded",
                "upload-missed", X)
        c.never(AND(k.any_exc(m.pc), inL(X), OR(excl(X), unsafe(X)), f, NOT(g)),
                m.ev, "no excluded file is copied",
                "init copies excluded files or links that lead out of the "
                "directory", "upload-excluded", X)
    for m in lns:
        sf, sd = (files_arg(r, m.ev, n, X) for n in ("files", "dirs"))
        c.require(all(l.region in ("REMOTE",) and not l.comps for l, _ in
                      locate(r.c(m.ev.args[0]))), m.ev.where(),
                  "links lead into the remote directory",
                  "init makes links that do not lead to the remote files",
                  "link-source", m.ev)
        if sf is None or sd is None:
            c.note("the set of files that init links is not known")
            continue
        # Neither database has entries before init has finished, so that
        # paths are entered as what init says they are.
        flag = entered_dirs(r, m.ev)
        sf, sd, base = [cofactor_known(set_flag(f, flag)) for f in
                        (sf, sd, k.any_exc(m.pc))]
        ow = truth_of(m.ev.kw.get("overwrite", KFALSE))
        up = OR(*[r.canon.b(m.ev.done.get(u.ev.key, 0)) for u in ups])
        c.never(AND(base, ow, sf, NOT(k.any_exc(up)), inL(X), NOT(link(L(X))),
                    NOT(isdir(L(X)))), m.ev,
                "no local file is replaced with a link",
                "init replaces files of the user with links to other files",
                "file-replaced", X)
        snaps = {a.args[1] for a in atoms(OR(sf, sd)) if a.op == "intree"
                 and a.args[0] is REMOTE}
        if len(snaps) != 1:
            c.note("%s: the files to link come from several scans"
                   % m.ev.where())
            continue
        here = AND(atom(mk("intree", REMOTE, snaps.pop(), X)), NOT(inutil(X)))
        bad = AND(here, NOT(OR(unsafe(X), unsafe(X, REMOTE))), NOT(inL(X)))
        c.never(AND(base, bad, NOT(isdir(R(X))), NOT(sf)), m.ev,
                "every remote file is linked",
                "init does not link every remote file", "link-missed", X)
        c.never(AND(base, bad, isdir(R(X)), NOT(sd)), m.ev,
                "every remote directory is made",
                "init does not make every remote directory", "dir-missed", X)
        c.never(AND(base, NOT(isdir(R(X))), here, sd), m.ev,
                "only directories are made as directories",
                "init makes directories in place of remote files",
                "link-kind", X)
        c.never(AND(base, NOT(k.any_exc(up)), here, NOT(isdir(R(X))),
                    unsafe(X, REMOTE), sf), m.ev,
                "no links that lead out of the remote directory are linked",
                "init links to symbolic links that lead out of the remote "
                "directory", "unsafe-linked", X)
        c.never(AND(base, isdir(R(X)), here, sf), m.ev,
                "only files are linked", "init makes links in place of remote "
                "directories", "link-kind", X)


def entered_dirs(r, ev):
    """Condition under which X is entered in the profile's database as a
    directory before ev, or None."""
    out = 0
    for e in r.events:
        if e.name == "db.add_paths" and r.c(e.args[0]) is PDB and \
                e.key in ev.done:
            d = files_arg(r, e, "dirs", X)
            if d is None:
                return None
            out = OR(out, AND(r.canon.b(ev.done[e.key]), d))
    return exists_atoms(out, lambda a: a.op == "exc")


def set_flag(f, flag):
    if flag is None:
        return f
    m = {a for a in subatoms(atoms(f)) if a.op == "pattr" and
         a.args[-1] is K("directory") and a.args[0].op == "pdata" and
         PDB in a.args[0].args and X in a.args[0].args}
    return assign(f, {a: vbool(flag) for a in m})


def cofactor_known(f):
    """f with databases that had no entries at first."""
    def fn(a):
        if a.op == "indb":
            return 0
        if a.op == "ex":
            b = bmap(a.args[1], fn)
            return exists(a.args[0], b) if b > 1 else b
        return atom(a)
    return bmap(f, fn)
