"""Foreseeable failures of single operations are dealt with where they occur:
what is not a file, what is gone already, what is there already, a size of
zero, a database that is busy."""
from .terms import *
from .terms import T
from . import ext as E
from .model import *
from .model import definite, feasible, fresh_names
from .vocab import *
from .check import rule
from .rules_sync import sync, early, late, trashings, renames, DESTROY
from . import rules_body as RB

NOT_A_FILE = "IsADirectoryError"
GONE = "FileNotFoundError"
THERE = "FileExistsError"


def covered(r, e, cls):
    """The exception of the operation is caught somewhere."""
    x = mk("ext", cls)
    return any(r.I.exc_match(x, h) for h in e.handlers)


def kind_known(f):
    """f depends on what a database says the path is."""
    return any(a.op == "pattr" and a.args[1:] == (K("directory"),) or
               a.op in ("top", "havoc", "unknown") for a in atoms(f))


def plain_removals(r, *regions):
    """[(mutation, path term)] of calls that only remove files."""
    out = []
    for m in r.muts():
        if m.ev.name in ("os.remove", "os.unlink", ".unlink", "os.replace") \
                and m.effect in DESTROY and m.loc.region in regions and \
                m.loc.comps and m.ev.name != "os.replace":
            out.append((m, r.c(m.ev.args[0])))
    return out


def directories(c, r, muts, what, ident):
    for m, p in muts:
        w = "%s: directories" % what
        if covered(r, m.ev, NOT_A_FILE):
            c.ok(m.ev.where(), w)
            continue
        f = AND(m.pc, isdir(p))
        for l, _ in locate(p):
            if l.term is not None and l.term is not p:
                f = AND(f, isdir(l.term))
        if kind_known(f):
            c.note("%s: whether only files are removed is not known"
                   % m.ev.where())
            continue
        c.never(f, m.ev, w, "%s: a directory is removed like a file, which "
                "ends the command with an error" % what, ident)


@rule("P04 P05", "directories that were deleted on one side can be deleted on "
                 "the other")
def removes_directories(c):
    r, S = sync(c)
    if r is None:
        return
    late_ = {id(m) for m, f in late(r, "LOCAL")}
    for region in (("LOCAL",), ("REMOTE", "SAFE")):
        if (c.pid == "P04") != (region[0] == "LOCAL"):
            continue
        directories(c, r, [(m, p) for m, p in plain_removals(r, *region)
                           if id(m) not in late_],
                    "sync", "dir-like-file")


@rule("P23", "directories that are not to be held locally can be removed")
def evicts_directories(c):
    r, S = sync(c)
    if r is None:
        return
    lt_ = late(r, "LOCAL")
    ms = [m for m, f in lt_]
    directories(c, r, [(m, p) for m, p in plain_removals(r, "LOCAL")
                       if any(m.ev is x.ev for x in ms)], "eviction",
                "evict-dir-like-file")
    for m, f in lt_:
        if m.ev.name == "os.rmdir" and not any(
                a.op in ("listed", "emptydir") for a in atoms(m.pc)):
            c.require(covered(r, m.ev, "OSError"), m.ev.where(),
                      "directories that are not empty stay",
                      "a directory that still has links in it ends the sync "
                      "with an error", "rmdir-not-empty", m.ev)


@rule("P08", "directories in the trash can be deleted")
def trash_directories(c):
    for n in ("sync", "empty_trash"):
        r = c.run(n)
        if r is not None:
            directories(c, r, plain_removals(r, "TRASH"), n,
                        "trash-dir-like-file")


@rule("P13 P05 P08", "files can be deleted where directories can")
def removes_files(c):
    for n, regions, pid in (
            ("reset", ("REMOTE", "SAFE"), "P13"),
            ("sync", ("REMOTE", "SAFE"), "P05"),
            ("sync", ("TRASH",), "P08"), ("empty_trash", ("TRASH",), "P08")):
        r = c.run(n) if c.pid == pid else None
        if r is None:
            continue
        for m in r.muts():
            if m.effect != "rmtree" or m.loc.region not in regions or \
                    not m.loc.comps or m.ev.name != "shutil.rmtree":
                continue
            w = "%s: files" % n
            ig = m.ev.arg(1, "ignore_errors")
            tried = any(a.op == "exc" and a.args[1] in (
                "os.remove", "os.unlink", ".unlink") for a in atoms(m.pc))
            if tried or covered(r, m.ev, "NotADirectoryError") or \
                    m.ev.kw.get("onerror") is not None or \
                    ig is not None and not (is_k(ig) and not kval(ig)):
                c.ok(m.ev.where(), w)
                continue
            p = r.c(m.ev.args[0])
            f = AND(m.pc, NOT(isdir(p)))
            for l, _ in locate(p):
                if l.term is not None and l.term is not p:
                    f = AND(f, NOT(isdir(l.term)))
            if kind_known(f):
                c.note("%s: whether only directories are removed is not known"
                       % m.ev.where())
                continue
            c.never(f, m.ev, w, "%s: a file is removed like a directory, which "
                    "ends the command with an error" % n, "file-like-dir")


@rule("P12 P13", "directories can be moved by a transfer")
def moves_directories(c):
    for t in RB.transfers(c):
        directories(c, t.r, [(m, p) for m, p in plain_removals(t.r, "SRC")],
                    "transfer_tree", "move-dir-like-file")


@rule("P02 P22", "files that are gone already do not keep a sync from "
                 "finishing")
def gone_already(c):
    r, S = sync(c)
    if r is None:
        return
    todo = [(m, f, inL(X), L(X)) for m, f in early(r, "LOCAL") +
            late(r, "LOCAL")]
    for reg in ("REMOTE", "SAFE"):
        todo += [(m, f, inR(X), R(X)) for m, f in early(r, reg)
                 + late(r, reg)]
    todo += [(a, exists_atoms(at(r, a, X), lambda y: y.op in (
        "loopadd", "looprm", "top", "topzip", "havoc")), inR(X), R(X))
        for a, b in trashings(r)]
    for m, f, seen, p in todo:
        if m.ev.name not in ("os.remove", "os.unlink", "os.rename",
                             "os.rmdir", "shutil.move"):
            continue
        w = "%s: files that are gone" % m.ev.name
        if covered(r, m.ev, GONE):
            c.ok(m.ev.where(), w)
            continue
        g = AND(f, OR(NOT(seen), *[
            at(r, a, X) for a, b in renames(r, "LOCAL")
            if p is L(X) and a.ev.seq < m.ev.seq]))
        if tested(r, m.ev):
            c.ok(m.ev.where(), w)
            continue
        c.never(g, m.ev, w, "a file that is gone already, as after an "
                "interrupted sync, ends every further sync with an error",
                "gone-already", X)


@rule("P05 P07", "a trash directory that exists is used")
def trash_there(c):
    r, S = sync(c)
    if r is None:
        return
    for e in r.events:
        if e.name not in ("os.mkdir", "os.makedirs") or not any(
                l.region == "TRASH" and not l.comps
                for l, _ in locate(r.c(e.args[0]))):
            continue
        if e.name == "os.makedirs" and const_true(e.kw.get("exist_ok")):
            c.ok(e.where(), "an existing trash directory is used")
            continue
        if covered(r, e, THERE) or guarded(r, e, e.args[0]):
            c.ok(e.where(), "an existing trash directory is used")
            continue
        c.bad(e.where(), "an existing trash directory is used",
              "a trash directory that exists already ends the sync with an "
              "error", "trash-exists", e.path())


def tested(r, e):
    """The condition of the event has a test whether its path is there."""
    ps = {r.c(a) for a in e.args if isinstance(a, T)}
    ps |= {l.term for p in ps for l, _ in locate(p) if l.term is not None}
    return any(a.op == "fs" and a.args[0] in (
        "exists", "lexists", "isfile", "isdir") and a.args[1] in ps
        for a in atoms(r.pc(e)))


def const_true(t):
    return t is not None and t.op == "k" and bool(kval(t))


def guarded(r, e, p):
    """The condition of the event depends on a test of the path itself."""
    p = r.c(p)
    return any(a.op in ("fs", "kdir", "islink") and p in a.args
               for a in atoms(r.pc(e)))


@rule("P12 P03 P13 P14", "files can be named in what is to be transferred")
def transfer_files(c):
    for t in RB.transfers(c):
        if t.whole:
            continue
        r = t.r
        for e in r.events:
            if e.name not in ("scan_tree", "os.scandir", "os.listdir"):
                continue
            p = r.c(e.args[0])
            if p is SRC:
                continue
            if covered(r, e, "NotADirectoryError"):
                c.ok(e.where(), "files are not scanned")
                continue
            c.never(AND(r.pc(e), NOT(link(p)), NOT(kdir(p))), e,
                    "files are not scanned", "the transfer of a file ends "
                    "with an error, as it is taken for a directory",
                    "scan-file")


@rule("P09", "patterns may match files")
def patterns_match_files(c):
    from . import rules_prof as RP
    r = c.run(RP.pattern_run, "ProfileExcludeFile")
    if r is None:
        return
    for e in r.events:
        if e.name not in ("scan_tree", "os.scandir", "os.listdir"):
            continue
        if covered(r, e, "NotADirectoryError"):
            c.ok(e.where(), "matched files are not scanned")
            continue
        p = r.c(e.args[0])
        c.never(AND(r.pc(e), NOT(link(p)), NOT(kdir(p))), e,
                "matched files are not scanned",
                "a pattern that matches a file ends the command with an error",
                "scan-file")


def sizes(t):
    return any(s.op in ("stat", "sum") for s in subterms(t))


@rule("P26 P12", "files without content are selected and transferred like "
                 "others")
def empty_files(c):
    from . import rules_sel as RS
    runs = []
    if c.pid == "P26":
        for n in ("prioritize_files", "prioritize_dirs"):
            runs.append(c.run(lambda M: RS.selection_run(M, n),
                              "FilesManager." + n))
    else:
        for whole in (False, True):
            runs.append(c.run(RB.transfer_body_of(whole), "transfer_tree"))
    for r in runs:
        if r is None:
            continue
        for kind, m, node, t, fn, cond, stack in r.I.problems:
            if kind != "div" or not isinstance(t, T):
                continue
            w = "%s:%d in %s" % (m.relpath, getattr(node, "lineno", 0), fn)
            f = r.canon.b(cond) if isinstance(cond, int) else 1
            d = r.c(t)
            if any(d is s or t is s for a in list(atoms(f)) + (
                    list(atoms(cond)) if isinstance(cond, int) else [])
                    for s in subterms(a)):
                c.ok(w, "the size is tested before it is divided by")
                continue
            if has_op_(d, ("top", "unknown", "havoc")):
                c.note("%s: whether the divisor can be zero is not known" % w)
                continue
            c.bad(w, "empty files are no error",
                  "a file or directory that takes up no space leads to a "
                  "division by zero", "zero-size")
        c.ok(r.name, "divisions by sizes")


def has_op_(t, ops):
    return any(s.op in ops for s in subterms(t))


@rule("P14 P20", "a directory that may not be created is reported")
def directory_denied(c):
    r = c.run(lambda M: fstool_body(M, "check_dir", mk("root", "SRC"),
                                    mk("arg", "expect_empty")), "check_dir")
    if r is None:
        return
    for e in r.events:
        if e.name in ("os.makedirs", "os.mkdir") and e.args and \
                r.c(e.args[0]) is SRC:
            c.require(covered(r, e, "PermissionError") or any(
                a.op == "fs" and a.args[0] == "access"
                for a in atoms(r.pc(e))), e.where(),
                "missing permissions are reported",
                "missing permissions for a new directory lead to a traceback",
                "permission-unhandled", e)


@rule("P20 P15", "a configuration file that cannot be read is reported")
def unreadable_config(c):
    from .rules_life import program_error
    from . import rules_conf as RC
    for name in ("read", "write"):
        r = c.run(lambda M: RC.conf_run(
            M, name, RC.prims_without("read") if name == "read" else
            RC.PRIMS, [mk("arg", "template")] * (name == "write")), name)
        if r is None:
            continue
        for e in r.events:
            if e.name in ("open", "io.open", ".open"):
                c.require(covered(r, e, GONE) and
                          covered(r, e, "PermissionError"), e.where(),
                          "%s: errors are reported" % name,
                          "a configuration file that cannot be opened leads "
                          "to a traceback", "config-unreadable", e)


@rule("P19", "the daemon goes on while a sync keeps the database busy")
def daemon_busy(c):
    from . import rules_db as RD
    from .rules_daemon import Daemon
    d = Daemon(c)
    if not d.ok:
        return
    r = d.r
    made, opened, body, init, rr = RD.scripts(c.M, "profile")
    wal = any(a[0] == "pragma" and str(a[1]).lower() == "journal_mode" and
              str(a[2]).lower() == "wal" for e, a in made + opened)
    for e in r.events:
        if not e.name.startswith("db.") or not e.loops or \
                e.loops[0][0] != d.loop:
            continue
        read = e.name in ("db.get_paths", "db.get_path_info")
        if read and wal:
            c.ok(e.where(), "reading does not wait for writers")
            continue
        c.require(covered(r, e, "sqlite3.OperationalError"), e.where(),
                  "%s of a busy database" % e.name,
                  "a database that a sync keeps busy ends the daemon, and all "
                  "uses from then on are lost", "busy-ends-daemon", e)


@rule("P14 P02", "the files of an interrupted init are used by the next one")
def created_already(c):
    r = c.run("init")
    if r is None:
        return
    for e in r.events:
        if e.name != "db.create":
            continue
        c.require(covered(r, e, THERE) or tested(r, e), e.where(),
            "a database that exists is used",
            "the database of an interrupted init ends the next one with an "
            "error", "db-exists", e)


@rule("P23 P14", "what exists in the local directory does not keep it from "
                 "being linked")
def linked_already(c):
    r = c.run(symlink_body, "symlink_tree")
    if r is None:
        return
    for e in r.events:
        if e.name not in ("os.mkdir", "os.symlink"):
            continue
        p = r.c(e.args[-1])
        ok = covered(r, e, THERE) or guarded(r, e, e.args[-1]) or any(
            x.seq < e.seq and x.name in ("os.remove", "os.unlink") and
            r.c(x.args[0]) is p for x in r.events)
        c.require(ok, e.where(), "%s of what exists" % e.name,
                  "a path that exists already ends the command with an error",
                  "link-exists", e)


@rule("P20 P14", "what is done when init ends does not fail")
def quiet_exit(c):
    from .rules_life import handlers
    r = c.run("init")
    if r is None or r.final is None or r.final.dead():
        return
    for fn, d in handlers(r).items():
        for m in d[2]:
            if m.effect != "rmdir" or m.ev.name != "os.rmdir":
                continue
            if any(a.op in ("fs", "ex", "indir", "listed") for a in
                   atoms(m.ev.pc)):
                c.ok(m.ev.where(), "directories that are not empty stay")
                continue
            c.require(covered(r, m.ev, "OSError"), m.ev.where(),
                      "directories that are not empty stay",
                      "removing the directory of a profile that is in use "
                      "leads to a traceback after every init",
                      "exit-rmdir", m.ev)


@rule("P20 P08 P04 P05", "a deletion or a move that fails for another reason "
      "than that the file is gone or of another kind ends the operation")
def failures_passed_over(c):
    for name in ("sync", "reset", "init", "empty_trash"):
        r = c.run(name)
        if r is None or r.final.dead():
            continue
        muts = list(r.muts())
        then = [(m.ev, m.pc) for m in muts]
        then += [(None, r.canon.b(AND(st.pc, st.ax)))
                 for cls, _, st in r.raised]
        seen = set()
        for m in muts:
            e = m.ev
            if e.key in seen or m.effect not in ("delete", "move-src") or \
                    m.loc.region not in ("LOCAL", "REMOTE", "SAFE", "TRASH") \
                    or not m.loc.comps or \
                    e.name not in ("os.remove", "os.unlink", "os.rename",
                                   "os.replace", "shutil.move"):
                continue
            seen.add(e.key)
            x = mk("ext", "PermissionError")
            if not any(r.I.exc_match(x, h) for h in e.handlers):
                c.ok(e.where(), "%s: errors are passed on" % name)
                continue
            xs = {v for l in e.loops for v in l[1]}
            used = any(
                AND(cofactor(f, a, True), NOT(cofactor(f, a, False))) != 0
                for v, f in then if v is not e for a in atoms(f)
                if a.op == "exc" and a.args[1] == e.name and
                set(a.args[3:]) == xs and
                r.I.exc_match(x, mk("ext", a.args[0])))
            c.require(used, e.where(), "%s: an error has consequences" % name,
                      "a file that cannot be deleted or moved is passed over "
                      "in silence", "failure-passed-over", e)
