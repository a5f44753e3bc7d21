"""Bodies of the primitives: copying, linking, scanning, the path database."""
from .terms import *
from .model import *
from .vocab import *
from .interp import HInst, HColl, V0
from .check import rule

Y = var("Y")
FT = "zielen/fstools.py"


def inarg(name, x):
    return atom(mk("in", name, x))


def forget_exc(f):
    return exists_atoms(f, lambda a: a.op == "exc")


def strange(t):
    return any(s.op in UNKNOWN for s in subterms(t))


def strange_f(f):
    return any(strange(a) for a in atoms(f))


def bind(r, m, xs):
    """Condition of the mutation m for the path made of the components xs, or
    0 if it is about paths of another shape."""
    cs = m.loc.comps
    if len(cs) != len(xs) or not all(
            c.op == "var" and c in m.xs for c in cs) or \
            len(set(cs)) != len(cs):
        return 0
    f = bsubst(m.pc, dict(zip(cs, xs)))
    vs = [v for v in m.xs if v not in cs and v in bfv(f)]
    return exists(vs, f) if vs else f


class Transfer:
    def __init__(self, c, whole):
        self.c, self.whole = c, whole
        self.r = r = c.run(transfer_body_of(whole), "transfer_tree")
        self.ok = False
        if r is None or r.final is None:
            return
        self.muts = r.muts()
        self.copies = [e for e in r.events if e.name in COPIES and
                       e.args and locs(r, e.args[0], "SRC")]
        self.dst = [m for m in self.muts if m.loc.region == "DST"]
        self.src = [m for m in self.muts if m.loc.region == "SRC"]
        if not c.require(self.copies, FT, "transfer_tree copies files",
                         "transfer_tree copies nothing", "no-copy"):
            return
        for e in self.copies:
            if any(strange(l.term) for l in locs(r, e.args[0], "SRC")):
                c.note("%s: what is copied could not be analysed" % e.where())
                return
        ats = set()
        for m in self.muts:
            ats |= set(atoms(m.pc))
        if whole:
            self.shapes = [(X,)]
            self.snaps = {a.args[1] for a in ats if a.op == "intree" and
                          a.args[0] is SRC}
        else:
            self.shapes = [(X,), (X, Y)]
            self.snaps = {a.args[1] for a in ats if a.op == "intree" and
                          a.args[0].op == "pjoin" and a.args[0].args[0] is SRC}
        if len(self.snaps) != 1:
            if any(strange(a) for a in ats) or self.snaps:
                c.note("transfer_tree: how directories are walked could not "
                       "be analysed")
                return
            c.require(False, FT, "contents of directories are copied",
                      "transfer_tree does not copy what is in a directory",
                      "no-contents")
            return
        self.snap = self.snaps.pop()
        self.ok = True

    def selected(self, xs, walked=False):
        """The path is one that the caller asked for."""
        if self.whole:
            return atom(mk("intree", SRC, self.snap, xs[0]))
        f = AND(inarg("files", X), self.lexists(X))
        if len(xs) > 1:
            f = AND(f, NOT(link(pjoin(SRC, X))), atom(mk(
                "intree", pjoin(SRC, X), self.snap, Y)))
            if not walked:
                f = AND(f, kdir(pjoin(SRC, X)))
        return f

    def lexists(self, x):
        """The path exists, be it a link that leads nowhere."""
        p = pjoin(SRC, x)
        ats = self.exists_atoms(p)
        lex = [atom(a) for a in ats if a.args[0] == "lexists"]
        ex = [atom(a) for a in ats if a.args[0] == "exists"]
        return OR(*lex) if lex else OR(link(p), *ex) if ex else 1

    def exists_atoms(self, p):
        if not hasattr(self, "_ex"):
            self._ex = set()
            for m in self.muts:
                for a in atoms(m.pc):
                    if a.op == "fs" and a.args[0] in ("lexists", "exists") \
                            and a.args[1].op == "pjoin" and \
                            a.args[1].args[0] is SRC:
                        self._ex.add((a, a.args[1]))
        return {subst(a, dict(zip(q.args[1:], p.args[1:])))
                for a, q in self._ex if len(q.args) == len(p.args) and
                all(x.op == "var" for x in q.args[1:])}


COPIES = {"shutil.copy2", "shutil.copy", "shutil.copyfile", "shutil.copytree",
          "shutil.move", "os.rename", "os.replace", "os.link", "os.renames"}


def locs(r, t, region):
    return [l for l, _ in locate(r.c(t)) if l.region == region]


def transfer_body_of(whole):
    return lambda M: transfer_body(M, whole)


def transfers(c):
    for whole in (False, True):
        t = Transfer(c, whole)
        if t.ok:
            yield t


def base_of(t):
    """Transfers from a directory that exists."""
    out = 1
    for m in t.muts:
        for a in atoms(m.pc):
            if a.op == "fs" and a.args[0] in ("exists", "isdir", "lexists") \
                    and a.args[1] is SRC:
                out = AND(out, atom(a))
    return out


def kind(p, d):
    return AND(NOT(link(p)), kdir(p)) if d else OR(link(p), NOT(kdir(p)))


@rule("P12 P03 P13 P14", "a transfer places every selected file, and whatever "
      "is in a selected directory, unless it is left out on request")
def transfer_complete(c):
    for t in transfers(c):
        r = t.r
        ev = t.copies[0]
        put = [m for m in t.dst if m.effect in ("move-dst", "write", "link")]
        dirs = [m for m in t.dst if m.effect == "mkdir"]
        for xs in t.shapes:
            p = pjoin(SRC, *xs)
            rel = pjoin(*xs) if len(xs) > 1 else xs[0]
            sel = AND(base_of(t), t.selected(xs), NOT(inarg("exclude", rel)))
            fs = forget_exc(OR(*[bind(r, m, xs) for m in put]))
            ds = forget_exc(OR(*[bind(r, m, xs) for m in dirs]))
            c.never(AND(sel, kind(p, 0), NOT(fs)), ev,
                    "every selected file is copied",
                    "a file that was selected is not copied", "not-copied", X)
            c.never(AND(sel, kind(p, 1), NOT(OR(ds, fs))), ev,
                    "every selected directory is made",
                    "a directory that was selected is not made", "not-made", X)
            c.never(AND(OR(fs, ds), inarg("exclude", rel)), ev,
                    "what is left out on request is not copied",
                    "a path that was to be left out is copied", "left-out", X)
            unsel = AND(OR(fs, ds), NOT(t.selected(xs, True)))
            if len(xs) > 1:
                # What is in a directory that is a link, is P10's.
                unsel = AND(unsel, NOT(link(pjoin(SRC, X))))
            c.never(unsel, ev, "nothing else is copied",
                    "a path that was not selected is copied", "not-selected",
                    X)
            if not t.whole and len(xs) == 1:
                # Missing files are ignored.
                caught = any(a.op == "exc" and a.args[0] ==
                             "FileNotFoundError" for e in t.copies
                             for a in atoms(r.pc(e)))
                if not caught:
                    c.never(AND(fs, *[NOT(atom(a)) for a in t.exists_atoms(p)]),
                            ev, "missing files are ignored",
                            "a file that does not exist ends the transfer",
                            "missing", X)
                    c.require(t.exists_atoms(p), ev.where(), "missing files "
                              "are ignored", "a file that does not exist ends "
                              "the transfer", "missing")


@rule("P12 P02", "a transfer replaces a file only in one step, by a complete "
                 "copy, and removes a source only afterwards")
def transfer_atomic(c):
    for t in transfers(c):
        r = t.r
        final = [m for m in t.dst if m.effect in ("move-dst", "write", "link")
                 and all(x.op == "var" for x in m.loc.comps)]
        for m in t.dst:
            what = "%s of %s" % (m.effect, m.loc.region)
            where = m.ev.where()
            plain = bool(m.loc.comps) and all(x.op == "var" for x in
                                              m.loc.comps)
            if strange(m.loc.term) and not plain and not temporary(m):
                c.note("%s: the destination could not be analysed" % where)
                continue
            if m.effect in ("delete", "rmtree", "move-src", "rmdir"):
                c.require(temporary(m), where, "nothing at the destination is "
                          "removed", "a file at the destination is removed "
                          "before the new one is in place", "dest-removed",
                          m.ev)
            elif m.effect == "write":
                c.require(temporary(m), where, "files are copied under a "
                          "temporary name", "a file at the destination is "
                          "overwritten in place, so that an interruption "
                          "leaves it incomplete", "in-place", m.ev)
            elif m.effect == "move-dst":
                src = r.c(m.ev.args[0])
                tmps = [e for e in t.copies if len(e.args) > 1 and
                        r.c(e.args[1]) is src]
                if not tmps and locs(r, m.ev.args[0], "SRC"):
                    c.require(m.ev.name in ("os.replace", "os.rename") and
                              False, where, "files are copied",
                              "files are moved instead of copied", "moved",
                              m.ev)
                    continue
                if not c.require(tmps, where, "a complete copy is put in place",
                                 "what is put in place is not the copy",
                                 "not-the-copy", m.ev):
                    continue
                c.require(m.ev.name in ("os.replace", "os.rename"), where,
                          "put in place in one step", "the copy is not put in "
                          "place in one step", "not-atomic", m.ev)
                d = OR(*[r.canon.b(m.ev.done.get(e.key, 0)) for e in tmps])
                c.never(AND(m.pc, NOT(forget_exc(d))), m.ev,
                        "put in place after copying", "a file is put in place "
                        "before it has been copied", "before-copy")
                c.require(any(l.region == "DST" for l, _ in locate(src)), where,
                          "the temporary file is in the destination's file "
                          "system", "the temporary file may be in another file "
                          "system than the destination", "temp-elsewhere",
                          m.ev)
                # The same file: source and destination agree.
                for e in tmps:
                    for l in locs(r, e.args[0], "SRC"):
                        c.require(l.comps == m.loc.comps, where,
                                  "a file keeps its path", "a file is copied "
                                  "to another path", "other-path", m.ev)
        for m in t.src:
            where = m.ev.where()
            if not c.require(m.effect in ("delete", "rmdir") and m.loc.comps,
                             where, "sources are removed one at a time",
                             "more is removed than what has been copied",
                             "source-removed", m.ev):
                continue
            c.never(AND(m.pc, NOT(truth_of(mk("arg", "rm_source")))), m.ev,
                    "sources are removed only on request",
                    "sources are removed although that was not asked for",
                    "source-kept")
            same = [f for f in final + [x for x in t.dst if x.effect == "mkdir"]
                    if f.loc.comps == m.loc.comps]
            d = OR(*[r.canon.b(m.ev.done.get(f.ev.key, 0)) for f in same])
            c.never(AND(m.pc, NOT(d)), m.ev, "sources are removed after the "
                    "copy is in place", "a source is removed before its copy "
                    "is in place", "source-early")
            if m.effect == "rmdir":
                o = order(m.ev)
                if o is None:
                    c.note("%s: the order of removal is not analysed" % where)
                else:
                    c.require(o == "children", where, "directories are removed "
                              "after their contents", "a directory is removed "
                              "before what is in it", "rmdir-order", m.ev)
        rm = [m for m in t.src if m.effect in ("delete", "rmdir")]
        for xs in t.shapes:
            rel = pjoin(*xs) if len(xs) > 1 else xs[0]
            sel = AND(base_of(t), t.selected(xs), NOT(inarg("exclude", rel)),
                      truth_of(mk("arg", "rm_source")))
            g = forget_exc(OR(*[bind(r, m, xs) for m in rm]))
            c.never(AND(sel, NOT(g)), t.copies[0],
                    "moved files are removed at the source",
                    "a file that was moved stays at the source",
                    "source-stays", X)


def temporary(m):
    """The path has a name that no file of the user has."""
    from .rules_life import is_random
    t = m.loc.term
    return is_random(t) or any(
        s.op == "k" and isinstance(kval(s), str) and
        kval(s).startswith(".zielen") for s in subterms(t))


def order(ev):
    """'parents' or 'children' (which come first) for the innermost loop, ''
    for no particular order, None if unknown."""
    for l in reversed(ev.loops):
        rec = l[3] if len(l) > 3 else None
        if rec is None:
            return None
        o = rec.meta.get("order") or rec.meta.get("zorder")
        if o is None:
            return ""
        t, rev = o
        ok = t is V0 or t.op == "var" or t.op in ("m:count", "len", "m:split")
        if t.op == "m:count" and K("/") not in t.args:
            ok = False
        if t.op == "len" and t.args[-1].op not in ("var", "m:split"):
            ok = False
        if not ok:
            return None
        return "children" if rev else "parents"
    return None


def copy_errors(t):
    """[(event, atom for an exception of its call)] for the copying."""
    ats = set()
    r = t.r
    for m in t.muts:
        ats |= {a for a in atoms(m.pc) if a.op == "exc"}
    for cls, val, st in r.raised:
        ats |= {a for a in atoms(r.canon.b(AND(st.pc, st.ax)))
                if a.op == "exc"}
    evs = t.copies + [m.ev for m in t.dst if m.effect == "move-dst"]
    out = []
    for e in evs:
        xs = {x for l in e.loops for x in l[1]}
        for a in ats:
            if a.args[1] == e.name and {x for x in a.args[3:]} == xs:
                out.append((e, a))
    return out


def raises(r, ok=lambda cls: True):
    return OR(*[r.canon.b(AND(st.pc, st.ax)) for cls, _, st in r.raised
                if ok(cls)])


@rule("P12 P02 P20", "an error while a file is copied ends the transfer")
def transfer_errors(c):
    for t in transfers(c):
        r = t.r
        out = raises(r)
        for e, a in copy_errors(t):
            if a.args[0] in ("FileNotFoundError", "FileExistsError",
                             "IsADirectoryError", "NotADirectoryError"):
                continue
            c.never(AND(cofactor(forget_other(r.pc(e), a), a, False), atom(a),
                        NOT(out)), e, "%s is passed on" % a.args[0],
                    "a file that could not be copied is passed over in silence",
                    "error-ignored")


def forget_other(f, a):
    return exists_atoms(f, lambda b: b.op == "exc" and b is not a
                        and b.args[1] in COPIES)


@rule("P20", "a file that may not be copied leads to an error that the command "
             "line reports")
def transfer_denied(c):
    from .rules_life import program_error
    for t in transfers(c):
        r = t.r
        good = raises(r, lambda cls: program_error(r, cls))
        errs = [(e, a) for e, a in copy_errors(t) if a.args[0] in (
            "PermissionError", "OSError", "Exception", "shutil.Error")]
        if not c.require(errs, FT, "missing permissions are handled",
                         "missing permissions end a transfer with a traceback",
                         "permission-unhandled", t.copies[0]):
            continue
        for e, a in errs:
            c.never(AND(cofactor(forget_other(r.pc(e), a), a, False), atom(a),
                        NOT(good)), e, "%s becomes a reported error"
                    % a.args[0], "missing permissions end a transfer with a "
                    "traceback", "permission-unhandled")


@rule("P12 P14", "a transfer makes the parents of what it copies")
def transfer_parents(c):
    for t in transfers(c):
        r = t.r
        mk_ = [e for e in r.events if e.name in ("os.makedirs", "os.mkdir")]
        for m in t.dst:
            if m.effect != "move-dst" and not (
                    m.effect == "write" and not temporary(m)):
                continue
            if not m.loc.comps or not all(x.op == "var" for x in m.loc.comps):
                continue
            want = dirname(pjoin(DST, *m.loc.comps))
            ps = [e for e in mk_ if e.name == "os.makedirs" and
                  r.c(e.arg(0, "name")) is want]
            if not c.require(ps, m.ev.where(), "parents are made",
                             "a file is copied without making the directories "
                             "above it", "no-parents", m.ev):
                continue
            d = forget_exc(OR(*[r.canon.b(m.ev.done.get(e.key, 0))
                                for e in ps]))
            have = [a for a in atoms(m.pc) if a.op == "fs" and a.args[0] in
                    ("isdir", "exists") and a.args[1] is want]
            c.never(AND(m.pc, NOT(d), *[NOT(atom(a)) for a in have]), m.ev,
                    "parents are made first", "a file is copied before the "
                    "directories above it are made", "parents-late")
        for e in mk_:
            ok = e.kw.get("exist_ok", KFALSE)
            if e.name == "os.makedirs" and len(e.args) > 2:
                ok = e.args[2]
            path = r.c(e.arg(0, "name") or e.arg(0, "path"))
            caught = any(a.op == "exc" and a.args[0] in
                         ("FileExistsError", "OSError") and a.args[1] == e.name
                         for a in atoms(r.pc(e)))
            tested = any(a.op == "fs" and a.args[1] is path and AND(
                r.pc(e), atom(a)) == 0 for a in atoms(r.pc(e)))
            c.require(ok is KTRUE or caught or tested or
                      any(AND(r.pc(e), f) == 0 for f in
                          [atom(a) for a in atoms(r.pc(e)) if a.op == "kdir"
                           and a.args[0] is path]),
                      e.where(), "a directory that exists is no error",
                      "a transfer fails if a directory exists already",
                      "dir-exists", e)


@rule("P12", "a transfer keeps permissions and times")
def transfer_metadata(c):
    for t in transfers(c):
        r = t.r
        for e in t.copies:
            if e.name in ("shutil.copy2", "shutil.move", "os.rename",
                          "os.replace", "os.link", "shutil.copytree"):
                c.ok(e.where(), "%s keeps metadata" % e.name)
                continue
            st = [s for s in r.events if s.name == "shutil.copystat" and
                  r.c(s.args[0]) is r.c(e.args[0])]
            d = OR(*[AND(r.pc(s), r.canon.b(s.done.get(e.key, 0)))
                     for s in st])
            c.never(AND(r.pc(e), NOT(forget_exc(d))), e,
                    "metadata is copied as well", "files are copied without "
                    "their permissions or times", "no-metadata")


@rule("P10", "a transfer copies links as links, never what they lead to")
def transfer_links(c):
    for t in transfers(c):
        r = t.r
        for e in r.events:
            if e.name in ("shutil.copy2", "shutil.copy", "shutil.copyfile",
                          "shutil.copystat", "os.chmod", "os.utime",
                          "os.link") and locs(r, e.args[0], "SRC"):
                f = e.kw.get("follow_symlinks", KTRUE)
                for l in locs(r, e.args[0], "SRC"):
                    p = l.term
                    c.never(AND(r.pc(e), truth_of(r.c(f)), link(p)), e,
                            "%s does not follow links" % e.name,
                            "what a link leads to is copied instead of the "
                            "link", "copy-follows", X)
            if e.name == "open" and locs(r, e.args[0], "SRC"):
                for l in locs(r, e.args[0], "SRC"):
                    c.never(AND(r.pc(e), link(l.term)), e,
                            "links are not opened", "what a link leads to is "
                            "copied instead of the link", "copy-follows", X)
            if e.name == "os.stat" and e.kw.get("follow_symlinks") is not \
                    KFALSE and not any(r.I.exc_match(
                        mk("ext", "FileNotFoundError"), h) for h in e.handlers):
                for l in locs(r, e.args[0], "SRC"):
                    if l.comps:
                        c.never(AND(r.pc(e), link(l.term)), e,
                                "a link is not followed for its size",
                                "a transfer fails because of a link that leads "
                                "nowhere", "stat-follows", X)
            if e.name == "shutil.copytree":
                c.require(truth_of(r.c(e.kw.get("symlinks", KFALSE))) == 1,
                          e.where(), "links are copied as links",
                          "what a link leads to is copied instead of the link",
                          "copy-follows", e)
            if e.name in ("scan_tree", "os.scandir", "os.listdir", "os.walk"):
                for l in locs(r, e.args[0], "SRC"):
                    if l.comps:
                        c.never(AND(r.pc(e), link(l.term)), e,
                                "linked directories are not scanned",
                                "a directory is copied through a link to it",
                                "scan-follows", X)
        for m in t.dst:
            if m.effect == "mkdir" and m.loc.comps and all(
                    x.op == "var" for x in m.loc.comps):
                c.never(AND(m.pc, link(pjoin(SRC, *m.loc.comps))), m.ev,
                        "a link is not made a directory",
                        "a directory is made in place of a link",
                        "link-as-dir", X)


@rule("P10 P12", "no file at the destination is written to through a link")
def transfer_through_links(c):
    for t in transfers(c):
        for m in t.dst:
            if m.effect in ("write", "meta", "touch"):
                c.require(temporary(m), m.ev.where(), "%s of a fresh file" %
                          m.effect, "a link at the destination is written "
                          "through", "write-through", m.ev)


# ------------------------------------------------------------------- links
class Linking:
    def __init__(self, c):
        self.c = c
        self.r = r = c.run(symlink_body, "symlink_tree")
        self.ok = False
        if r is None or r.final is None or r.final.dead():
            return
        self.ln = [m for m in r.muts() if m.effect == "link"]
        self.mk = [m for m in r.muts() if m.effect == "mkdir" and m.loc.comps]
        self.rm = [m for m in r.muts() if m.effect in DESTROY]
        for m in self.ln + self.mk + self.rm:
            if strange(m.loc.term):
                c.note("symlink_tree: %s is not analysed" % m.ev.where())
                return
        if not c.require(self.ln, FT, "symlink_tree makes links",
                         "symlink_tree makes no links", "no-links"):
            return
        self.ok = True

    def nothing_there(self, f):
        """f if nothing exists at the destination yet."""
        for a in atoms(f):
            if a.op in ("fs", "islink", "kdir", "linkdir") and \
                    any(s is DST for s in subterms(a)):
                f = cofactor(f, a, False)
            elif a.op == "exc" and a.args[0] in ("FileExistsError", "OSError"):
                f = cofactor(f, a, False)
        return f


@rule("P23 P13 P14 P04", "linking a tree makes each directory and links each "
      "file to its counterpart, replaces only on request, and tells what it "
      "made")
def links_made(c):
    k = Linking(c)
    if not k.ok:
        return
    r, ow = k.r, truth_of(mk("arg", "overwrite"))
    isf = AND(inarg("files", X), NOT(inarg("dirs", X)))
    isd = inarg("dirs", X)
    ln = OR(*[bind(r, m, (X,)) for m in k.ln])
    md = OR(*[bind(r, m, (X,)) for m in k.mk])
    ev = k.ln[0].ev
    c.never(AND(isf, NOT(k.nothing_there(ln))), ev, "every file is linked",
            "a file is not linked", "not-linked", X)
    c.never(AND(isf, ow, NOT(forget_exc(ln))), ev, "every file is linked",
            "a file is not linked", "not-linked", X)
    c.never(AND(isd, NOT(k.nothing_there(md))), ev, "every directory is made",
            "a directory is not made", "not-made", X)
    c.never(AND(ln, NOT(inarg("files", X))), ev, "only files are linked",
            "a path that was not asked for is linked", "linked-other", X)
    c.never(AND(md, NOT(isd)), ev, "only directories are made",
            "a file becomes a directory", "made-other", X)
    for m in k.ln:
        ok = all(l.region == "SRC" and l.comps == m.loc.comps for l, _ in
                 locate(r.c(m.ev.args[0])))
        c.require(ok and m.loc.region == "DST", m.ev.where(),
                  "a link leads to its counterpart",
                  "a link leads to another file than its counterpart",
                  "link-target", m.ev)
    for m in k.rm:
        if not c.require(m.loc.region == "DST" and m.loc.comps and m.effect in
                         ("delete", "rmdir", "move-src"), m.ev.where(),
                         "only what is replaced is removed",
                         "more is removed than what is replaced",
                         "removed-other", m.ev):
            continue
        f = forget_exc(bind(r, m, (X,)))
        c.never(AND(f, NOT(ow)), m.ev, "files are replaced only on request",
                "a file is replaced with a link although that was not asked "
                "for", "replaced", X)
        c.never(AND(f, NOT(isf)), m.ev, "only files to be linked are removed",
                "a path that is not to be linked is removed", "removed-other",
                X)
        # Whatever is removed makes place for a link.
        later = [x for x in k.ln if m.ev.key in x.ev.done]
        d = forget_exc(OR(*[AND(bind(r, x, (X,))) for x in later]))
        c.never(AND(f, NOT(d)), m.ev, "what is removed is replaced",
                "a file is removed and not replaced with a link",
                "removed-not-linked", X)
    for m in k.mk:
        if m.ev.name == "os.makedirs":
            continue
        o = order(m.ev)
        if o is None:
            c.note("%s: the order of directories is not analysed"
                   % m.ev.where())
        else:
            c.require(o == "parents", m.ev.where(), "directories are made "
                      "before what is in them", "a directory may be made "
                      "before the one it is in", "mkdir-order", m.ev)
    coll = r.I.coll_of(r.result, r.final)
    if coll is None:
        c.note("symlink_tree: the result is not analysed")
        return
    res = member(r, coll, X)
    made = OR(ln, md)
    if any(strange(a) for a in atoms(res)):
        c.note("symlink_tree: the result is not analysed")
        return
    c.never(AND(made, NOT(res)), ev, "the result has all that was made",
            "a path that was made is missing from the result", "result-missing",
            X)
    c.never(AND(res, NOT(made)), ev, "the result has only what was made",
            "a path that was not made is in the result", "result-extra", X)


# ------------------------------------------------------------------ scanning
@rule("P10 P05", "a scan lists the contents of every directory, and never those "
                 "of a directory behind a link")
def scan_body(c):
    P = mk("root", "SRC")
    r = c.run(lambda M: fstool_body(M, "scan_tree", P), "scan_tree")
    if r is None or r.final is None or r.final.dead():
        return
    coll = r.I.coll_of(r.result, r.final)
    if coll is None:
        c.note("scan_tree: the result is not analysed")
        return
    ent = lambda p, n: [a for a in ats if a.op == "indir" and a.args[0] is p
                        and a.args[1] is n]
    parts = []
    for p in coll.parts.values():
        m = {v: fresh("p") for v in p.vars}
        parts.append((list(m.values()), r.c(subst(p.key, m) if m else p.key),
                      r.canon.b(bsubst(p.cond, m) if m else p.cond)))
    one, two, odd = 0, 0, False
    follow = 0
    where = FT + " in scan_tree"
    for vs, k, f in parts:
        if k.op == "dirent":
            k = k.args[0]
        if k.op == "pjoin" and k.args[0] is P and len(k.args) in (2, 3) and \
                all(x in vs for x in k.args[1:]):
            xs = (X, Y)[:len(k.args) - 1]
            g = bsubst(f, dict(zip(k.args[1:], xs)))
            if len(xs) == 1:
                one = OR(one, g)
            else:
                two = OR(two, g)
        else:
            odd = True
    ats = set(atoms(OR(one, two)))
    snap1 = {a for a in ats if a.op == "indir" and a.args[0] is P}
    if not snap1 or odd and two == 0:
        c.note("scan_tree: the result is not analysed")
        return
    i1 = OR(*[atom(a) for a in snap1])
    i2 = OR(*[atom(a) for a in ats if a.op == "indir" and
              a.args[0] is pjoin(P, X)])
    ev = next((e for e in r.events if e.name in ("os.scandir", "os.listdir")),
              None)
    c.never(AND(i1, NOT(one)), ev, "every entry is listed",
            "a scan misses entries of a directory", "entry-missed", X)
    if not c.require(two != 0, where, "subdirectories are scanned",
                     "a scan does not look into subdirectories", "no-descent"):
        return
    c.never(AND(i1, i2, kdir(pjoin(P, X)), NOT(link(pjoin(P, X))), NOT(two)),
            ev, "every subdirectory is scanned",
            "a scan does not look into every subdirectory", "descent-missed",
            X)
    c.never(AND(two, link(pjoin(P, X))), ev, "links are not followed",
            "a scan follows symbolic links to directories", "scan-follows", X)


@rule("P10", "links that are absolute or lead out of the directory count as "
             "unsafe, and no others")
def unsafe_body(c):
    l, p = mk("arg", "link"), mk("arg", "parent")
    r = c.run(lambda M: fstool_body(M, "is_unsafe_symlink", l, p),
              "is_unsafe_symlink")
    if r is None or r.final is None or r.final.dead():
        return
    f = truth_of(r.c(r.result))
    rd = mk("readlink", l)
    isl = link(l)
    ab = truth_of(mk("os.path.isabs", rd))
    to = norm(pjoin(dirname(l), rd))
    ins = within(to, p)
    ats = {a for a in atoms(f)}
    known_ = {a for g in (isl, ab, ins) for a in atoms(g)}
    ev = next((e for e in r.events if e.name == "os.readlink"), None)
    other = [a for a in ats - known_ if a.op not in ("startswith", "eq",
                                                     "within")]
    if other:
        c.note("is_unsafe_symlink: %s is not analysed" % show(other[0], 5))
        return
    c.never(AND(isl, ab, NOT(f)), ev, "absolute links are unsafe",
            "an absolute link counts as safe", "absolute")
    c.never(AND(isl, NOT(ab), NOT(ins), NOT(f)), ev,
            "links that lead out of the directory are unsafe",
            "a link that leads out of the directory counts as safe", "outside")
    c.never(AND(isl, NOT(ab), ins, f), ev, "links inside the directory are safe",
            "a link that stays inside the directory counts as unsafe",
            "inside")
    c.never(AND(NOT(isl), f), ev, "only links are unsafe",
            "a file that is no link counts as unsafe", "no-link")


@rule("P10 P07", "the time of a file is changed without following links")
def mtime_body(c):
    P = mk("root", "SRC")
    r = c.run(lambda M: fstool_body(M, "update_mtime", P), "update_mtime")
    if r is None or r.final is None:
        return
    n = 0
    for e in r.events:
        if e.name in ("os.utime", "os.chmod"):
            n += 1
            f = e.kw.get("follow_symlinks", KTRUE)
            c.never(AND(r.pc(e), truth_of(r.c(f)), link(P)), e,
                    "%s does not follow links" % e.name,
                    "what a link leads to is changed", "mtime-follows")
        if e.name.startswith("tempfile.") or e.name == "open" or \
                e.name == "os.scandir":
            n += 1
            c.never(AND(r.pc(e), link(P)), e, "%s does not follow links"
                    % e.name, "what a link leads to is changed",
                    "mtime-follows")
    c.require(n, FT, "the time is changed", "the time of a file is not changed",
              "no-mtime")


# ------------------------------------------------------------- sync directories
def dir_scans(M):
    """scan_paths of both kinds of directories, with each of its options, and
    a second time on the same object."""
    if "dir_scans" in M.cache:
        return M.cache["dir_scans"]

    def drive(run, I, st):
        run.scans = {}
        for cn in ("LocalSyncDir", "RemoteSyncDir"):
            s = st.copy()
            k = M.cls(I, s, "zielen.userdata", cn)
            o = I.call(k, [SRC], {}, M.prog.dummy, s)
            # (The remote one is only ever asked for relative paths.)
            for name, kw in (("all", {}), ("files", {"files": KFALSE}),
                             ("symlinks", {"symlinks": KFALSE}),
                             ("dirs", {"dirs": KFALSE}),
                             ("exclude", {"exclude": None}),
                             ("abs", {"rel": KFALSE})):
                if name == "abs" and cn == "RemoteSyncDir":
                    continue
                a = s.copy()
                kw = {x: argcoll(I, a, "exclude") if v is None else v
                      for x, v in kw.items()}
                out = []
                for memo in (KTRUE, KFALSE):
                    n = len(I.events)
                    I.salt = memo is KFALSE
                    f = I.getattr_(o, "scan_paths", M.prog.dummy, a)
                    v = I.call(f, [], dict(kw, memoize=memo), M.prog.dummy, a)
                    if a.dead():
                        break
                    out.append((I.iter_rec(v, a, M.prog.dummy).parts.values(),
                                I.events[n:]))
                    if name == "symlinks" and cn == "LocalSyncDir":
                        b = a.copy()
                        run.other = E.index(I, v, mk("arg", "other"),
                                            M.prog.dummy, b)
                run.scans[cn, name] = out
            run.scans[cn, "st"] = a
        run.result = NONE
    r = M.cache["dir_scans"] = Run(M.prog, "dir_scans", drive,
                                   prims=without("scan_paths"))
    return r


@rule("P03 P04 P05 P10 P13 P14 P23", "the paths of a directory are exactly "
      "those of the requested kinds that a scan of it finds, less the "
      "excluded ones, and a new scan is made when one is asked for")
def scan_paths_body(c):
    r = c.run(dir_scans, "scan_paths")
    if r is None:
        return
    P = pjoin(SRC, X)
    drop = {"files": AND(NOT(kdir(P)), NOT(link(P))),
            "symlinks": link(P), "dirs": isdir(P),
            "exclude": inarg("exclude", X)}
    said = {"files": "regular files", "symlinks": "symbolic links",
            "dirs": "directories", "exclude": "excluded paths"}
    where = "zielen/userdata.py"
    for t, _ in leaves(getattr(r, "other", NONE)):
        t = r.c(t)
        c.require(t.op != "stat" or t.args[0].op not in ("target", "realpath"),
                  where, "the data of other paths", "looking up a path that the "
                  "scan did not find follows symbolic links", "lookup-follows")
    for (cn, name), out in sorted(r.scans.items()):
        if name == "st":
            continue
        what = "%s.scan_paths(%s)" % (cn, name)
        if len(out) < 2:
            c.note(what + ": not analysed")
            continue
        old = None
        for again, (parts, evs) in enumerate(out):
            one, odd, vals = 0, False, []
            for p in parts:
                k, f = r.c(p.key), r.canon.b(p.cond)
                v = k if name != "abs" else (
                    k.args[1] if k.op == "pjoin" and k.args[0] is SRC and
                    len(k.args) == 2 else k)
                if v.op != "var" or p.vars != (v,):
                    odd = True
                    continue
                one = OR(one, bsubst(f, {v: X}))
                vals.append(subst(r.c(p.val), {v: X}))
            if odd:
                if any(strange(r.c(p.key)) for p in parts):
                    c.note(what + ": the result is not analysed")
                else:
                    c.require(False, where, what, "%s.scan_paths does not "
                              "name paths %s" % (cn, "in full" if name == "abs"
                                                 else "relative to it"),
                              "scan-names-" + name)
                continue
            snaps = {a.args[1] for a in atoms(one) if a.op == "intree" and
                     a.args[0] is SRC}
            if len(snaps) != 1:
                if again and len(snaps) > 1:
                    c.require(False, where, what, "a new scan that was asked "
                              "for is mixed with an old one", "scan-mixed")
                elif not snaps and vals and not strange_f(one) and any(
                        a.op == "indir" for a in atoms(one)):
                    c.require(False, where, what, "%s.scan_paths does not "
                              "look into subdirectories" % cn, "scan-flat")
                else:
                    c.note(what + ": the scan was not identified")
                continue
            if not again:
                old = snaps
            tree = atom(mk("intree", SRC, snaps.copy().pop(), X))
            ev = next((e for e in r.events if e.name == "scan_tree"), None)
            if again:
                new = [e for e in evs if e.name == "scan_tree"]
                c.require(new and old != snaps, where, what + " again", "%s.scan_paths does "
                          "not look at the directory again when it is asked to"
                          % cn, "scan-stale")
                continue
            keep = tree
            if name in drop:
                keep = AND(keep, NOT(drop[name]))
            if cn == "RemoteSyncDir":
                keep = AND(keep, NOT(inutil(X)))
            c.never(AND(keep, NOT(one)), ev, what + " is complete",
                    "%s.scan_paths leaves out paths" % cn,
                    "scan-missing-%s-%s" % (cn, name), X)
            c.never(AND(one, NOT(keep)), ev, what + " names no others",
                    "%s.scan_paths %s" % (cn, "includes %s against its "
                                          "arguments" % said[name]
                                          if name in said else
                                          "includes paths it should not"),
                    "scan-extra-%s-%s" % (cn, name), X)
            for v in vals:
                if not strange(v):
                    c.require(v is mk("stat", P), where, what + " values",
                              "%s.scan_paths gives %s as the data of a path"
                              % (cn, show(v, 4)), "scan-values")
