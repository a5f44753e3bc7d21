"""What a sync does to each path, given what was found on either side."""
from .terms import *
from .model import *
from .vocab import *
from .check import rule


def sync(c):
    r = c.run("sync")
    if r is None:
        return None, None
    S = Sync(r)
    if S.LS is None:
        if not S.ls_all and not r.I.imprecise:
            c.bad("zielen/commands/sync.py", "comparison with the last sync",
                  "no decision of a sync depends on the time of the last sync",
                  "no-last-sync")
        else:
            c.note("the time of the last sync has %d forms; rules over "
                   "modification times do not apply" % len(S.ls_all))
        return None, None
    return r, S


def uploads(r):
    """Transfers from the local to the remote directory."""
    return [m for m in r.muts() if m.effect == "transfer"
            and m.loc.region == "SAFE" and r.c(m.ev.args[0]) is LOCAL]


def downloads(r):
    return [m for m in r.muts() if m.effect == "transfer"
            and m.loc.region == "LOCAL"]


def destroys(r, *regions):
    return [m for m in r.muts() if m.effect in DESTROY
            and m.loc.region in regions and m.loc.comps]


def renames(r, region):
    """(source mutation, destination mutation) of moves inside a region."""
    out = []
    for m in r.muts():
        if m.effect == "move-src" and m.loc.region == region:
            for n in r.muts():
                if n.ev is m.ev and n.effect == "move-dst" and \
                        n.loc.region == region:
                    out.append((m, n))
    return out


def done(r, m, ev):
    """The event ev completed before m (any of its iterations)."""
    return r.canon.b(m.ev.done.get(ev.key, 0))


def done_any(r, m, evs):
    return OR(*[done(r, m, e) for e in evs])


def ran(r, m, names):
    """Some event of one of these names completed before m."""
    return OR(*[done(r, m, e) for e in r.events if e.name in names])


def moved(r, region, x):
    return OR(*[relaxed(at(r, a, x)) for a, b in renames(r, region)])


def seen(r, evs, x):
    """x is handled by one of the effects, successful or not."""
    return OR(*[relaxed(at(r, m, x)) for m in evs])


# -------------------------------------------------------------- P03: upload
@rule("P03", "every local file that is new or was modified since the last "
             "sync is in the set handed to the upload, under its own or its "
             "conflict name")
def upload_covers_changes(c):
    r, S = sync(c)
    if r is None:
        return
    ups = uploads(r)
    if not c.require(ups, "zielen/commands/sync.py", "an upload exists",
                     "a sync never copies local files to the remote directory",
                     "no-upload"):
        return
    F = moved_to = 0
    for u in ups:
        f = files_arg(r, u.ev, "files", X)
        if f is None:
            c.note("the upload's file set is not known")
            return
        F = OR(F, AND(relaxed(u.pc), f))
    ren = renames(r, "LOCAL")
    mv = OR(*[relaxed(at(r, a, X)) for a, b in ren])
    ev = ups[0].ev
    base = relaxed(ups[0].pc)
    c.never(AND(base, S.newL(X), NOT(F), NOT(mv)), ev, "new local files",
            "a new local file is not copied to the remote directory",
            "new-not-uploaded", X)
    c.never(AND(base, S.modL(X), NOT(F), NOT(mv)), ev, "modified local files",
            "a modified local file is not copied to the remote directory",
            "mod-not-uploaded", X)
    # The upload happens on every path to the end of the command.
    if not r.final.dead():
        fin = r.canon.b(AND(r.final.pc, r.final.ax))
        d = OR(*[r.canon.b(r.final.done.get(u.ev.key, 0)) for u in ups])
        c.never(AND(fin, NOT(d)), ev, "the upload always runs",
                "a sync can end without having run the upload", "upload-skipped")
    # Conflict losers are uploaded under their new name.
    for a, b in ren:
        for u in ups:
            new = b.loc.rel
            f = files_arg(r, u.ev, "files", new)
            c.never(AND(a.pc, relaxed(u.pc), NOT(f)), u.ev,
                    "renamed local files",
                    "a local file renamed because of a conflict is not copied "
                    "to the remote directory", "renamed-not-uploaded")
    for u in ups:
        c.require(u.ev.kw.get("rm_source", KFALSE) is KFALSE, u.ev.where(),
                  "the upload keeps the local files",
                  "the upload of a sync removes local files", "upload-rm", u.ev)


@rule("P03", "until the upload has completed, no local file that is new or "
             "modified is deleted, replaced or overwritten")
def changes_kept_until_uploaded(c):
    r, S = sync(c)
    if r is None:
        return
    ups = [u.ev for u in uploads(r)]
    ren = {id(a) for a, b in renames(r, "LOCAL")}
    for m in destroys(r, "LOCAL"):
        if id(m) in ren:
            continue
        d = done_any(r, m, ups)
        f = at(r, AND_pc(m, NOT(d)), X)
        c.never(AND(f, S.chL(X)), m.ev, "%s of a local path" % m.effect,
                "a new or modified local file is removed before it was "
                "copied to the remote directory", "lost-before-upload", X)
    for m in r.muts():
        if m.loc.region == "LOCAL" and m.effect in ("transfer", "write",
                                                    "symlink-tree", "link"):
            d = done_any(r, m, ups)
            c.never(AND(m.pc, NOT(d)), m.ev, "%s into the local directory"
                    % m.effect,
                    "local files are replaced before the upload completed",
                    "replaced-before-upload")
    for m in r.muts():
        if m.effect == "symlink-tree" and m.loc.region == "LOCAL":
            o = m.ev.kw.get("overwrite", KFALSE)
            c.never(AND(m.pc, r.canon.b(truth_of(o))), m.ev,
                    "symlinks do not replace files",
                    "creating symlinks replaces local files that were not "
                    "selected for removal", "symlink-overwrite")


@rule("P03 P09", "after the upload, local files are only removed if both "
             "databases track them; excluded files never are")
def evicted_files_are_tracked(c):
    r, S = sync(c)
    if r is None:
        return
    ups = [u.ev for u in uploads(r)]
    for m in destroys(r, "LOCAL"):
        d = done_any(r, m, ups)
        f = at(r, AND_pc(m, d), X)
        if feasible(fresh_names(f)) == 0:
            continue
        dbs = m.ev.dbs or {}
        for (kind, path), coll in dbs.items():
            if path is PDB:
                k = member(r, coll, X)
                c.never(AND(f, NOT(k)), m.ev, "%s after upload" % m.effect,
                        "a local file that is not in the profile's database "
                        "is removed to make room", "evict-unknown", X)
        c.never(AND(f, excl(X)), m.ev, "%s after upload" % m.effect,
                "an excluded local file is removed to make room",
                "evict-excluded", X)
        c.never(AND(f, unsafe(X), NOT(known(X))), m.ev,
                "%s after upload" % m.effect,
                "a local symlink that is not synced is removed",
                "evict-unsafe", X)


def AND_pc(m, f):
    n = Mut(m.ev, m.effect, m.loc, AND(m.pc, f))
    return n


# ----------------------------------------------------------- P04: deletions
def pdb_at(r, ev, path, x):
    """Membership of x in a database when the event happens."""
    for (kind, p), coll in (ev.dbs or {}).items():
        if p is path:
            return member(r, coll, x)
    return None


def early(r, region):
    """Destructive effects in a region, except conflict renames, before the
    upload: [(mutation, condition applied to X)]."""
    ups = [u.ev for u in uploads(r)]
    ren = {id(a) for a, b in renames(r, region)}
    out = []
    for m in destroys(r, region):
        if id(m) in ren:
            continue
        f = at(r, AND_pc(m, NOT(done_any(r, m, ups))), X)
        if feasible(fresh_names(f)) != 0:
            out.append((m, f))
    return out


@rule("P04", "a local file is deleted only if it was synced before, is "
             "missing from the remote directory, is not excluded and was not "
             "modified since the last sync")
def local_deletions_justified(c):
    r, S = sync(c)
    if r is None:
        return
    ev = early(r, "LOCAL")
    for m, f in ev:
        w = "%s before the upload" % m.effect
        c.never(AND(f, NOT(known(X))), m.ev, w,
                "a local path that was never synced is deleted",
                "del-unknown", X)
        c.never(AND(f, inR(X)), m.ev, w,
                "a local file that is still in the remote directory is deleted",
                "del-still-remote", X)
        c.never(AND(f, excl(X)), m.ev, w,
                "an excluded local file is deleted", "del-excluded", X)
        c.never(AND(f, S.modL(X)), m.ev, w,
                "a local file modified since the last sync is deleted",
                "del-modified", X)
        c.require(m.effect != "rmtree", m.ev.where(), w + ": contents",
                  "a directory deleted in the remote directory is deleted with "
                  "everything in it, including new, modified and excluded "
                  "files", "tree-delete-local", m.ev)


@rule("P04", "every synced file that was deleted from the remote directory "
             "and is unchanged locally is deleted locally")
def remote_deletions_propagate(c):
    r, S = sync(c)
    if r is None:
        return
    evs = early(r, "LOCAL")
    if not c.require(evs, "zielen/commands/sync.py", "local deletions exist",
                     "a sync never deletes local files that were deleted "
                     "from the remote directory", "no-local-delete"):
        return
    gone = OR(*[relaxed(f) for m, f in evs])
    base = end_pc(r)
    bad = AND(base, known(X), inL(X), NOT(inR(X)), NOT(excl(X)),
              NOT(S.modL(X)), NOT(gone))
    Y = var("Y")
    anc = exists([Y], AND(known(Y), NOT(inR(Y)), atom(mk("under", X, Y)),
                          NOT(eq(X, Y))))
    c.never(AND(bad, NOT(anc)), evs[0][0].ev, "deletions propagate",
            "a file deleted from the remote directory stays in the local one",
            "del-not-propagated", X)


def end_pc(r):
    """The command ran to its end."""
    if r.final.dead():
        return 0
    return relaxed(r.canon.b(AND(r.final.pc, r.final.ax)))




def new_dirs(x):
    """Paths that are entered during the sync are entered as what they are
    (checked by directory_flag)."""
    return OR(known(x), IFF(dbdir(x), OR(AND(inL(x), isdir(L(x))),
                                         AND(inR(x), isdir(R(x))))))


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


# ------------------------------------------------- P05: remote deletions/trash
def trashings(r):
    """(source, destination) mutations of moves into the trash."""
    out = []
    for m in r.muts():
        if m.effect == "move-src" and m.loc.region in ("SAFE", "REMOTE"):
            for n in r.muts():
                if n.ev is m.ev and n.effect == "move-dst" and \
                        n.loc.region == "TRASH":
                    out.append((m, n))
    return out


def localflag(x):
    return atom(mk("pattr", mk("pdata", PDB, x), K("local")))


def option(r, name):
    """Atom(s) for a yes/no option of the selected profile's config file."""
    out = set()
    for e in r.events:
        for a in atoms(r.pc(e)):
            for s in subterms(a):
                if s.op in ("cfgval", "cfg", "cfgkey") and \
                            s.args[1] is K(name):
                    out.add(a)
    return out


@rule("P05", "a remote file is deleted or moved to the trash only if it was "
             "synced before, is missing from the local directory and was not "
             "modified remotely since the last sync")
def remote_removals_justified(c):
    r, S = sync(c)
    if r is None:
        return
    for m, f in early(r, "SAFE") + early(r, "REMOTE"):
        w = "%s before the upload" % m.effect
        c.never(AND(f, NOT(known(X))), m.ev, w,
                "a remote path that was never synced is removed",
                "rm-unknown", X)
        c.never(AND(f, inL(X)), m.ev, w,
                "a remote file that is still in the local directory is removed",
                "rm-still-local", X)
        c.never(AND(f, S.modR(X)), m.ev, w,
                "a remote file modified since the last sync is removed",
                "rm-modified", X)
        if m.effect == "rmtree":
            c.bad(m.ev.where(), w + ": contents",
                  "a directory deleted in the local directory is deleted with "
                  "everything in it, including files other clients added or "
                  "modified", "tree-delete-remote", m.ev.path())


@rule("P05", "every synced file that was deleted locally and is unchanged in "
             "the remote directory is removed from the remote directory")
def local_removals_propagate(c):
    r, S = sync(c)
    if r is None:
        return
    evs = early(r, "SAFE")
    if not c.require(evs, "zielen/commands/sync.py", "remote deletions exist",
                     "a sync never removes remote files that were deleted "
                     "locally", "no-remote-delete"):
        return
    gone = OR(*[relaxed(f) for m, f in evs])
    Y = var("Y")
    anc = exists([Y], AND(known(Y), NOT(inL(Y)), atom(mk("under", X, Y)),
                          NOT(eq(X, Y))))
    bad = AND(end_pc(r), known(X), rknown(X), inR(X), NOT(inL(X)),
              NOT(S.modR(X)), NOT(anc), NOT(gone))
    c.never(bad, evs[0][0].ev, "deletions propagate",
            "a file deleted from the local directory stays in the remote one",
            "rm-not-propagated", X)


@rule("P05 P07", "a file whose content exists only in the remote directory is "
                 "moved to the trash, not deleted, unless the user turned "
                 "that off")
def trash_instead_of_delete(c):
    r, S = sync(c)
    if r is None:
        return
    tr = trashings(r)
    if not c.require(tr, "zielen/filelogic.py", "files are moved to the trash",
                     "no file is ever moved to the trash", "no-trash"):
        return
    opt = option(r, "UseTrash")
    if not c.require(opt, "zielen/filelogic.py", "UseTrash is honoured",
                     "the UseTrash option does not decide anything",
                     "use-trash-ignored"):
        return
    # The values of the option under which files go to the trash.
    use = 0
    for a, b in tr:
        use = OR(use, exists_atoms(at(r, a, X), lambda t: t not in opt))
    c.require(use != 1, tr[0][0].ev.where(), "UseTrash can be turned off",
              "files are moved to the trash although UseTrash is off",
              "use-trash-ignored", tr[0][0].ev)
    for m, f in early(r, "SAFE"):
        if (m.effect, id(m.ev)) in {("move-src", id(a.ev)) for a, b in tr}:
            continue
        c.never(AND(f, use, NOT(localflag(X))), m.ev,
                "%s of a file that is only remote" % m.effect,
                "a file whose only copy is in the remote directory is deleted "
                "instead of being moved to the trash", "delete-not-trash", X)


# ------------------------------------------------------------- P06: conflicts
@rule("P06", "if both copies of a file changed, the older one is renamed and "
             "both are kept; nothing else is renamed")
def conflicts_keep_both(c):
    r, S = sync(c)
    if r is None:
        return
    rl, rr = renames(r, "LOCAL"), renames(r, "SAFE")
    if not c.require(rl and rr, "zielen/filelogic.py",
                     "conflicting copies are renamed on either side",
                     "conflicting copies are not renamed", "no-rename"):
        return
    ups = uploads(r)
    ml, mr = mtime(L(X)), mtime(R(X))
    both = AND(S.chL(X), S.chR(X), inL(X), inR(X), NOT(isdir(L(X))),
               NOT(isdir(R(X))), NOT(dbdir(X)))
    end = end_pc(r)
    sl = OR(*[relaxed(at(r, a, X)) for a, b in rl])
    sr = OR(*[relaxed(at(r, a, X)) for a, b in rr])
    c.never(AND(end, both, lt(ml, mr), NOT(sl)), rl[0][0].ev,
            "older local copies are renamed",
            "a local file that conflicts with a newer remote one is not "
            "renamed", "conflict-local", X)
    c.never(AND(end, both, lt(mr, ml), NOT(sr)), rr[0][0].ev,
            "older remote copies are renamed",
            "a remote file that conflicts with a newer local one is not "
            "renamed", "conflict-remote", X)
    for (a, b), mine, other, side in \
            [(p, ml, mr, "local") for p in rl] + \
            [(p, mr, ml, "remote") for p in rr]:
        f = at(r, a, X)
        c.never(AND(f, NOT(AND(S.chL(X), S.chR(X)))), a.ev,
                "only conflicts are renamed (%s)" % side,
                "a %s file is renamed although only one copy changed" % side,
                "rename-no-conflict", X)
        c.never(AND(f, lt(other, mine)), a.ev,
                "the older copy is renamed (%s)" % side,
                "the newer %s copy of a conflicting file is renamed" % side,
                "rename-newer", X)
        # Renamed before the other copy is transferred.
        for u in ups:
            c.never(AND(a.pc, done(r, a, u.ev)), a.ev,
                    "renamed before the upload (%s)" % side,
                    "conflicting files are renamed after the upload replaced "
                    "the remote copy", "rename-late")
        # The new name lies beside the old one and is different.
        old, new = a.loc.rel, b.loc.rel
        c.require(old is not new and has_sub(new, old), b.ev.where(),
                  "the new name is derived from the old one (%s)" % side,
                  "a conflicting file is renamed to a fixed name", "rename-name",
                  b.ev)
        c.require(varies(new), b.ev.where(),
                  "the new name carries the time (%s)" % side,
                  "the name given to a conflicting file is the same each time, "
                  "so an earlier conflict copy is overwritten",
                  "rename-fixed", b.ev)


@rule("P06", "the new name of a conflicting file is not the name of a file on "
             "either side")
def conflict_names_free(c):
    from .rules_life import is_random, phi_facts
    r, S = sync(c)
    if r is None:
        return
    for a, b in renames(r, "LOCAL") + renames(r, "SAFE"):
        t = b.loc.rel
        if t is None or is_random(t):
            c.ok(b.ev.where(), "a name from a random source")
            continue
        conds = [AND(a.pc, b.pc)] + [f for f in phi_facts(r, t)
                                     if t.op == "phi"]
        odd = False
        for side, roots in (("local", (LOCAL,)), ("remote", (REMOTE, SAFE))):
            free = False
            for f in conds:
                here = [x for x in atoms(f) if t in subterms(x)]
                odd = odd or any(x.op not in (
                    "intree", "fs", "within", "eq", "exc", "indb", "in")
                    or has_op(x, UNKNOWN[:1]) for x in here)
                for x in here:
                    if x.op == "intree" and x.args[0] in roots and \
                            x.args[2] is t:
                        out = inutil(t) if side == "remote" else 0
                        free = free or AND(f, atom(x), NOT(out)) == 0
                    elif x.op == "fs" and x.args[0] in ("lexists", "exists") \
                            and any(x.args[1] is pjoin(q, t) for q in roots):
                        free = free or AND(f, atom(x)) == 0
            if not free and odd:
                c.note("%s: how the name is chosen is not known" %
                       b.ev.where())
                continue
            c.require(free, b.ev.where(), "the new name is not taken (%s)"
                      % side, "a conflicting file is renamed to a name that "
                      "a file in the %s directory may have, which is then "
                      "overwritten" % side, "rename-taken", b.ev, show(t, 4))


def has_sub(t, s):
    return any(x is s for x in subterms(t))


@rule("P06 P03", "the upload never replaces a remote file that was changed "
                 "later than the local one")
def upload_spares_newer_remote(c):
    r, S = sync(c)
    if r is None:
        return
    ml, mr = mtime(L(X)), mtime(R(X))
    mv = moved(r, "SAFE", X)
    for u in uploads(r):
        F = files_arg(r, u.ev, "files", X)
        if F is None:
            c.note("the upload's file set is not known")
            continue
        base = AND(relaxed(u.pc), F, inL(X), inR(X), NOT(isdir(L(X))),
                   NOT(isdir(R(X))), NOT(dbdir(X)))
        c.never(AND(base, S.chR(X), lt(ml, mr)), u.ev,
                "newer remote files are not replaced",
                "the upload replaces a remote file that was changed later than "
                "the local one", "upload-over-newer", X)
        c.never(AND(base, S.chR(X), lt(mr, ml), NOT(mv)), u.ev,
                "changed remote files are renamed before they are replaced",
                "the upload replaces a changed remote file that was not "
                "renamed first", "upload-over-changed", X)
        c.never(AND(base, known(X), NOT(S.chL(X)), S.chR(X)), u.ev,
                "unchanged local files are not uploaded over changed ones",
                "the upload replaces a changed remote file by an unchanged "
                "local one", "upload-unchanged", X)


# ------------------------------------------------ P17: both databases agree
def final_member(r, path, x):
    for (kind, p), coll in r.db_state(r.final).items():
        if p is path:
            return member(r, coll, x)
    return None


@rule("P17", "at the end of a sync both databases have gained and lost the "
             "same paths")
def databases_agree(c):
    r, S = sync(c)
    if r is None or r.final.dead():
        return
    p, q = final_member(r, PDB, X), final_member(r, RDB, X)
    if p is None or q is None:
        c.note("the final contents of the databases are not known")
        return
    end = end_pc(r)
    w = [e for e in r.events if e.name in DBW]
    ev = w[-1] if w else None
    k, rk = known(X), rknown(X)
    for f, what, msg, ident in (
            (AND(p, NOT(k), NOT(q)), "paths added locally",
             "a path is added to the profile's database but not to the "
             "remote one", "add-local-only"),
            (AND(q, NOT(rk), NOT(p)), "paths added remotely",
             "a path is added to the remote database but not to the "
             "profile's", "add-remote-only"),
            (AND(k, NOT(p), q), "paths removed locally",
             "a path is removed from the profile's database but not from the "
             "remote one", "rm-local-only"),
            (AND(rk, NOT(q), p), "paths removed remotely",
             "a path is removed from the remote database but not from the "
             "profile's", "rm-remote-only")):
        c.never(AND(end, f), ev, what, msg, ident, X)


@rule("P17 P03", "every path that appeared on either side is in the databases "
                 "at the end of a sync, under its own or its conflict name")
def new_paths_recorded(c):
    r, S = sync(c)
    if r is None or r.final.dead():
        return
    p, q = final_member(r, PDB, X), final_member(r, RDB, X)
    if p is None or q is None:
        return
    end = end_pc(r)
    w = [e for e in r.events if e.name in ("db.add_paths", "db.add_inflated")]
    if not c.require(w, "zielen/commands/sync.py", "new paths are added",
                     "a sync adds nothing to the databases", "no-add"):
        return
    # A path that is a file on one side and a directory on the other is in
    # conflict with itself.
    clean = NOT(AND(inL(X), inR(X), NOT(OR(
        AND(isdir(L(X)), isdir(R(X))), AND(NOT(isdir(L(X))), NOT(isdir(R(X))))
    ))))
    mvd = OR(moved(r, "LOCAL", X), moved(r, "SAFE", X),
             seen(r, destroys(r, "SAFE"), X))
    for f, side in ((S.newL(X), "local"), (S.newR(X), "remote")):
        b = AND(end, clean, f, NOT(mvd))
        c.never(AND(b, NOT(p)), w[0], "new %s paths, profile" % side,
                "a new %s path is not added to the profile's database" % side,
                "new-%s-unrecorded" % side, X)
        c.never(AND(b, NOT(q)), w[0], "new %s paths, remote" % side,
                "a new %s path is not added to the remote database" % side,
                "new-%s-unrecorded-remote" % side, X)


@rule("P17", "paths are entered as directories exactly if they are "
             "directories")
def directory_flag(c):
    r, S = sync(c)
    if r is None:
        return
    Lf = AND(inL(X), NOT(isdir(L(X))))
    Ld = AND(inL(X), isdir(L(X)))
    Rf = AND(inR(X), NOT(isdir(R(X))))
    Rd = AND(inR(X), isdir(R(X)))
    for e in r.events:
        if e.name not in ("db.add_paths", "db.add_inflated"):
            continue
        f, d = files_arg(r, e, "files", X), files_arg(r, e, "dirs", X)
        if f is None or d is None:
            c.note("%s: the paths added are not known" % e.where())
            continue
        was = pdb_at(r, e, r.c(e.args[0]), X)
        pc = AND(relaxed(r.pc(e)), OR(inL(X), inR(X)), NOT(was or 0),
                 new_dirs(X))
        c.never(AND(pc, f, NOT(OR(Lf, Rf))), e, "entered as files",
                "a directory is entered in a database as a file",
                "dir-as-file", X)
        c.never(AND(pc, d, NOT(OR(Ld, Rd))), e, "entered as directories",
                "a file is entered in a database as a directory",
                "file-as-dir", X)
        renamed_kind(c, r, e)


def renamed_kind(c, r, e):
    """Paths with names made by this sync are entered as what they were."""
    for n in ("files", "dirs"):
        for p in e.colls[n].parts.values() if n in e.colls else ():
            for l, g in leaves(r.c(p.key)):
                old = [v for v in p.vars if v in l.fv]
                if len(old) != 1 or not timed(l):
                    continue
                y = old[0]
                isd = OR(dbdir(y), dbdir(y, RDB), isdir(L(y)), isdir(R(y)))
                isf = NOT(AND(dbdir(y), dbdir(y, RDB), isdir(L(y)),
                              isdir(R(y))))
                f = exists_atoms(AND(r.pc(e), r.canon.b(p.cond), g), lambda a:
                                 any(timed(s) for s in subterms(a)))
                c.never(AND(f, NOT(isf if n == "files" else isd)), e,
                        "renamed paths are entered as what they are",
                        "a path that was renamed is entered in a database as "
                        "%s" % ("a file although it is a directory"
                                if n == "files" else
                                "a directory although it is a file"),
                        "renamed-" + n)


# --------------------------------------------- P11: unmounted remote directory
def mounted_tests(r):
    """Events that can only succeed while the remote directory is mounted."""
    out = []
    for e in r.events:
        if e.args and e.name in ("os.path.isdir", "os.path.exists", "os.stat",
                                 "os.path.lexists", "os.lstat", "os.listdir",
                                 "os.scandir", "os.path.isfile", "os.access"):
            for loc, _ in locate(r.c(e.args[0])):
                if loc.region in ("UTIL", "SAFE", "TRASH"):
                    out.append(e)
                    break
    return out


def remote_scans(r):
    return [e for e in r.events if e.name == "scan_paths" and
            e.kw.get("rescan") is not KFALSE and e.args and
            any(l.region == "REMOTE" for l, _ in locate(r.c(e.args[0])))]


@rule("P11 P04", "local files are deleted because they are missing from the "
                 "remote directory only if that was seen to be mounted after "
                 "it was scanned")
def deletions_need_mounted_remote(c):
    r, S = sync(c)
    if r is None:
        return
    sc = remote_scans(r)
    tests = [e for e in mounted_tests(r)]
    after = []
    for e in tests:
        d = AND(*[r.canon.b(e.done.get(s.key, 0)) for s in sc])
        if sc and feasible(definite(AND(r.pc(e), NOT(d)))) == 0:
            after.append(e)
    for m, f in early(r, "LOCAL"):
        g = AND(f, NOT(inR(X)))
        pos = 0
        for e in after:
            # The test was made before this effect, and was positive.
            d = r.canon.b(m.ev.done.get(e.key, 0))
            t = d
            if e.result is not None and e.name.startswith("os.path."):
                t = AND(d, r.canon.b(truth_of(e.result)))
            pos = OR(pos, t)
        c.never(AND(g, NOT(pos)), m.ev, "%s of a missing file" % m.effect,
                "local files are deleted without checking that the remote "
                "directory is mounted", "delete-unmounted", X)


@rule("P11", "nothing is created or changed in the remote directory except "
             "through its .zielen directory, which no command but init "
             "creates")
def remote_through_util(c):
    for name in ("sync", "empty_trash", "init", "reset"):
        r = c.run(name)
        if r is None:
            continue
        for m in r.muts():
            w = "%s: %s" % (r.name, m.effect)
            if m.loc.region == "REMOTE" and name != "reset" and \
                    m.effect not in ("transfer-src",) and \
                    not (name == "init" and m.effect == "mkdir"):
                c.require(False, m.ev.where(), w,
                          "the remote directory is changed by a path that "
                          "also exists when it is not mounted", "not-through-"
                          "util", m.ev)
            elif m.loc.region in ("SAFE", "UTIL", "TRASH"):
                recreates = m.effect == "mkdir" and name != "init" and (
                    m.ev.name in ("os.makedirs", "os.renames") or
                    m.loc.region == "UTIL" and not m.loc.comps)
                c.require(not recreates, m.ev.where(), w,
                          "a command creates the .zielen directory again if "
                          "the remote directory is not mounted",
                          "recreate-util", m.ev)


# --------------------------------------------------- P02: recording the result
def commits(r):
    """Events that make the new state durable: [(kind, event)]."""
    out = []
    for e in r.events:
        if e.name == "db.commit":
            p = r.c(e.args[0])
            out.append(("local" if p is PDB else "remote" if p is RDB
                        else "?", e))
    for m in r.muts():
        if m.loc.region == "PROFILE" and m.loc.comps == (K("info.json"),) and \
                m.effect in ("move-dst", "write"):
            out.append(("info", m.ev))
    return out


@rule("P02", "both databases and the time of the last sync are recorded by "
             "every sync that completes, and only after all changes to files "
             "have been made")
def commit_last(c):
    r, S = sync(c)
    if r is None or r.final.dead():
        return
    cm = commits(r)
    kinds = {"local": "the profile's database", "remote": "the remote database",
             "info": "the time of the last sync"}
    end = r.canon.b(AND(r.final.pc, r.final.ax))
    for k, what in kinds.items():
        evs = [e for q, e in cm if q == k]
        if not c.require(evs, "zielen/commands/sync.py", "%s is saved" % what,
                         "a sync never saves %s" % what, "not-saved-" + k):
            continue
        d = OR(*[r.canon.b(r.final.done.get(e.key, 0)) for e in evs])
        c.never(AND(end, NOT(d)), evs[0], "%s is saved every time" % what,
                "a sync can end without saving %s" % what, "skip-save-" + k)
    for k, e in cm:
        for m in r.muts():
            if m.loc.region in ("LOCAL", "SAFE", "REMOTE") and \
                    m.effect != "meta":
                c.never(AND(m.pc, r.canon.b(m.ev.done.get(e.key, 0))), m.ev,
                        "%s in %s before %s is saved" % (
                            m.effect, m.loc.region, k),
                        "files are changed after %s has been saved; if the "
                        "sync is interrupted there, the change is taken for "
                        "the user's" % kinds.get(k, k), "change-after-save")
        for w in r.events:
            if w.name in DBW:
                c.never(AND(r.pc(w), r.canon.b(w.done.get(e.key, 0))), w,
                        "%s before %s is saved" % (w.name, k),
                        "a database is changed after %s has been saved"
                        % kinds.get(k, k), "db-after-save")
        c.never(AND(r.pc(e), r.canon.b(e.done.get("abort", 0))), e,
                "%s is not saved on failure" % k,
                "an interrupted sync saves %s" % kinds.get(k, k),
                "save-on-failure")
    rem = [e for q, e in cm if q == "remote"]
    for k, e in cm:
        if k in ("local", "info") and rem:
            d = OR(*[r.canon.b(e.done.get(x.key, 0)) for x in rem])
            c.never(AND(r.pc(e), NOT(d)), e, "the remote database is saved "
                    "before %s" % k,
                    "%s is saved before the remote database; a sync that is "
                    "interrupted in between never records its changes there"
                    % kinds[k], "save-order")


@rule("P02", "the time of the last sync is set before the info file is "
             "written, and was taken before the directories were scanned")
def last_sync_recorded(c):
    r, S = sync(c)
    if r is None or r.final.dead():
        return
    sets = [e for e in r.events if e.name == "setitem" and len(e.args) > 2 and
            r.c(e.args[1]) is K("LastSync")]
    if not c.require(sets, "zielen/commands/sync.py", "LastSync is updated",
                     "a sync does not update the time of the last sync",
                     "last-sync-not-set"):
        return
    info = [e for k, e in commits(r) if k == "info"]
    dumps = [e for e in r.events if e.name == "json.dump"]
    for e in dumps:
        d = OR(*[r.canon.b(e.done.get(s.key, 0)) for s in sets])
        c.never(AND(r.pc(e), NOT(d)), e, "LastSync is set before it is saved",
                "the info file is written before the time of the last sync is "
                "set", "last-sync-after-save")
    scans = [e for e in r.events if e.name == "scan_paths" and
             e.kw.get("rescan") is not KFALSE]
    for s in sets:
        v = r.c(s.args[2])
        c.require(varies(v), s.where(), "LastSync is the current time",
                  "the time recorded for the last sync is not the current time",
                  "last-sync-value", s)
        clock = [e for e in r.events if e.name in (
            "time.time", "datetime.datetime.now", "datetime.datetime.utcnow")
            and e.seq < s.seq and e.result is not None
            and has_sub(v, r.c(e.result))] or \
            [e for e in r.events if e.name == "time.time" and e.seq < s.seq][-1:]
        for t in clock:
            late = [x for x in scans if x.key in t.done and feasible(definite(
                AND(r.pc(t), r.canon.b(t.done[x.key])))) != 0]
            c.require(not late, s.where(), "LastSync precedes the scans",
                      "the time recorded for the last sync is later than the "
                      "scans: files modified while the sync was running are "
                      "taken for unmodified by the next one",
                      "last-sync-late", s)


# ------------------------------------------------------------ P09: exclusions
@rule("P09", "no excluded file that was never synced and no symbolic link that "
             "leads out of the local directory is in the set handed to the "
             "upload; those below uploaded directories are left out")
def uploads_respect_exclusions(c):
    r, S = sync(c)
    if r is None:
        return
    for u in uploads(r):
        F = files_arg(r, u.ev, "files", X)
        if F is None:
            c.note("the upload's file set is not known")
            continue
        base = AND(relaxed(u.pc), inL(X))
        c.never(AND(base, F, excl(X), NOT(known(X))), u.ev,
                "excluded files are not uploaded",
                "an excluded file that was never synced is copied to the "
                "remote directory", "upload-excluded", X)
        c.never(AND(base, F, unsafe(X), NOT(S.chR(X))), u.ev,
                "unsafe links are not uploaded",
                "a symbolic link leading out of the local directory is copied "
                "to the remote directory", "upload-unsafe", X)
        ex = files_arg(r, u.ev, "exclude", X)
        if ex is None:
            c.note("the upload's exclusions are not known")
            continue
        dirs = exists([var("D")], AND(files_arg(r, u.ev, "files", var("D")),
                                      atom(mk("under", X, var("D")))))
        c.never(AND(base, NOT(F), excl(X), NOT(ex)), u.ev,
                "excluded files in new directories are not uploaded",
                "an excluded file in a new directory is copied to the remote "
                "directory with the directory", "upload-excluded-nested", X)
        c.never(AND(base, NOT(F), unsafe(X), NOT(ex)), u.ev,
                "unsafe links in new directories are not uploaded",
                "an unsafe symbolic link in a new directory is copied to the "
                "remote directory with the directory", "upload-unsafe-nested",
                X)


@rule("P09", "excluded files that were never synced are neither entered in the "
             "databases nor replaced by remote files of the same name")
def excluded_files_untouched(c):
    r, S = sync(c)
    if r is None:
        return
    ex = AND(inL(X), excl(X), NOT(known(X)))
    for e in r.events:
        if e.name not in ("db.add_paths", "db.add_inflated"):
            continue
        f, d = files_arg(r, e, "files", X), files_arg(r, e, "dirs", X)
        if f is None or d is None:
            continue
        c.never(AND(relaxed(r.pc(e)), ex, OR(f, d)), e,
                "excluded files are not entered",
                "an excluded file that was never synced is entered in a "
                "database", "enter-excluded", X)
        c.never(AND(relaxed(r.pc(e)), inL(X), unsafe(X), NOT(known(X)),
                    NOT(inR(X)), OR(f, d)), e,
                "unsafe links are not entered",
                "an unsafe symbolic link is entered in a database",
                "enter-unsafe", X)
    for m in downloads(r):
        F = files_arg(r, m.ev, "files", X)
        if F is None:
            continue
        c.never(AND(relaxed(m.pc), ex, F), m.ev,
                "excluded files are not replaced",
                "an excluded local file that was never synced is replaced by "
                "a remote one", "replace-excluded", X)
        if r.name == "sync":
            xa = files_arg(r, m.ev, "exclude", X)
            if xa is not None:
                c.never(AND(relaxed(m.pc), ex, NOT(F), NOT(xa)), m.ev,
                        "excluded files in selected directories are not "
                        "replaced",
                        "an excluded local file that was never synced is "
                        "replaced by a remote one in a directory that is "
                        "copied", "replace-excluded-nested", X)


# --------------------------------------------- P27: removal of excluded files
def late(r, region):
    """Destructive effects after the upload."""
    ups = [u.ev for u in uploads(r)]
    out = []
    for m in destroys(r, region):
        f = at(r, AND_pc(m, done_any(r, m, ups)), X)
        if feasible(fresh_names(f)) != 0:
            out.append((m, f))
    return out


@rule("P27", "after the upload a remote file is removed only if this client "
             "and every other one excludes it and the remote database tracks "
             "it")
def excluded_everywhere(c):
    r, S = sync(c)
    if r is None:
        return
    lt_ = late(r, "SAFE") + late(r, "REMOTE")
    if not c.require(lt_, "zielen/commands/sync.py",
                     "files excluded by every client are removed",
                     "files that every client excludes stay in the remote "
                     "directory", "no-excluded-removal"):
        return
    E_ = var("E")
    for m, f in lt_:
        w = "%s of excluded files" % m.effect
        c.never(AND(f, NOT(excl(X))), m.ev, w,
                "a remote file that is not excluded is removed",
                "rm-not-excluded", X)
        c.never(AND(f, NOT(inR(X))), m.ev, w + ": scanned",
                "a path that is not in the remote directory is removed",
                "rm-not-remote", X)
        # Some client's exclude file does not match X.
        others = [a for a in atoms(f) if a.op == "ex" and any(
            s.op == "indir" for s in subterms(a))] + \
                 [a for a in atoms(f) if atom_has(a, ("looprm", "loopadd"))]
        tests = [e for e in r.events if e.name == "exclude.all_matches" and
                 e.loops and r.c(e.args[0]).op == "pjoin" and
                 "UTIL" in [l.region for l, _ in locate(r.c(e.args[0]))]]
        c.require(tests, m.ev.where(), w + ": other clients",
                  "excluded files are removed without looking at the other "
                  "clients' exclude files", "rm-other-clients", m.ev)
        for t in tests:
            d = r.canon.b(m.ev.done.get(t.key, 0))
            p = r.c(t.args[0])
            xs = [x for l in t.loops for x in l[1]]
            in_dir = [a for a in atoms(r.pc(t)) if a.op == "indir" and
                      (set(xs) & a.fv)]
            # A client that does not exclude X exists.
            cond = AND(*[atom(a) for a in in_dir])
            nomatch = exists(xs, AND(cond, NOT(atom(mk(
                "excl", p, r.c(t.args[1]), X)))))
            c.never(AND(relaxed(f), nomatch), m.ev, w + ": every client",
                    "a remote file is removed although another client does "
                    "not exclude it", "rm-not-all", X)


@rule("P27 P23 P05", "before an excluded file is removed from the remote "
                     "directory it was copied to the local one")
def excluded_secured(c):
    r, S = sync(c)
    if r is None:
        return
    dl = downloads(r)
    for m, f in late(r, "SAFE") + late(r, "REMOTE"):
        safe = 0
        for t in dl:
            F = files_arg(r, t.ev, "files", X)
            xa = files_arg(r, t.ev, "exclude", X)
            if F is None:
                c.note("%s: what is copied is not known" % t.ev.where())
                return
            safe = OR(safe, AND(r.canon.b(m.ev.done.get(t.ev.key, 0)), F,
                                NOT(xa or 0)))
        # A regular local file is a copy already.
        here = AND(inL(X), NOT(link(pjoin(LOCAL, X))))
        c.never(AND(relaxed(f), NOT(relaxed(safe)), NOT(here)), m.ev,
                "%s of excluded files: local copies" % m.effect,
                "an excluded file is removed from the remote directory "
                "without having been copied to the local one", "not-secured",
                X)


# -------------------------------------------------- P23: what stays local
@rule("P23", "every file and directory in the remote database is linked into "
             "the local directory or copied there, and nothing that is there "
             "is replaced by a link")
def everything_is_local_or_linked(c):
    r, S = sync(c)
    if r is None:
        return
    ln = [m for m in r.muts() if m.effect == "symlink-tree" and
          m.loc.region == "LOCAL"]
    dl = downloads(r)
    if not c.require(ln and dl, "zielen/filelogic.py",
                     "remote files are linked and copied",
                     "a sync does not create links to, or copies of, remote "
                     "files", "no-local-update"):
        return
    end = end_pc(r)
    for m in ln:
        src = r.c(m.ev.args[0])
        c.require(src is REMOTE, m.ev.where(), "links lead to the remote "
                  "directory", "links created by a sync do not lead to the "
                  "remote directory", "link-target", m.ev)
        q = pdb_at(r, m.ev, RDB, X)
        f, d = files_arg(r, m.ev, "files", X), files_arg(r, m.ev, "dirs", X)
        if q is None or f is None or d is None:
            c.note("the paths to link are not known")
            continue
        F = OR(*[files_arg(r, t.ev, "files", X) or 0 for t in dl])
        c.never(AND(relaxed(m.pc), q, rknown(X), NOT(f), NOT(d), NOT(F)), m.ev,
                "every tracked path is linked or copied",
                "a tracked path is neither linked into the local directory nor "
                "copied there", "not-linked", X)
        c.never(AND(relaxed(m.pc), f, rknown(X), dbdir(X, RDB)), m.ev,
                "directories are not linked",
                "a directory is replaced by a link", "link-dir", X)
        c.never(AND(relaxed(m.pc), d, rknown(X), NOT(dbdir(X, RDB))), m.ev,
                "files are not made directories",
                "a file is created as a directory", "file-made-dir", X)
    for k in ("symlink-tree", "transfer"):
        evs = [m.ev for m in (ln if k == "symlink-tree" else dl)]
        d = OR(*[r.canon.b(r.final.done.get(e.key, 0)) for e in evs])
        c.never(AND(r.canon.b(AND(r.final.pc, r.final.ax)), NOT(d)), evs[0],
                "%s always runs" % k, "a sync can end without updating the "
                "local directory", "local-update-skipped")
    # Links and copies follow the removal of what is not kept.
    for t in dl:
        c.require(t.ev.kw.get("rm_source", KFALSE) is KFALSE, t.ev.where(),
                  "the copies keep the remote files",
                  "copying files to the local directory removes the remote "
                  "ones", "download-rm", t.ev)


@rule("P23 P26", "files that are not selected are removed from the local "
                 "directory, selected ones are not")
def unselected_files_evicted(c):
    r, S = sync(c)
    if r is None:
        return
    dl = downloads(r)
    lt_ = late(r, "LOCAL")
    if not c.require(lt_, "zielen/filelogic.py", "files are evicted",
                     "a sync never makes room in the local directory",
                     "no-evict"):
        return
    D = var("D")
    for t in dl:
        F = lambda x: files_arg(r, t.ev, "files", x)
        if F(X) is None:
            c.note("the set of files to copy is not known")
            continue
        p = pdb_at(r, t.ev, PDB, X)
        pD = pdb_at(r, t.ev, PDB, D)
        und = exists([D], AND(F(D), atom(mk("under", X, D))))
        abo = exists([D], AND(F(D), atom(mk("under", D, X))))
        abo2 = exists([D], AND(pD, atom(mk("under", D, X)), exists(
            [var("G")], AND(F(var("G")), atom(mk("under", D, var("G")))))))
        gone = OR(*[relaxed(f) for m, f in lt_])
        for m, f in lt_:
            c.never(AND(f, F(X), p), m.ev, "%s of unselected files" % m.effect,
                    "a file that was selected to stay in the local directory "
                    "is removed from it", "evict-selected", X)
        c.never(AND(end_pc(r), p, known(X), inL(X), NOT(link(L(X))),
                    NOT(isdir(L(X))), NOT(excl(X)), NOT(F(X)), NOT(und),
                    NOT(abo), NOT(abo2), NOT(gone)), lt_[0][0].ev,
                "unselected files are removed",
                "a file that was not selected stays in the local directory",
                "not-evicted", X)


@rule("P23", "the profile's database marks the paths that were copied as "
             "local and those that were linked as not local, in this order")
def local_flags(c):
    r, S = sync(c)
    if r is None:
        return
    dl, ln = downloads(r), [m for m in r.muts() if m.effect == "symlink-tree"]
    if not dl or not ln:
        return
    ups = {True: [], False: []}
    for e in r.events:
        if e.name == "db.update_paths" and r.c(e.args[0]) is PDB:
            v = e.kw.get("local", NONE)
            if v is KTRUE or v is KFALSE:
                ups[v is KTRUE].append(e)
    for flag, msg in ((True, "copied files are not marked as local"),
                      (False, "linked files are not marked as not local")):
        if not c.require(ups[flag], "zielen/filelogic.py",
                         "local=%s is recorded" % flag,
                         "files that are %s" % msg, "flag-%s" % flag):
            return
    # Every copied path is marked, after the links were recorded.
    Y = var("Y")
    for t in dl:
        F = files_arg(r, t.ev, "files", X)
        p = pdb_at(r, t.ev, PDB, X)
        if F is None or p is None:
            continue
        mark = 0
        for e in ups[True]:
            xs = [x for l in e.loops for x in l[1]]
            a = files_arg(r, e, "paths", X)
            if a is None:
                c.note("the paths marked as local are not known")
                return
            mark = OR(mark, exists(xs, AND(relaxed(r.pc(e)), a)))
        c.never(AND(end_pc(r), F, p, NOT(mark)), ups[True][0],
                "copied paths are marked as local",
                "a path copied to the local directory is not marked as local",
                "copied-not-marked", X)
    for e in ups[True]:
        for m in dl:
            d = r.canon.b(e.done.get(m.ev.key, 0))
            c.never(AND(r.pc(e), NOT(d)), e, "marked after copying",
                    "files are marked as local before they have been copied",
                    "marked-early")
    for e in ups[False]:
        a = e.colls.get("paths")
        late_ = [x for x in ups[True] if x.key in e.done]
        for x in late_:
            c.never(AND(r.pc(e), r.canon.b(e.done[x.key])), e,
                    "links are recorded before copies",
                    "copied files are marked as not local afterwards",
                    "flag-order")
    for e in ups[False]:
        a = files_arg(r, e, "paths", X)
        if a is None:
            continue
        s = [x for x in atoms(a) if x.op == "newlink"]
        c.never(AND(relaxed(r.pc(e)), a, *[NOT(atom(x)) for x in s]), e,
                "only new links are marked as not local",
                "a path for which no link was created is marked as not local",
                "unlinked-marked", X)


def is_time(t):
    """The term is made from the clock's time."""
    if t.op in ("case", "ite"):
        return all(is_time(x) for x in t.args if getattr(x, "op", None))
    return any(s.op == "res" and str(s.args[0]) in ("time.time",)
               for s in subterms(t))


@rule("P06 P03 P02", "every modified file that is uploaded gets the current time as "
                     "its lastsync in the remote database, from which the "
                     "other clients learn of the change")
def uploads_stamped(c):
    r, S = sync(c)
    if r is None:
        return
    ups = uploads(r)
    if not ups:
        return
    stamp = []
    for e in r.events:
        if e.name == "db.update_paths" and r.c(e.args[0]) is RDB:
            v = e.kw.get("lastsync", NONE)
            if v is NONE or is_k(v) or not is_time(v):
                continue
            stamp.append(e)
    mark = 0
    for e in stamp:
        xs = [x for l in e.loops for x in l[1]]
        a = files_arg(r, e, "paths", X)
        if a is None:
            c.note("the paths whose time is recorded are not known")
            return
        mark = OR(mark, exists(xs, AND(relaxed(r.pc(e)), a)))
    for u in ups:
        F = files_arg(r, u.ev, "files", X)
        if F is None:
            c.note("the upload's file set is not known")
            return
        c.never(AND(end_pc(r), F, S.modL(X), NOT(mark)), u.ev,
                "uploaded changes are recorded in the remote database",
                "a modified file is copied to the remote directory without "
                "recording it in the remote database: another client whose "
                "last sync was after the modification does not see it",
                "upload-not-stamped", X)


@rule("P17 P23 P09", "no path stays recorded, or is linked, that is in neither "
                 "directory")
def recorded_paths_exist(c):
    r, S = sync(c)
    if r is None or r.final.dead():
        return
    gone = AND(NOT(inR(X)), NOT(inL(X)))
    Y = var("Y")
    anc = exists([Y], AND(known(Y), NOT(inR(Y)), atom(mk("under", X, Y)),
                          NOT(eq(X, Y))))
    f = final_member(r, PDB, X)
    if f is not None:
        c.never(AND(end_pc(r), f, known(X), excl(X), inL(X), NOT(inR(X)),
                    NOT(S.modL(X)), NOT(anc)), None,
                "excluded files that were deleted remotely",
                "an excluded file that was deleted from the remote directory "
                "stays recorded as synced", "excluded-stays-recorded", X)
    w = [e for e in r.events if e.name in DBW]
    for db, was, what in ((PDB, known(X), "the profile's database"),
                          (RDB, rknown(X), "the remote database")):
        f = final_member(r, db, X)
        if f is None:
            c.note("the final contents of the databases are not known")
            continue
        # (What is below a path is removed with it.)
        c.never(AND(end_pc(r), f, was, gone, NOT(anc)), w[-1] if w else None,
                "deleted paths in %s" % what,
                "a path that is in neither directory any more stays in %s, so "
                "that the sync stops or leaves a link to a missing file" % what,
                "stays-recorded " + what, X)
