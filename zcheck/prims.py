"""Summaries of the package's own primitives, used while interpreting the
commands.  Each summary states the primitive's documented contract; the bodies
are checked against the contracts by separate rules (rules_*.py)."""
from .terms import *
from .interp import HColl, HInst, Part, V0, UNBOUND
from . import ext as E


def clsname(I, ref, st):
    h = st.heap.get(ref)
    if isinstance(h, HInst) and h.cls.op == "cls":
        return I.classes[h.cls.args[0]].name
    return "?"


def const(v, default):
    return kval(v) if v is not None and v.op == "k" else default


def flag(I, v, st):
    """BDD of an option that is usually a literal."""
    return 1 if v is None else I.truth(v, st)


# ------------------------------------------------------------------ scanning
def kind_cond(p, files, links, dirs):
    link, kd = E.kind_atoms(p)
    return OR(AND(link, links), AND(NOT(link), kd, dirs),
              AND(NOT(link), NOT(kd), files))


def scan_paths(I, st, node, b, fi):
    self_ = b["self"]
    h = st.heap[self_]
    path = h.fields.get("path", UNBOUND)
    memo = b.get("memoize", KTRUE)
    fresh_ = memo.op == "k" and not kval(memo)
    # A snapshot taken once per object unless a new scan is asked for.
    snap = h.fields.get("__snap")
    again = vbool(1 if fresh_ or snap is None else 0)
    if fresh_ or snap is None or snap.op not in ("k", "ite"):
        snap = K(E.site(I, node) if fresh_ else "first")
    I.event(st, "scan_paths", (path, KTRUE if not fresh_ else KFALSE),
            {"self": self_, "rescan": again, "snap": snap},
            node, excs=("FileNotFoundError",))
    if st.dead():
        return NONE
    st.setfield(self_, "__snap", snap)
    full = pjoin(path, V0)
    c = atom(mk("intree", path, snap, V0))
    c = AND(c, kind_cond(full, flag(I, b.get("files"), st),
                         flag(I, b.get("symlinks"), st),
                         flag(I, b.get("dirs"), st)))
    ex = b.get("exclude", NONE)
    if ex is not NONE:
        rec = I.iter_rec(ex, st, node)
        c = AND(c, NOT(E.member(I, rec, V0, st)))
    rel = b.get("rel", KTRUE)
    st_full = mk("stat", full)
    if rel.op == "k" and not kval(rel):
        p = Part((V0,), full, st_full, c)
    else:
        p = Part((V0,), V0, st_full, c)
    return I.new_coll(st, "dict", [p], total=True, scan=path)


def scan_tree(I, st, node, b, fi):
    p = E._fspath(list(b.values())[0])
    s = E.site(I, node)
    I.event(st, "scan_tree", (p,), {}, node,
            excs=("FileNotFoundError", "NotADirectoryError", "OSError"))
    if st.dead():
        return NONE
    full = pjoin(p, V0)
    return I.new_coll(st, "gen", [Part(
        (V0,), mk("dirent", full, basename(V0)), None,
        atom(mk("intree", p, K(s), V0)))], gen="scan_tree")


def transfer_tree(I, st, node, b, fi):
    src, dst = b.get("source"), b.get("dest")
    files, excl = b.get("files", NONE), b.get("exclude", NONE)
    rm = b.get("rm_source", KFALSE)
    names = ["FileNotFoundError"]
    I.event(st, "transfer_tree", (src, dst), {
        "files": files, "exclude": excl, "rm_source": rm}, node, excs=names)
    fork_cls(I, st, "FileTransferError", node, "transfer_tree")
    return NONE


def fork_cls(I, st, name, node, what):
    """Fork an exception of one of the package's own classes."""
    if st.dead():
        return
    for i, ci in I.classes.items():
        if ci.name == name:
            c = mk("cls", i)
            if any(I.exc_match(c, h) for hs in I.handlers for h in hs):
                key = tuple(s[2] for s in I.stack) + (id(node),)
                a = atom(mk("exc", name, what, str(hash(key)),
                            *[x for l in I.loops for x in l[1]]))
                s2 = st.copy()
                s2.pc = AND(st.pc, a)
                if not s2.dead():
                    I.raise_sinks[-1].append((c, mk("excval", name), s2))
                st.pc = AND(st.pc, NOT(a))
            return


def symlink_tree(I, st, node, b, fi):
    f, d = b["src_files"], b["src_dirs"]
    I.event(st, "symlink_tree", (b["src_dir"], b["dest_dir"]), {
        "files": f, "dirs": d, "overwrite": b.get("overwrite", KFALSE)},
        node, excs=("FileNotFoundError",))
    if st.dead():
        return NONE
    rf, rd = I.iter_rec(f, st, node), I.iter_rec(d, st, node)
    c = OR(E.member(I, rf, V0, st), E.member(I, rd, V0, st))
    s = K(E.site(I, node))
    return I.new_coll(st, "set", [Part((V0,), V0, None, AND(
        c, atom(mk("newlink", s, b["dest_dir"], V0))))])


def is_unsafe(I, st, node, b, fi):
    vs = list(b.values())
    p = E._fspath(vs[0])
    # Only symbolic links are unsafe.
    return vbool(AND(atom(mk("islink", p)), atom(mk("unsafe", p, vs[1]))))


# ------------------------------------------------------------------ exclusion
def excl_matches(I, st, node, b, fi):
    h = st.heap[b["self"]]
    path = h.fields.get("path", NONE)
    I.event(st, "exclude." + fi.name, (path, b["start_path"]), {}, node,
            excs=("FileNotFoundError",))
    if st.dead():
        return NONE
    op = "excl" if fi.name == "all_matches" else "exclm"
    c = atom(mk(op, path, b["start_path"], V0))
    return I.new_coll(st, "set", [Part((V0,), V0, None, c)], shared=True)


# ------------------------------------------------------------------ databases
def db_id(I, self_, st):
    h = st.heap[self_]
    return h.fields.get("path", NONE)


def db_pred(I, self_, st):
    r = st.heap[self_].fields.get("__p")
    if r is None:
        r = I.new_coll(st, "set", [Part((V0,), V0, None, atom(
            mk("indb", db_id(I, self_, st), V0)))])
        st.setfield(self_, "__p", r)
    return I.coll_of(r, st)


def set_pred(I, self_, st, cond):
    r = I.new_coll(st, "set", [Part((V0,), V0, None, cond)])
    st.setfield(self_, "__p", r)


def pred_at(I, self_, st, x):
    return E.member(I, db_pred(I, self_, st), x, st)


DBEXC = ("sqlite3.OperationalError",)


def db_event(I, st, node, b, name, **kw):
    kind = clsname(I, b["self"], st)
    k = {"db": b["self"], "kind": K(kind)}
    k.update(kw)
    I.event(st, "db." + name, (db_id(I, b["self"], st),), k, node, excs=DBEXC)
    return not st.dead()


def db_add(I, st, node, b, fi):
    if "files" not in b or "dirs" not in b:
        return I.top("add_paths signature")
    fl, dr = b["files"], b["dirs"]
    rf, rd = I.iter_rec(fl, st, node), I.iter_rec(dr, st, node)
    if not db_event(I, st, node, b, fi.name, files=fl, dirs=dr):
        return NONE
    x = V0
    add = OR(E.member(I, rf, x, st), E.member(I, rd, x, st))
    cur = pred_at(I, b["self"], st, x)
    set_pred(I, b["self"], st, OR(cur, add))
    return NONE


def db_update(I, st, node, b, fi):
    kw = {k: v for k, v in b.items() if k not in ("self", "paths")}
    I.iter_rec(b["paths"], st, node)
    db_event(I, st, node, b, fi.name, paths=b["paths"], **kw)
    return NONE


def db_rm(I, st, node, b, fi):
    rec = I.iter_rec(b["paths"], st, node)
    if not db_event(I, st, node, b, fi.name, paths=b["paths"]):
        return NONE
    cur = pred_at(I, b["self"], st, V0)
    set_pred(I, b["self"], st, AND(cur, NOT(E.member(I, rec, V0, st))))
    return NONE


def dbdir(db, x):
    return atom(mk("dbdir", db, x))


def db_info(I, st, node, b, fi):
    db = db_id(I, b["self"], st)
    if not db_event(I, st, node, b, fi.name, path=b["path"]):
        return NONE
    p = b["path"]
    found = pred_at(I, b["self"], st, p)
    return vite(found, pdata(db, p), NONE)


def pdata(db, p):
    return mk("pdata", db, p)


def db_get(I, st, node, b, fi):
    db = db_id(I, b["self"], st)
    kw = {k: v for k, v in b.items() if k != "self"}
    if not db_event(I, st, node, b, fi.name, **kw):
        return NONE
    c = pred_at(I, b["self"], st, V0)
    root = b.get("root", NONE)
    if root is not NONE:
        # A path that came from a scan or a database is not empty.
        tr = 1 if root.op == "var" else I.truth(root, st)
        c = AND(c, OR(NOT(tr), under(V0, root)))
    for k in ("directory", "local"):
        v = b.get(k, NONE)
        if v is NONE:
            continue
        a = atom(mk("pattr", pdata(db, V0), K(k)))
        t = I.truth(v, st)
        isn = I.is_none(v, st)
        c = AND(c, OR(isn, ite(t, a, NOT(a))))
    v = b.get("min_lastsync", NONE)
    if v is not NONE:
        c = AND(c, OR(I.is_none(v, st),
                      lt(v, mk("pattr", pdata(db, V0), K("lastsync")))))
    return I.new_coll(st, "dict", [Part((V0,), V0, pdata(db, V0), c)])


def under(p, root):
    if p is root:
        return 1
    return atom(mk("under", p, root))


def _re_under(p, r):
    return vbool(under(p, r))


from . import terms as _T
_T._rebuilders["under"] = _re_under


def db_simple(I, st, node, b, fi):
    kw = {k: v for k, v in b.items() if k != "self"}
    db_event(I, st, node, b, fi.name, **kw)
    return NONE


def db_init(I, st, node, b, fi):
    st.setfield(b["self"], "path", b["path"])
    st.setfield(b["self"], "_conn", mk("res", "sqlite3.connect", (b["path"],),
                                       E.site(I, node), ()))
    st.setfield(b["self"], "_cur", mk("res", ".cursor", (b["path"],),
                                      E.site(I, node), ()))
    db_pred(I, b["self"], st)
    return NONE


def db_create(I, st, node, b, fi):
    I.event(st, "db.create", (db_id(I, b["self"], st),),
            {"db": b["self"], "kind": K(clsname(I, b["self"], st))}, node,
            excs=("FileExistsError", "sqlite3.OperationalError"))
    return NONE


# --------------------------------------------------------------------- config
def cfg_read(I, st, node, b, fi):
    h = st.heap[b["self"]]
    path = h.fields.get("path", NONE)
    I.event(st, "config.read", (path,), {"self": b["self"]}, node)
    fork_cls(I, st, "FileParseError", node, "config.read")
    if st.dead():
        return NONE
    rv = h.fields.get("raw_vals")
    coll = HColl("dict", {I.newid(): Part(
        (V0,), V0, mk("cfgval", path, V0), atom(mk("cfgkey", path, V0)))})
    if rv is not None and rv.op == "ref" and isinstance(st.heap.get(rv), HColl):
        st.heap[rv] = coll
    else:
        st.setfield(b["self"], "raw_vals", I.alloc(st, coll))
    return NONE


def cfg_check(I, st, node, b, fi):
    """check_all with empty values checked: required options are present."""
    h = st.heap[b["self"]]
    path = h.fields.get("path", NONE)
    I.event(st, "config.check_all", (path,), {
        "self": b["self"], "empty": b.get("check_empty", KTRUE)}, node)
    fork_cls(I, st, "FileParseError", node, "config.check_all")
    if st.dead():
        return NONE
    ce = b.get("check_empty", KTRUE)
    if ce is KTRUE:
        req = I.find_attr(h.cls, "_required_keys")
        rec = I.coll_of(req, st) if req is not None else None
        rv = h.fields.get("raw_vals")
        c = I.coll_of(rv, st) if rv is not None else None
        if rec is not None and c is not None:
            for p in rec.parts.values():
                if p.vars == ():
                    f, v = E.dict_lookup(I, c, p.key, st)
                    st.pc = AND(st.pc, f)
                    if v is not None and not st.dead():
                        st.pc = AND(st.pc, I.truth(v, st))
    return NONE


def cfg_prompt(I, st, node, b, fi):
    """prompt() supplies every required option that is missing."""
    h = st.heap[b["self"]]
    path = h.fields.get("path", NONE)
    I.event(st, "config.prompt", (path,), {
        "self": b["self"], "raw": h.fields.get("raw_vals", NONE)}, node)
    if st.dead():
        return NONE
    st.setfield(b["self"], "raw_vals", I.alloc(st, HColl("dict", {
        I.newid(): Part((V0,), V0, mk("cfgval", path, V0),
                        atom(mk("cfgkey", path, V0)))})))
    return cfg_check(I, st, node, {"self": b["self"]}, fi)


# ------------------------------------------------------------------ PathsDiff
def pd_coll(I, self_, st, name):
    r = st.heap[self_].fields.get(name)
    return I.coll_of(r, st) if r is not None else HColl("set")


def pd_init(I, st, node, b, fi):
    s = b["self"]
    ref = E.to_coll(I, b["starting_paths"], st, node, "set")
    st.setfield(s, "__base", ref)
    st.setfield(s, "__ren", I.new_coll(st, "set"))
    return NONE


def pd_rename(I, st, node, b, fi):
    s = b["self"]
    ref = st.heap[s].fields["__ren"]
    E.coll_method(I, ref, "update", [b["new_pairs"]], {}, node, st)
    return NONE


def pd_mod(I, st, node, b, fi):
    s = b["self"]
    base, ren = pd_coll(I, s, st, "__base"), pd_coll(I, s, st, "__ren")
    d = {}
    for pid, p in ren.parts.items():
        if p.key.op == "tup" and len(p.key.args) == 2:
            o, n = p.key.args
            c = AND(p.cond, E.member(I, base, o, st), NOT(I.equal(o, n, st)))
            d[I.newid()] = p._replace(cond=c)
        else:
            d[I.newid()] = p
    return I.alloc(st, HColl("set", d))


def pd_res(I, st, node, b, fi):
    s = b["self"]
    base, ren = pd_coll(I, s, st, "__base"), pd_coll(I, s, st, "__ren")
    moved, d = 0, {}
    x = V0
    for p in ren.parts.values():
        vs, k, _, c = E.part_fresh(p)
        if k.op != "tup" or len(k.args) != 2:
            return I.top("rename pairs")
        o, n = k.args
        c2 = AND(c, E.member(I, base, o, st))
        moved = OR(moved, exists(vs, AND(c, I.equal(o, x, st))))
        d[I.newid()] = I.canon_part(Part(vs, n, None, c2))
    out = {I.newid(): Part((V0,), V0, None, AND(
        E.member(I, base, x, st), NOT(moved)))}
    out.update(d)
    return I.alloc(st, HColl("set", out))


def pd_initp(I, st, node, b, fi):
    s = b["self"]
    return I.alloc(st, pd_coll(I, s, st, "__base"))


# --------------------------------------------------------------- selection
def prioritize(I, st, node, b, fi):
    """Some subset of the known files (or directories) is selected."""
    self_ = b["self"]
    isdir = fi.name == "prioritize_dirs"
    prof = st.heap[self_].fields.get("profile", NONE)
    s = K(E.site(I, node))
    f = I.getattr_(prof, "get_paths", node, st)
    r = I.call(f, [], {"directory": KTRUE if isdir else KFALSE}, node, st)
    if st.dead():
        return NONE
    k = E.member(I, I.iter_rec(r, st, node), V0, st)
    I.event(st, fi.name, (b["space_limit"],), {
        "exclude": b.get("exclude", NONE), "site": s, "known": vbool(k)}, node)
    c = AND(k, atom(mk("selected", s, V0)))
    paths = I.new_coll(st, "set", [Part((V0,), V0, None, c)])
    space = mk("space", K(fi.name), b["space_limit"], s)
    m = I.funcs[fi_id(I, fi)].module
    cls = st.frames.get(m.fid, {}).get("SelectedPaths")
    if cls is None or cls.op != "cls":
        return mk("tup", space, paths)
    return I.call(cls, [space, paths], {}, node, st)


def fi_id(I, fi):
    for k, v in I.funcs.items():
        if v is fi:
            return k


PRIMS = {
    ("FilesManager", "prioritize_files"): prioritize,
    ("FilesManager", "prioritize_dirs"): prioritize,
    ("SyncDir", "scan_paths"): scan_paths,
    (None, "scan_tree"): scan_tree,
    (None, "transfer_tree"): transfer_tree,
    (None, "symlink_tree"): symlink_tree,
    (None, "is_unsafe_symlink"): is_unsafe,
    ("ProfileExcludeFile", "matches"): excl_matches,
    ("ProfileExcludeFile", "all_matches"): excl_matches,
    ("SyncDBFile.*", "add_paths"): db_add,
    ("SyncDBFile.*", "add_inflated"): db_add,
    ("SyncDBFile.*", "update_paths"): db_update,
    ("SyncDBFile.*", "rm_paths"): db_rm,
    ("SyncDBFile.*", "get_path_info"): db_info,
    ("SyncDBFile.*", "get_paths"): db_get,
    ("SyncDBFile.*", "increment"): db_update,
    ("SyncDBFile.*", "adjust_all"): db_simple,
    ("SyncDBFile.*", "commit"): db_simple,
    ("SyncDBFile.*", "close"): db_simple,
    ("SyncDBFile.*", "create"): db_create,
    ("SyncDBFile.*", "__init__"): db_init,
    ("ConfigFile", "read"): cfg_read,
    ("ProfileConfigFile", "check_all"): cfg_check,
    ("ProfileConfigFile", "prompt"): cfg_prompt,
    ("PathsDiff", "__init__"): pd_init,
    ("PathsDiff", "rename"): pd_rename,
    ("PathsDiff", "mod_paths"): pd_mod,
    ("PathsDiff", "res_paths"): pd_res,
    ("PathsDiff", "init_paths"): pd_initp,
}
