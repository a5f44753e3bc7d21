"""Abstract semantics of everything outside the repository: built-in
collections, strings, and the standard library calls the sources use."""
import ast
import os
import posixpath

from .terms import *
from . import terms as TM
from .interp import (HColl, HInst, Part, V0, VS, Event, pyclass, collterm,
                     UNBOUND)

# ------------------------------------------------------------------- naming
ALIAS = {
    "os.unlink": "os.remove", "socket.error": "OSError",
    "os.error": "OSError", "IOError": "OSError", "EnvironmentError": "OSError",
    "select.error": "OSError", "shutil.copyfile": "shutil.copyfile",
    "posixpath": "os.path", "sqlite3.dbapi2": "sqlite3",
    "os.path.sep": "os.sep", "posix.remove": "os.remove",
    "functools.lru_cache": "functools.lru_cache",
    "os.getcwdu": "os.getcwd",
}

CONSTS = {
    "os.sep": "/", "os.curdir": ".", "os.pardir": "..", "os.linesep": "\n",
    "os.pathsep": ":", "os.devnull": "/dev/null", "os.W_OK": 2, "os.R_OK": 4,
    "os.X_OK": 1, "os.F_OK": 0, "os.name": "posix",
    "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "string.digits": "0123456789", "socket.AF_UNIX": 1,
    "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz",
    "string.ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "typing.TYPE_CHECKING": False,
}


def canon(name):
    if name in ALIAS:
        return ALIAS[name]
    for k in ("posixpath.",):
        if name.startswith(k):
            return "os.path." + name[len(k):]
    return name


NEVER_NONE = {
    "time.time", "open", "os.scandir", "sqlite3.connect", "socket.socket",
    "json.load", "uuid.uuid4", "threading.Thread", "queue.Queue",
    "subprocess.Popen", "datetime.datetime.now", "io.open", "str", "int",
    "float", "os.stat", "os.lstat", "shutil.disk_usage", "glob.glob",
    "hashlib.sha256", "contextlib.suppress", "os.listdir", "input",
    "tempfile.NamedTemporaryFile", "os.getuid", "os.getpid",
    ".timestamp", ".strftime", ".isoformat", ".astimezone",
    "datetime.datetime.strptime", "datetime.datetime.utcfromtimestamp",
    "datetime.datetime.fromtimestamp", "datetime.datetime.utcnow",
}

# Calls whose result depends only on receiver and arguments.
DETERMINISTIC = {
    "datetime.datetime.strptime", "datetime.datetime.utcfromtimestamp",
    "datetime.datetime.fromtimestamp", "datetime.datetime.fromisoformat",
    "datetime.datetime.combine", "calendar.timegm", "time.strptime",
    "time.strftime", "time.gmtime", "time.localtime", "time.mktime",
}
DET_METHODS = {"timestamp", "replace", "strftime", "isoformat", "astimezone",
               "total_seconds", "timetuple", "utctimetuple", "date"}


def det_root(t):
    """A value built by deterministic calls (or read from the clock)."""
    while t.op == "res" and t.args[0].startswith(".") and t.args[1] and \
            t.args[0][1:] in DET_METHODS:
        t = t.args[1][0]
    return t.op == "res" and (t.args[0] in DETERMINISTIC
                              or t.args[0].startswith("datetime."))

OSE = ("OSError",)
EXC = {
    "os.remove": ("FileNotFoundError", "IsADirectoryError", "PermissionError",
                  "OSError"),
    "os.rmdir": ("FileNotFoundError", "NotADirectoryError", "PermissionError",
                 "OSError"),
    "os.removedirs": ("FileNotFoundError", "OSError"),
    "os.mkdir": ("FileExistsError", "FileNotFoundError", "PermissionError",
                 "OSError"),
    "os.makedirs": ("FileExistsError", "FileNotFoundError", "PermissionError",
                    "OSError"),
    "os.rename": ("FileNotFoundError", "PermissionError", "IsADirectoryError",
                  "NotADirectoryError", "OSError"),
    "os.replace": ("FileNotFoundError", "PermissionError", "IsADirectoryError",
                   "NotADirectoryError", "OSError"),
    "os.symlink": ("FileExistsError", "FileNotFoundError", "PermissionError",
                   "OSError"),
    "os.link": ("FileExistsError", "FileNotFoundError", "OSError"),
    "os.scandir": ("FileNotFoundError", "NotADirectoryError",
                   "PermissionError", "OSError"),
    "os.listdir": ("FileNotFoundError", "NotADirectoryError",
                   "PermissionError", "OSError"),
    "os.stat": ("FileNotFoundError", "PermissionError", "OSError"),
    "os.lstat": ("FileNotFoundError", "PermissionError", "OSError"),
    "os.utime": ("FileNotFoundError", "PermissionError", "OSError"),
    "os.chmod": ("FileNotFoundError", "PermissionError", "OSError"),
    "os.access": (),
    "shutil.rmtree": ("FileNotFoundError", "NotADirectoryError",
                      "PermissionError", "OSError"),
    "shutil.copy": ("FileNotFoundError", "IsADirectoryError",
                    "PermissionError", "OSError"),
    "shutil.copy2": ("FileNotFoundError", "IsADirectoryError",
                     "PermissionError", "OSError"),
    "shutil.copyfile": ("FileNotFoundError", "IsADirectoryError",
                        "PermissionError", "OSError"),
    "shutil.copytree": ("FileNotFoundError", "FileExistsError",
                        "PermissionError", "OSError"),
    "shutil.copystat": ("FileNotFoundError", "PermissionError", "OSError"),
    "shutil.move": ("FileNotFoundError", "PermissionError", "OSError"),
    "shutil.disk_usage": ("FileNotFoundError", "OSError"),
    "open": ("FileNotFoundError", "FileExistsError", "IsADirectoryError",
             "PermissionError", "OSError"),
    "tempfile.NamedTemporaryFile": ("FileNotFoundError", "PermissionError",
                                    "OSError"),
    "tempfile.mkstemp": ("FileNotFoundError", "OSError"),
    "tempfile.mkdtemp": ("FileNotFoundError", "OSError"),
    "json.dump": OSE,
    "json.load": ("json.JSONDecodeError", "ValueError"),
    "json.loads": ("json.JSONDecodeError", "ValueError"),
    "input": ("EOFError", "KeyboardInterrupt"),
    "next": ("StopIteration",),
    "subprocess.Popen": ("FileNotFoundError", "OSError"),
    "subprocess.run": ("FileNotFoundError", "OSError"),
    "sqlite3.connect": ("sqlite3.OperationalError", "sqlite3.Error"),
    "os.path.samefile": ("FileNotFoundError", "OSError"),
    "int": ("ValueError",),
    "float": ("ValueError",),
    "datetime.datetime.strptime": ("ValueError",),
    "os.path.commonpath": ("ValueError",),
    "os.open": ("FileNotFoundError", "FileExistsError", "OSError"),
    "os.getxattr": ("OSError",),
    "os.path.getmtime": ("FileNotFoundError", "OSError"),
    "os.path.getsize": ("FileNotFoundError", "OSError"),
}
MEXC = {
    "bind": ("OSError",), "connect": ("OSError",), "close": ("OSError",),
    "execute": ("sqlite3.IntegrityError", "sqlite3.OperationalError",
                "sqlite3.Error"),
    "executemany": ("sqlite3.IntegrityError", "sqlite3.OperationalError",
                    "sqlite3.Error"),
    "executescript": ("sqlite3.OperationalError", "sqlite3.Error"),
    "commit": ("sqlite3.OperationalError", "sqlite3.Error"),
    "get": ("queue.Empty",), "get_nowait": ("queue.Empty",),
    "wait": ("subprocess.TimeoutExpired",),
    "stat": ("FileNotFoundError", "OSError"),
}

# Calls without effects or results that matter.
QUIET = {
    "print", "sys.exit", "os._exit", "readline.parse_and_bind",
    "readline.set_completer_delims", "readline.set_completer",
    "signal.signal", "atexit.register", "atexit.unregister",
    "textwrap.dedent", "textwrap.wrap", "sys.stdout.flush",
    "sys.stderr.flush", "sys.stdout.isatty", "warnings.warn",
}
PURE = {
    "os.path.isabs", "os.path.splitext", "os.path.split", "os.path.expanduser",
    "os.path.realpath", "os.path.commonpath", "os.path.commonprefix",
    "os.getuid", "os.getpid", "str", "repr", "textwrap.dedent", "round", "abs",
    "hash", "ord", "chr", "hex", "textwrap.wrap", "os.fspath", "format",
    "os.fsencode", "os.fsdecode", "shutil.get_terminal_size", "bytes",
    "int.from_bytes", "re.escape", "divmod", "pow", "os.path.normcase",
    "os.getcwd", "fnmatch.fnmatch", "fnmatch.translate", "math.floor",
    "math.ceil", "os.path.expandvars", "operator.itemgetter",
    "operator.attrgetter", "datetime.timedelta", "datetime.datetime",
    "sys.getfilesystemencoding",
}
TYPES = {"list", "dict", "set", "frozenset", "tuple", "str", "int", "float",
         "bool", "bytes", "object", "collections.deque",
         "collections.OrderedDict", "collections.defaultdict",
         "collections.Counter"}


def typename(v):
    if v.op == "res":
        return v.args[0]
    return v.op


# ------------------------------------------------------------------ strings
_STROPS = {"cat", "pjoin", "norm", "dirname", "basename", "relpath", "str",
           "format", "expanduser", "abspath", "rstripsep", "stem", "extn",
           "env", "join", "upper", "lower", "strip", "slice", "cfgval",
           "realpath"}


def stringy(t):
    if t.op == "k":
        return isinstance(kval(t), str)
    if t.op == "ite":
        return stringy(t.args[1]) or stringy(t.args[2])
    if t.op.startswith("m:"):
        return True
    return t.op in _STROPS


def tostr(v):
    if v.op == "ite":
        return vite(v.args[0], tostr(v.args[1]), tostr(v.args[2]))
    if v.op == "k":
        x = kval(v)
        return K(x if isinstance(x, str) else str(x))
    if stringy(v):
        return v
    if v.op == "choice":
        return v
    return mk("str", v)


def percent_format(I, a, b):
    s = kval(a)
    vals = list(b.args) if b.op == "tup" else [b]
    out, i, n = [], 0, 0
    buf = ""
    while i < len(s):
        if s[i] == "%" and i + 1 < len(s):
            c = s[i + 1]
            if c == "%":
                buf += "%"
                i += 2
                continue
            if c in "sdr" and n < len(vals):
                out.append(K(buf))
                buf = ""
                out.append(tostr(vals[n]))
                n += 1
                i += 2
                continue
            return mk("format", a, *vals)
        buf += s[i]
        i += 1
    out.append(K(buf))
    return cat(*out)


def str_format(recv, args, kw):
    if recv.op != "k":
        return mk("format", recv, *args)
    s = kval(recv)
    import string
    out = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(K(lit))
            if field is None:
                continue
            if spec:
                return mk("format", recv, *args)
            if field == "":
                out.append(tostr(args[auto]))
                auto += 1
            elif field.isdigit():
                out.append(tostr(args[int(field)]))
            elif field in kw:
                out.append(tostr(kw[field]))
            else:
                return mk("format", recv, *args)
    except (IndexError, ValueError):
        return mk("format", recv, *args)
    return cat(*out)


# -------------------------------------------------------------- collections
def part_fresh(p):
    m = {v: fresh("q") for v in p.vars}
    if not m:
        return p.vars, p.key, p.val, p.cond
    return (tuple(m[v] for v in p.vars), subst(p.key, m),
            subst(p.val, m) if p.val is not None else None, bsubst(p.cond, m))


def member(I, rec, x, st):
    r = 0
    x = I.snap(x, st)
    for p in rec.parts.values():
        if p.vars == (V0,) and p.key is V0:
            r = OR(r, bsubst(p.cond, {V0: x}))
        elif p.vars == ():
            r = OR(r, AND(p.cond, I.equal(p.key, x, st)))
        else:
            vs, k, _, c = part_fresh(p)
            r = OR(r, exists(vs, AND(c, I.equal(k, x, st))))
    return r


def nonempty(I, rec):
    r = 0
    for p in rec.parts.values():
        if p.vars == ():
            r = OR(r, p.cond)
        else:
            vs, k, _, c = part_fresh(p)
            r = OR(r, exists(vs, c))
    return r


def _plain(p):
    return p._replace(val=None) if p.val is not None else p


def set_union(I, a, b, st):
    d = {}
    for c in (a, b):
        for p in c.parts.values():
            d[I.newid()] = _plain(p)
    return HColl("set", I.merge_bare(d), {})


def filter_coll(I, a, fn, kind="set"):
    """Parts of a restricted by fn(key) -> BDD (may mention part vars)."""
    d = {}
    for p in a.parts.values():
        c = AND(p.cond, fn(p.key))
        if c != 0:
            d[I.newid()] = Part(p.vars, p.key, None if kind == "set" else p.val, c)
    return HColl(kind, d, {})


def set_inter(I, a, b, st):
    # Prefer the operand whose parts are bare.
    def bare(c):
        return all(p.key is V0 or p.vars == () for p in c.parts.values())
    if not bare(a) and bare(b):
        a, b = b, a
    return filter_coll(I, a, lambda k: member(I, b, k, st))


def set_diff(I, a, b, st):
    return filter_coll(I, a, lambda k: NOT(member(I, b, k, st)))


def map_coll(I, st, rec, fn, node, kind="list"):
    """fn(elem, state) -> (key, val, cond) for every element."""
    out = {}
    for pid, p in list(rec.parts.items()):
        m = {v: fresh("x") for v in p.vars}
        a = st.copy()
        a.pc = AND(st.pc, bsubst(p.cond, m) if m else p.cond)
        if a.dead():
            continue
        xs = tuple(m[v] for v in p.vars)
        I.loops.append(("m%d" % getattr(node, "lineno", 0), xs, node, rec))
        r = fn(subst(p.key, m) if m else p.key, a)
        I.loops.pop()
        for ref, o in a.heap.items():
            if ref not in st.heap:
                st.heap[ref] = o
        for fid, f2 in a.frames.items():
            if fid not in st.frames:
                st.frames[fid] = f2
        if r is None or a.dead():
            continue
        key, val, cond = r
        cond = AND(simplify(a.pc, st.pc), cond)
        if cond == 0:
            continue
        out[pid] = I.canon_part(Part(xs, key, val, cond))
    return HColl(kind, out, {})


def to_coll(I, v, st, node, kind):
    rec = I.iter_rec(v, st, node)
    parts = {}
    for pid, p in rec.parts.items():
        parts[pid] = _plain(p)
    meta = {}
    if kind == "set":
        parts = I.merge_bare(parts)
    else:
        for k in ("order", "sorts"):
            if rec.meta.get(k) is not None:
                meta[k] = rec.meta[k]
        meta["align"] = rec.meta.get("align") if rec.kind in ("list", "gen") \
            and rec.meta.get("align") else ("a", I.newid())
    if rec.meta.get("src"):
        meta["src"] = rec.meta["src"]
    return I.alloc(st, HColl(kind, parts, meta))


def dict_lookup(I, rec, k, st):
    """(found BDD, value term) for key k."""
    found, val = 0, None
    k = I.snap(k, st)
    if k.op == "ite":
        f1, v1 = dict_lookup(I, rec, k.args[1], st)
        f2, v2 = dict_lookup(I, rec, k.args[2], st)
        f = ite(k.args[0], f1, f2)
        if v1 is None or v2 is None:
            return f, v1 or v2
        return f, vite(k.args[0], v1, v2)
    # Later definite parts win.
    for p in rec.parts.values():
        if p.vars == (V0,) and p.key is V0:
            c = bsubst(p.cond, {V0: k})
            v = subst(p.val, {V0: k}) if p.val is not None else mk("valof", k)
        elif p.vars == ():
            c = AND(p.cond, I.equal(p.key, k, st))
            v = p.val if p.val is not None else mk("valof", k)
        elif p.key is V0:
            vs, kk, vv, cc = part_fresh(p)
            m = {vs[0]: k}
            c0 = bsubst(cc, m)
            v = subst(vv, m) if vv is not None else mk("valof", k)
            c = exists(vs[1:], c0)
        else:
            vs, kk, vv, cc = part_fresh(p)
            c = exists(vs, AND(cc, I.equal(kk, k, st)))
            v = mk("valof", k, vv if vv is not None else NONE)
        if c == 0:
            continue
        val = v if val is None else vite(c, v, val)
        found = OR(found, c)
    return found, val


def index(I, o, k, node, st):
    if st.dead():
        return NONE
    if o.op == "ref":
        h = st.heap.get(o)
        if isinstance(h, HInst):
            g = I.find_attr(h.cls, "__getitem__")
            if g is not None:
                return I.call(mk("bound", g, o), [k], {}, node, st)
            store = h.fields.get("__store")
            if store is not None:
                c = st.heap.get(store)
                found, val = dict_lookup(I, c, k, st)
                miss = I.find_attr(h.cls, "__missing__")
                if found == 1 or miss is None:
                    return val if val is not None else mk("idx", o, k)
                s2, s1 = st.copy(), st.copy()
                s1.pc, s2.pc = AND(st.pc, found), AND(st.pc, NOT(found))
                mv = NONE
                if not s2.dead():
                    mv = I.call(mk("bound", miss, o), [k], {}, node, s2)
                if s1.dead() or val is None:
                    st.assign(s2)
                    return mv
                I.join_into(st, [s1, s2])
                return vite(found, val, mv)
            return mk("idx", o, k)
        if isinstance(h, HColl):
            return coll_index(I, o, h, k, node, st)
    if o.op == "tup" or o.op == "ntup":
        items = o.args if o.op == "tup" else o.args[1]
        if k.op == "k" and isinstance(kval(k), int):
            n = kval(k)
            if -len(items) <= n < len(items):
                return items[n]
        if k.op == "slice":
            r = const_slice(k)
            if r is not None:
                return mk("tup", *list(items)[r])
        return mk("idx", o, k)
    if o.op == "k" and isinstance(kval(o), (str, bytes)):
        if k.op == "k":
            try:
                return K(kval(o)[kval(k)])
            except Exception:
                pass
        r = const_slice(k) if k.op == "slice" else None
        if r is not None:
            return K(kval(o)[r])
    if o.op == "ext":
        # typing subscripts and the like
        return o
    if o.op == "m:partition" or o.op == "m:rpartition":
        return mk("idx", o, k)
    if o is NONE:
        I.missing_attr(o, "__getitem__", node, st, st.pc)
        st.kill()
        return NONE
    if k.op == "slice" and stringy(o):
        return mk("slice", o, k)
    return tidx(o, k)


def tidx(o, k):
    """o[k], where o may be what is left of something after its first items"""
    while o.op == "idx" and o.args[1].op == "slice" and k.op == "k" and \
            isinstance(kval(k), int) and kval(k) >= 0:
        r = const_slice(o.args[1])
        if r is None or r.step not in (None, 1) or (r.start or 0) < 0 or \
                r.stop is not None and r.stop <= (r.start or 0) + kval(k):
            break
        o, k = o.args[0], K((r.start or 0) + kval(k))
    return mk("idx", o, k)


def const_slice(k):
    xs = []
    for a in k.args:
        if a.op == "k" and (kval(a) is None or isinstance(kval(a), int)):
            xs.append(kval(a))
        else:
            return None
    return slice(*xs)


def coll_index(I, o, h, k, node, st):
    if h.kind == "dict":
        found, val = dict_lookup(I, h, k, st)
        fac = h.meta.get("factory")
        if fac is not None and found != 1:
            s2, s1 = st.copy(), st.copy()
            s1.pc, s2.pc = AND(st.pc, found), AND(st.pc, NOT(found))
            mv = NONE
            if not s2.dead():
                mv = I.call(fac, [], {}, node, s2)
                if not s2.dead() and mv.op == "ref":
                    set_item(I, o, k, mv, node, s2)
            if s1.dead() or val is None:
                st.assign(s2)
                return mv
            I.join_into(st, [s1, s2])
            return vite(found, val, mv)
        if found != 1 and not h.meta.get("total"):
            if I.caught("KeyError"):
                s2 = st.copy()
                s2.pc = AND(st.pc, NOT(found))
                if not s2.dead():
                    I.raise_named(s2, "KeyError", node)
                st.pc = AND(st.pc, found)
                if st.dead():
                    return NONE
            elif AND(st.pc, found) == 0:
                I.problem("key", node, "the dictionary has no key %s" %
                          show(k, 3), st)
            elif not any(s.op in ("top", "havoc", "idx", "res", "k")
                         for s in subterms(k)):
                s2 = st.copy()
                s2.pc = AND(st.pc, NOT(found))
                I.problem("maykey", node, "the dictionary may have no key %s" %
                          show(k, 3), s2)
        return val if val is not None else mk("idx", collterm(h), k)
    ps = list(h.parts.values())
    if all(p.vars == () and p.cond == 1 for p in ps):
        if k.op == "k" and isinstance(kval(k), int):
            n = kval(k)
            if -len(ps) <= n < len(ps):
                return ps[n].key
            if I.caught("IndexError"):
                I.raise_named(st, "IndexError", node)
                return NONE
        r = const_slice(k) if k.op == "slice" else None
        if r is not None:
            return I.alloc(st, HColl(h.kind, {
                I.newid(): p for p in ps[r]}, {}))
    if h.meta.get("choices") and k.op == "k":
        return h.meta["choices"](I, st, kval(k))
    if k.op == "pos" and len(k.args) > 1 and kval(k.args[0]) == str(
            h.meta.get("align")):
        # The element at the position of one of a sequence in step with it.
        p = h.parts.get(kval(k.args[1]))
        if p is not None and len(p.vars) == len(k.args) - 2:
            return subst(p.key, dict(zip(p.vars, k.args[2:])))
    if k.op == "slice":
        d = {}
        key = str(I.newid())
        for p in ps:
            d[I.newid()] = p._replace(cond=AND(p.cond, atom(
                mk("insl", key, p.key))))
        return I.alloc(st, HColl(h.kind, d, {}))
    # Some element of the list.
    if len(ps) == 1:
        if ps[0].vars == ():
            return ps[0].key
        vs, kk, _, cc = part_fresh(ps[0])
        return subst(kk, {v: mk("elem", collterm(h), k, v.args[0][:1])
                          for v in vs}) if False else mk("idx", collterm(h), k)
    return mk("idx", collterm(h), k)


def set_item(I, o, k, v, node, st):
    if o.op == "ref":
        h = st.heap.get(o)
        if isinstance(h, HInst):
            g = I.find_attr(h.cls, "__setitem__")
            if g is not None:
                return I.call(mk("bound", g, o), [k, v], {}, node, st)
            store = h.fields.get("__store")
            if store is not None:
                return set_item(I, store, k, v, node, st)
        if isinstance(h, HColl) and h.kind == "dict":
            check_shared(I, h, node, st)
            kk = I.snap(k, st)
            d = {}
            for pid, p in h.parts.items():
                c = AND(p.cond, NOT(I.equal(p.key, kk, st)))
                if c != 0:
                    d[pid] = p._replace(cond=c)
            d[I.newid()] = Part((), kk, v, 1)
            st.heap[o] = HColl("dict", d, h.meta)
            I.event(st, "setitem", (o, kk, v), node=node)
            return NONE
        if isinstance(h, HColl):
            check_shared(I, h, node, st)
            if k.op == "slice" and const_slice(k) == slice(None, None, None):
                rec = I.iter_rec(v, st, node)
                st.heap[o] = HColl(h.kind, dict(rec.parts), dict(rec.meta))
                return NONE
            d = dict(h.parts)
            d[I.newid()] = Part((), v, None, 1)
            st.heap[o] = HColl(h.kind, d, {})
            return NONE
    I.event(st, "setitem", (o, k, v), node=node)
    return NONE


def del_item(I, o, k, node, st):
    if o.op == "ref":
        h = st.heap.get(o)
        if isinstance(h, HInst):
            g = I.find_attr(h.cls, "__delitem__")
            if g is not None:
                return I.call(mk("bound", g, o), [k], {}, node, st)
        if isinstance(h, HColl) and h.kind == "dict":
            check_shared(I, h, node, st)
            d = {pid: p._replace(cond=AND(p.cond, NOT(I.equal(p.key, k, st))))
                 for pid, p in h.parts.items()}
            st.heap[o] = HColl("dict", {a: b for a, b in d.items()
                                        if b.cond != 0}, h.meta)
            I.event(st, "delitem", (o, k), node=node)
            return NONE
    I.event(st, "delitem", (o, k), node=node)
    return NONE


def check_shared(I, h, node, st):
    if h.meta.get("shared") and not I.dry:
        I.problems.append(("sharedmut", I.module, node,
                           "cached result is modified in place",
                           I.curfunc(), st.pc, list(I.stack)))


MUTATORS = {"add", "append", "update", "extend", "remove", "discard", "pop",
            "clear", "sort", "insert", "appendleft", "popleft", "reverse",
            "setdefault", "popitem", "intersection_update",
            "difference_update", "symmetric_difference_update", "extendleft"}


def union_args(I, args, st, node):
    acc = HColl("set", {}, {})
    for a in args:
        acc = set_union(I, acc, I.iter_rec(a, st, node), st)
    return acc


def coll_method(I, ref, name, args, kw, node, st):
    if ref.op == "ntup":
        cls, items = ref.args
        fields = I.classes[cls.args[0]].ntfields or []
        if name == "_replace":
            new = list(items)
            for k, v in kw.items():
                if k in fields:
                    new[fields.index(k)] = v
            return mk("ntup", cls, tuple(new))
        if name == "_asdict":
            return I.new_coll(st, "dict", [Part((), K(f), v, 1)
                                           for f, v in zip(fields, items)])
        return I.top("namedtuple method " + name)
    h = st.heap.get(ref)
    if not isinstance(h, HColl):
        return I.top("method of non-collection")
    if name in MUTATORS:
        check_shared(I, h, node, st)

    def put(parts, kind=None, keep=True):
        meta = dict(h.meta) if keep else {}
        meta.pop("align", None)
        st.heap[ref] = HColl(kind or h.kind, parts, meta)

    if name in ("add", "append", "appendleft", "put", "insert"):
        x = args[-1] if args else NONE
        d = dict(h.parts)
        I.remember(x, st, ref)
        item = Part((), x, None, 1)
        if name in ("appendleft",) or (name == "insert" and args and
                                       args[0] is K(0)):
            d = {I.newid(): item}
            d.update(h.parts)
        else:
            d[I.newid()] = item
        put(d)
        return NONE
    if name in ("update", "extend", "extendleft"):
        d = dict(h.parts)
        for a in args:
            rec = I.iter_rec(a, st, node)
            isdict = h.kind == "dict"
            for p in rec.parts.values():
                if isdict and rec.kind != "dict" and p.key.op == "tup" \
                        and len(p.key.args) == 2:
                    p = Part(p.vars, p.key.args[0], p.key.args[1], p.cond)
                if isdict:
                    for pid in list(d):
                        q = d[pid]
                        if p.vars == ():
                            c = AND(q.cond, NOT(AND(p.cond, I.equal(
                                q.key, p.key, st))))
                            d[pid] = q._replace(cond=c)
                else:
                    p = _plain(p)
                d[I.newid()] = p
        for k, v in kw.items():
            d[I.newid()] = Part((), K(k), v, 1)
        d = {a: b for a, b in d.items() if b.cond != 0}
        if h.kind == "set":
            d = I.merge_bare(d)
        put(d)
        if h.kind == "dict":
            I.event(st, "dictupdate", (ref,) + tuple(args), kw, node)
        return NONE
    if name in ("remove", "discard"):
        x = args[0] if args else NONE
        if name == "remove":
            if not I.caught("KeyError" if h.kind == "set" else "ValueError"):
                there = I.contains(ref, x, st, node)
                s2 = st.copy()
                s2.pc = AND(st.pc, NOT(there))
                if not s2.dead():
                    I.problem("key" if AND(st.pc, there) == 0 else "mayremove",
                              node, "the %s may not contain %s, which is "
                              "removed from it" % (h.kind, show(x, 3)), s2)
            I.fork_excs(st, ("KeyError",) if h.kind == "set" else ("ValueError",),
                        node, "remove")
            if st.dead():
                return NONE
        d = {}
        for pid, p in st.heap[ref].parts.items():
            c = AND(p.cond, NOT(I.equal(p.key, I.snap(x, st), st)))
            if c != 0:
                d[pid] = p._replace(cond=c)
        put(d)
        return NONE
    if name == "clear":
        put({}, keep=True)
        return NONE
    if name == "copy":
        m = dict(h.meta)
        m.pop("shared", None)
        return I.alloc(st, HColl(h.kind, h.parts, m))
    if name in ("__iter__",):
        return ref
    if name in ("__len__",):
        return mk("len", vbool(nonempty(I, h)), collterm(h))
    if name == "__contains__":
        return vbool(I.contains(ref, args[0], st, node))
    if name == "__getitem__":
        return index(I, ref, args[0], node, st)
    if name == "__setitem__":
        return set_item(I, ref, args[0], args[1], node, st)
    if name == "keys":
        return I.alloc(st, HColl("set", {a: _plain(b) for a, b in
                                         h.parts.items()}, {
            "sorts": h.meta["sorts"]} if h.meta.get("sorts") else {}))
    if name == "values":
        d = {}
        for pid, p in h.parts.items():
            d[pid] = I.canon_part(Part(
                p.vars, p.val if p.val is not None else mk("valof", p.key),
                None, p.cond)) if False else Part(
                p.vars, p.val if p.val is not None else mk("valof", p.key),
                None, p.cond)
        return I.alloc(st, HColl("list", d, view_meta(I, h)))
    if name == "items":
        d = {}
        for pid, p in h.parts.items():
            d[pid] = Part(p.vars, mk("tup", p.key, p.val if p.val is not None
                                     else mk("valof", p.key)), None, p.cond)
        return I.alloc(st, HColl("list", d, view_meta(I, h)))
    if name == "get":
        if h.kind == "dict":
            found, val = dict_lookup(I, h, args[0], st)
            dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
            if val is None:
                return dflt
            return vite(found, val, dflt)
        return I.top("get")
    if name == "setdefault":
        found, val = dict_lookup(I, h, args[0], st)
        dflt = args[1] if len(args) > 1 else NONE
        d = dict(h.parts)
        if found != 1:
            d[I.newid()] = Part((), I.snap(args[0], st), dflt, NOT(found))
        put(d)
        return dflt if val is None else vite(found, val, dflt)
    if name in ("union",):
        return I.alloc(st, set_union(I, h, union_args(I, args, st, node), st))
    if name in ("intersection", "intersection_update"):
        acc = h
        for a in args:
            acc = set_inter(I, acc, I.iter_rec(a, st, node), st)
        if name.endswith("_update"):
            put(acc.parts)
            return NONE
        return I.alloc(st, acc)
    if name in ("difference", "difference_update"):
        acc = h
        for a in args:
            rec = I.iter_rec(a, st, node)
            d = {}
            for pid, p in acc.parts.items():
                c = AND(p.cond, NOT(member(I, rec, p.key, st)))
                if c != 0:
                    d[pid] = p._replace(cond=c)
            acc = HColl(acc.kind, d, {})
        if name.endswith("_update"):
            put(acc.parts)
            return NONE
        return I.alloc(st, HColl("set", {a: _plain(b) for a, b in
                                         acc.parts.items()}, {}))
    if name in ("symmetric_difference", "symmetric_difference_update"):
        b = I.iter_rec(args[0], st, node)
        r = set_union(I, set_diff(I, h, b, st), set_diff(I, b, h, st), st)
        if name.endswith("_update"):
            put(r.parts)
            return NONE
        return I.alloc(st, r)
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = I.iter_rec(args[0], st, node)
        if name == "issubset":
            return vbool(NOT(nonempty(I, set_diff(I, h, b, st))))
        if name == "issuperset":
            return vbool(NOT(nonempty(I, set_diff(I, b, h, st))))
        return vbool(NOT(nonempty(I, set_inter(I, h, b, st))))
    if name == "sort":
        st.heap[ref] = sorted_coll(I, h, kw, node, st, h.kind)
        return NONE
    if name == "reverse":
        ps = list(h.parts.items())[::-1]
        m = turned(h.meta)
        m["align"] = ("a", I.newid())
        st.heap[ref] = HColl(h.kind, dict(ps), m)
        return NONE
    if name in ("pop", "popleft", "popitem"):
        ps = list(h.parts.items())
        if h.kind == "dict" and args:
            found, val = dict_lookup(I, h, args[0], st)
            d = {}
            for pid, p in h.parts.items():
                c = AND(p.cond, NOT(I.equal(p.key, I.snap(args[0], st), st)))
                if c != 0:
                    d[pid] = p._replace(cond=c)
            put(d)
            dflt = args[1] if len(args) > 1 else None
            if dflt is not None:
                return dflt if val is None else vite(found, val, dflt)
            return val if val is not None else mk("idx", collterm(h), args[0])
        if ps and all(p.vars == () and p.cond == 1 for _, p in ps) and (
                not args or args[0].op == "k"):
            n = kval(args[0]) if args else (0 if name == "popleft" else -1)
            if isinstance(n, int) and -len(ps) <= n < len(ps):
                pid, p = ps[n]
                put({a: b for a, b in ps if a is not pid})
                return p.key
        x = fresh("pop")
        st.pc = AND(st.pc, member(I, h, x, st))
        if I.dry == 0 or True:
            pass
        d = {}
        for pid, p in h.parts.items():
            d[pid] = p._replace(cond=AND(p.cond, NOT(I.equal(p.key, x, st))))
        put({a: b for a, b in d.items() if b.cond != 0})
        return x
    if name in ("index", "count"):
        return mk("m:" + name, collterm(h), *args)
    if name in ("join",):
        return I.top("join")
    if name == "close":
        return NONE
    if name in ("send", "throw", "__next__"):
        return I.top("generator method")
    if name == "move_to_end":
        return NONE
    if name == "rotate":
        return NONE
    return I.top("collection method " + name)


def view_meta(I, h):
    m = {"align": ("a", I.newid())}
    if h.kind == "dict" and h.meta.get("sorts"):
        m["sorts"] = h.meta["sorts"]
    return m


def turned(meta):
    m = dict(meta)
    if m.get("order") is not None:
        t, rev = m["order"]
        m["order"] = (t, not rev)
    if m.get("sorts"):
        m["sorts"] = tuple((ps, t, not rev) for ps, t, rev in m["sorts"])
    return m


def sorted_coll(I, h, kw, node, st, kind="list"):
    key = kw.get("key", NONE)
    rev = kw.get("reverse", KFALSE)
    parts = {pid: _plain(p) for pid, p in h.parts.items()}
    if key is NONE:
        t = V0
    else:
        s2 = st.copy()
        I.dry += 1
        try:
            t = I.call(key, [V0], {}, node, s2)
        finally:
            I.dry -= 1
    r = kval(rev) if rev.op == "k" else None
    meta = {"order": (t, bool(r)) if r is not None else None,
            "align": ("a", I.newid())}
    if r is not None:
        I.sorted_by.append(t)
        meta["sorts"] = ((tuple(parts.values()), t, bool(r)),) + tuple(
            h.kind != "set" and h.meta.get("sorts") or ())
    if h.meta.get("src"):
        meta["src"] = h.meta["src"]
    if all(p.vars == () and p.cond == 1 and p.key.op == "k"
           for p in parts.values()) and key is NONE and r is not None:
        try:
            items = sorted(parts.items(), key=lambda kv: kval(kv[1].key),
                           reverse=bool(r))
            parts = dict(items)
        except TypeError:
            pass
    return HColl(kind, parts, meta)


# ------------------------------------------------------------- iteration
def iter_term(I, v, st, node):
    if v.op == "res":
        n = v.args[0]
        if n == "os.scandir":
            p = v.args[1][0] if v.args[1] else K(".")
            return HColl("list", {("sd", v.id): Part(
                (V0,), mk("dirent", pjoin(p, V0), V0), None,
                atom(mk("indir", p, V0, v.args[2])))}, {"src": ("scandir", p)})
        if n == "iter2":
            return HColl("list", {("it2", v.id): Part(
                (V0,), V0, None, atom(mk("initer", v, V0)))}, {})
    if v.op == "starargs":
        return HColl("list", {("sa", v.id): Part(
            (V0,), V0, None, atom(mk("initer", v, V0)))}, {})
    if v.op == "dictview":
        pass
    if v is NONE:
        if not I.dry and not I.caught("TypeError"):
            I.problems.append(("noneiter", I.module, node, "iterates over None",
                               I.curfunc(), st.pc, list(I.stack)))
        return HColl("list", {})
    return HColl("list", {("it", v.id): Part(
        (V0,), V0, None, atom(mk("initer", v, V0)))}, {"align": ("it", v.id)})


# ------------------------------------------------------------ attributes
EXT_ATTRS_NONE = ()


def ext_attr(I, o, name):
    full = canon(o.args[0] + "." + name)
    if full in CONSTS:
        return K(CONSTS[full])
    return mk("ext", full)


def kind_atoms(p):
    """(islink, isdir without following)"""
    return atom(mk("islink", p)), atom(mk("kdir", p))


def term_attr(I, o, name, node, st):
    if o.op == "dirent":
        if name == "path":
            return o.args[0]
        if name == "name":
            return o.args[1]
        return mk("tmeth", name, o)
    if o.op == "stat":
        return mk("stat", o.args[0], K(name)) if len(o.args) == 1 else \
            mk("attr", o, K(name))
    if o.op == "pdata":
        return mk("pattr", o, K(name))
    if o.op == "res" and o.args[0] == "shutil.disk_usage":
        return mk("attr", o, K(name))
    if o.op == "super":
        return mk("tmeth", name, o)
    if o.op == "starargs":
        return mk("tmeth", name, o)
    if o.op == "fn":
        if name in ("__name__", "__doc__", "__qualname__"):
            return K(I.funcs[o.args[0]].name)
        return mk("attr", o, K(name))
    return mk("tmeth", name, o)


# ------------------------------------------------------------ term methods
STR_FOLD = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith",
            "endswith", "replace", "title", "capitalize", "isdigit", "count",
            "find", "isalpha", "zfill", "rjust", "ljust", "center", "split",
            "partition", "rpartition", "rsplit", "encode", "isspace",
            "splitlines", "casefold", "removesuffix", "removeprefix", "index"}


def from_py(I, v, st):
    if isinstance(v, tuple):
        return mk("tup", *[from_py(I, x, st) for x in v])
    if isinstance(v, list):
        return I.new_coll(st, "list", [Part((), from_py(I, x, st), None, 1)
                                       for x in v])
    return K(v)


def term_method(I, recv, name, args, kw, node, st):
    if recv.op == "ite":
        return I.fork(recv, st, lambda l, s2: term_method(
            I, l, name, args, kw, node, s2))
    # strings
    if recv.op == "k" and isinstance(kval(recv), (str, bytes)) or \
            name in STR_FOLD and recv.op not in ("res", "dirent", "super") or \
            name in ("join", "format") and recv.op not in ("res", "dirent"):
        return str_method(I, recv, name, args, kw, node, st)
    if recv.op == "dirent":
        p = recv.args[0]
        fs = kw.get("follow_symlinks", args[0] if args else KTRUE)
        link, kd = kind_atoms(p)
        nofollow = fs.op == "k" and not kval(fs)
        if name == "is_symlink":
            return vbool(link)
        if name == "is_dir":
            if nofollow:
                return vbool(AND(kd, NOT(link)))
            return vbool(ite(link, atom(mk("linkdir", p)), kd))
        if name == "is_file":
            if nofollow:
                return vbool(AND(NOT(kd), NOT(link)))
            return vbool(ite(link, atom(mk("linkfile", p)), NOT(kd)))
        if name == "stat":
            I.fork_excs(st, MEXC["stat"], node, "dirent.stat")
            if nofollow:
                return mk("stat", p)
            return mk("stat", mk("target", p))
        if name == "__fspath__":
            return p
        return mk("m:" + name, recv, *args)
    if recv.op == "res" and recv.args[0] == "re.compile":
        pat = recv.args[1][0]
        flags = recv.args[1][1] if len(recv.args[1]) > 1 else K(0)
        return regex_call(I, "re." + name, pat, args, flags, node, st)
    if recv.op == "ext" and name == "fromkeys":
        return I.top("fromkeys")
    if recv.op == "fn" and name in ("__get__",):
        return recv
    if recv.op == "super":
        I.event(st, "super." + name, args, kw, node, recv=recv)
        return I.top("super method")
    # objects from outside the repository
    if name in ("write", "writelines") and args:
        for x in args[0].args if args[0].op == "cat" else args[:1]:
            if isinstance(x, T) and x.op == "jsontext":
                I.event(st, "json.dump", [x.args[0], recv], {}, node,
                        excs=EXC["json.dump"])
                return I.top("write")
    snaps = (recv,) + tuple(I.snap(a, st) for a in args) + tuple(
        mk("kw", K(k), I.snap(v, st)) for k, v in sorted(kw.items()))
    if name in DET_METHODS and det_root(recv):
        res = mk("res", "." + name, snaps, "", ())
    else:
        res = mk("res", "." + name, snaps, site(I, node), loopvars(I))
    excs = MEXC.get(name, ())
    I.event(st, "." + name, args, kw, node, recv=recv, excs=excs, result=res)
    if name in ("isatty", "empty", "is_alive"):
        return vbool(atom(res))
    return res


def str_method(I, recv, name, args, kw, node, st):
    if recv.op == "k" and all(a.op == "k" for a in args) and name in STR_FOLD:
        try:
            return from_py(I, getattr(kval(recv), name)(
                *[kval(a) for a in args]), st)
        except Exception:
            pass
    if name == "format":
        return str_format(recv, args, kw)
    if name in ("startswith", "endswith"):
        a = args[0] if args else NONE
        if a.op == "tup":
            return vbool(OR(*[truth_of(str_method(I, recv, name, [x], {}, node, st))
                              for x in a.args]))
        if recv.op == "cat" and a.op == "k" and name == "startswith" and \
                recv.args[0].op == "k" and isinstance(kval(a), str):
            s, t = kval(recv.args[0]), kval(a)
            if len(s) >= len(t):
                return K(s.startswith(t))
            if not t.startswith(s):
                return KFALSE
        if name == "startswith":
            return vbool(startswith(recv, a))
        return vbool(atom(mk(name, recv, a)))
    if name == "join":
        v = args[0] if args else NONE
        c = I.iter_rec(v, st, node) if args else HColl("list", {})
        ps = list(c.parts.values())
        if ps and all(p.vars == () and p.cond == 1 for p in ps) and len(ps) < 50:
            out = []
            for i, p in enumerate(ps):
                if i:
                    out.append(recv)
                out.append(tostr(p.key))
            return cat(*out)
        if not ps:
            return K("")
        return mk("join", recv, collterm(c))
    if name in ("upper", "lower", "casefold") and recv.op == "choice":
        return recv_choice_map(I, recv, name)
    if name == "rstrip" and args and args[0] is K("/"):
        return mk("rstripsep", recv)
    if name in ("isdigit", "isalpha", "isspace", "isidentifier", "isalnum"):
        return vbool(atom(mk("m:" + name, recv)))
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        t = mk("m:" + name, recv, *args)
        if name.endswith("partition"):
            return mk("tup", mk("idx", t, K(0)), mk("idx", t, K(1)),
                      mk("idx", t, K(2)))
        return t
    if name in ("strip", "lstrip", "rstrip", "upper", "lower", "casefold"):
        return mk("m:" + name, recv, *args)
    return mk("m:" + name, recv, *args, *[v for v in kw.values()])


def recv_choice_map(I, recv, name):
    return mk("m:" + name, recv)


def ext_method(I, recv, name, args, kw, node, st):
    """Method inherited from a class outside the repository."""
    if recv.op == "ref":
        h = st.heap.get(recv)
        if isinstance(h, HInst):
            bases = [c.args[0] for c in I.mro(h.cls) if c.op == "ext"]
            if any(b in ("dict", "collections.defaultdict",
                         "collections.OrderedDict", "collections.UserDict")
                   for b in bases):
                if name == "__init__":
                    store = I.new_coll(st, "dict")
                    st.setfield(recv, "__store", store)
                    fac = args[0] if args else NONE
                    st.setfield(recv, "default_factory", fac)
                    return NONE
                store = st.heap[recv].fields.get("__store")
                if store is None:
                    store = I.new_coll(st, "dict")
                    st.setfield(recv, "__store", store)
                return coll_method(I, store, name, args, kw, node, st)
            if name == "__init__":
                st.setfield(recv, "args", mk("tup", *args))
                I.event(st, "super.__init__", args, kw, node, recv=recv)
                return NONE
            if name == "args":
                return mk("tup", *args)
    I.event(st, "." + name, args, kw, node, recv=recv)
    return mk("res", "." + name, (recv,) + tuple(I.snap(a, st) for a in args),
              site(I, node), loopvars(I))


# ------------------------------------------------------------ external calls
def site(I, node):
    return "%s" % (hash(tuple(s[2] for s in I.stack) + (
        id(node), getattr(I, "salt", 0))) & 0xffffffff)


def loopvars(I):
    out = []
    for l in I.loops:
        out += [x for x in l[1]]
    return tuple(out)


def active_vars(I):
    """Elements of the loops being interpreted."""
    return frozenset(loopvars(I)) | {V0}


def obs(I, name, p, node):
    """Observation of the file system at this point."""
    if p.fv & active_vars(I):
        return atom(mk("fs", name, p))
    return atom(mk("fs", name, p, site(I, node), loopvars(I)))


def isinstance_bdd(I, v, cls, st):
    if cls.op == "tup":
        return OR(*[isinstance_bdd(I, v, c, st) for c in cls.args])
    if v.op == "ite":
        return ite(v.args[0], isinstance_bdd(I, v.args[1], cls, st),
                   isinstance_bdd(I, v.args[2], cls, st))
    if v.op in ("ref", "excval", "ntup"):
        h = st.heap.get(v) if v.op == "ref" else None
        if isinstance(h, HColl):
            if cls.op == "ext":
                kinds = {"set": ("set",), "list": ("list",), "dict": ("dict",),
                         "gen": ("types.GeneratorType",)}
                return 1 if cls.args[0] in kinds.get(h.kind, ()) else 0
            return 0
        c = I.class_of(v, st)
        if c.op in ("cls", "ext") and cls.op in ("cls", "ext"):
            return 1 if I.exc_match(c, cls) or cls in I.mro(c) else 0
    if v.op == "k" and cls.op == "ext":
        t = pyclass(cls.args[0])
        if t is not None:
            return 1 if isinstance(kval(v), t) else 0
    if stringy(v) and cls.op == "ext":
        return 1 if cls.args[0] == "str" else 0
    if v is NONE:
        return 0
    return atom(mk("isinstance", v, cls))


def fresh_elem_bool(I, rec, st, want):
    """exists element with truth == want."""
    r = 0
    for p in rec.parts.values():
        vs, k, _, c = part_fresh(p)
        t = I.truth(k, st)
        r = OR(r, exists(vs, AND(c, t if want else NOT(t))))
    return r


def zip_colls(I, st, recs, node):
    toks = [r.meta.get("align") for r in recs]
    if recs and toks[0] is not None and all(t == toks[0] for t in toks):
        d = {}
        for pid, p in recs[0].parts.items():
            qs = [r.parts.get(pid) for r in recs]
            if any(q is None or q.vars != p.vars for q in qs):
                d = None
                break
            d[pid] = Part(p.vars, mk("tup", *[q.key for q in qs]), None,
                          AND(*[q.cond for q in qs]))
        if d is not None:
            meta = {"align": toks[0]}
            o = recs[0].meta.get("order")
            if o is not None:
                meta["zorder"] = o
            return HColl("list", d, meta)
    pl = [list(r.parts.values()) for r in recs]
    if all(all(p.vars == () and p.cond == 1 for p in ps) for ps in pl):
        return HColl("list", {I.newid(): Part((), mk("tup", *[
            p.key for p in row]), None, 1) for row in zip(*pl)}, {})
    # Unaligned: any pair of elements.
    I.note("zip of unrelated sequences")
    n = len(recs)
    d = {}
    if all(len(ps) == 1 for ps in pl):
        keys, conds, vs = [], [], []
        for ps in pl:
            v, k, _, c = part_fresh(ps[0])
            vs += v
            keys.append(k)
            conds.append(c)
        d[I.newid()] = I.canon_part(Part(tuple(vs), mk("tup", *keys), None,
                                         AND(*conds, atom(mk("topzip", mk("tup", *keys))))))
    else:
        d[I.newid()] = Part((V0,), mk("tup", *[mk("idx", V0, K(i))
                                               for i in range(n)]), None,
                            atom(mk("top", "zip", V0)))
    return HColl("list", d, {})


# Functions that do not take None -> the arguments that are looked at.
STRICT = {"int": 1, "float": 1, "open": 1, "len": 1, "sum": 1, "sorted": 1,
          "datetime.datetime.strptime": 2,
          "datetime.datetime.utcfromtimestamp": 1, "re.search": 2,
          "re.match": 2, "re.fullmatch": 2, "re.findall": 2, "re.sub": 3,
          "re.split": 2}
for _k in ("join", "exists", "isfile", "isdir", "islink", "lexists",
           "basename", "dirname", "normpath", "expanduser", "abspath",
           "realpath", "relpath", "samefile", "getmtime", "getsize",
           "isabs", "split", "splitext"):
    STRICT["os.path." + _k] = 9 if _k == "join" else 1
for _k in ("remove", "unlink", "rmdir", "mkdir", "makedirs", "rename",
           "replace", "symlink", "link", "stat", "lstat", "readlink", "utime",
           "access", "chmod"):
    STRICT["os." + _k] = 1
for _k in ("rmtree", "copy", "copy2", "copyfile", "copytree", "copystat",
           "move", "disk_usage"):
    STRICT["shutil." + _k] = 1


def none_args(I, name, args, node, st):
    """Note arguments that can be None where that is an error."""
    if I.dry or I.in_load or st.dead() or I.caught("TypeError"):
        return
    for i, a in enumerate(args[:STRICT[name]]):
        for l, cond in leaves(a):
            if l is NONE:
                f = AND(st.pc, cond)
                if f != 0:
                    I.problems.append((
                        "nonearg", I.module, node,
                        "%s() is called with None" % name, I.curfunc(),
                        AND(f, st.ax), list(I.stack)))


def call_ext(I, name, args, kw, node, st):
    if name in STRICT:
        none_args(I, name, args, node, st)
    if name in I.extprims:
        r = I.extprims[name](I, args, kw, node, st)
        if r is not None:
            return r
    fn = TABLE.get(name)
    if fn is not None:
        r = fn(I, args, kw, node, st)
        if r is not None:
            return r
        if st.dead():
            return NONE
    if name.startswith("typing."):
        return mk("ext", "typing.Any")
    snaps = tuple(I.snap(a, st) for a in args) + tuple(
        mk("kw", K(k), I.snap(v, st)) for k, v in sorted(kw.items()))
    cls = pyclass(name)
    if cls is not None and issubclass(cls, BaseException):
        return mk("res", name, snaps, "", ())
    if name in PURE:
        I.fork_excs(st, EXC.get(name, ()), node, name)
        if name in ("os.path.isabs", "fnmatch.fnmatch"):
            return vbool(atom(mk(name, *snaps)))
        if name in ("str",):
            return tostr(snaps[0]) if snaps else K("")
        if name == "os.path.expanduser":
            return wrap(args[0], "expanduser")
        if name == "os.path.realpath":
            return wrap(args[0], "realpath")
        return mk("pure", name, snaps)
    if name in DETERMINISTIC:
        res = mk("res", name, snaps, "", ())
    else:
        res = mk("res", name, snaps, site(I, node), loopvars(I))
    I.event(st, name, args, kw, node, excs=EXC.get(name, ()), result=res)
    if st.dead():
        return NONE
    return res


def wrap(t, op):
    if t.op == "ite":
        return vite(t.args[0], wrap(t.args[1], op), wrap(t.args[2], op))
    if t is NONE:
        return t
    return mk(op, t)


TABLE = {}


def ext(*names):
    def deco(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return deco


@ext("os.path.join")
def _join(I, args, kw, node, st):
    if len(args) == 1 and args[0].op == "star":
        return I.top("join of unknown")
    return pjoin(*[_fspath(a) for a in args])


def _fspath(a):
    return a.args[0] if a.op == "dirent" else a


@ext("os.path.dirname")
def _dirname(I, args, kw, node, st):
    return dirname(_fspath(args[0]))


@ext("os.path.basename")
def _basename(I, args, kw, node, st):
    return basename(_fspath(args[0]))


@ext("os.path.split")
def _split(I, args, kw, node, st):
    return mk("tup", dirname(args[0]), basename(args[0]))


@ext("os.path.relpath")
def _relpath(I, args, kw, node, st):
    return relpath(_fspath(args[0]), _fspath(
        args[1] if len(args) > 1 else kw.get("start", mk("cwd"))))


@ext("os.path.normpath")
def _norm(I, args, kw, node, st):
    if args[0] is NONE or args[0].op == "ite":
        # normpath(None) raises TypeError; the None arm ends here.
        lv = [(l, c) for l, c in leaves(args[0]) if l is not NONE]
        bad = AND(st.pc, OR(*[c for l, c in leaves(args[0]) if l is NONE]))
        if bad != 0:
            st.pc = AND(st.pc, NOT(bad))
            if st.dead():
                return NONE
            v = lv[-1][0]
            for l, c in lv[:-1]:
                v = vite(c, l, v)
            return norm(v)
    return norm(_fspath(args[0]))


@ext("os.path.abspath")
def _abspath(I, args, kw, node, st):
    a = _fspath(args[0])
    if a.op == "k":
        return norm(a) if kval(a).startswith("/") else mk("abspath", a)
    return wrap(a, "abspath")


@ext("os.path.splitext")
def _splitext(I, args, kw, node, st):
    a = args[0]
    if a.op == "k":
        x, y = posixpath.splitext(kval(a))
        return mk("tup", K(x), K(y))
    return mk("tup", mk("stem", a), mk("extn", a))


@ext("os.path.commonpath")
def _commonpath(I, args, kw, node, st):
    v = args[0]
    rec = I.iter_rec(v, st, node)
    ps = list(rec.parts.values())
    if all(p.vars == () and p.cond == 1 for p in ps) and len(ps) == 2:
        a, b = ps[0].key, ps[1].key
        return mk("commonpath", *sorted((a, b), key=lambda t: t.id))
    return mk("pure", "os.path.commonpath", (collterm(rec),))


@ext("os.path.isdir", "os.path.isfile", "os.path.exists", "os.path.lexists",
     "os.path.islink", "os.path.ismount")
def _observe(I, args, kw, node, st):
    raise AssertionError


def _mkobs(kind):
    def f(I, args, kw, node, st):
        p = _fspath(args[0])
        if p.op == "ite":
            a = f(I, [p.args[1]], kw, node, st)
            b = f(I, [p.args[2]], kw, node, st)
            return vite(p.args[0], a, b)
        if p is NONE or (p.op == "k" and not isinstance(kval(p), str)):
            return KFALSE
        link, kd = kind_atoms(p)
        if kind == "islink":
            r = link
        elif kind == "isdir" and p.fv & active_vars(I):
            r = ite(link, atom(mk("linkdir", p)), kd)
        elif kind == "isfile" and p.fv & active_vars(I):
            r = AND(obs(I, "exists", p, node), ite(
                link, atom(mk("linkfile", p)), NOT(kd)))
        else:
            r = obs(I, kind, p, node)
        I.event(st, "os.path." + kind, args, kw, node, result=vbool(r))
        return vbool(r)
    return f


for _k in ("isdir", "isfile", "exists", "lexists", "islink", "ismount"):
    TABLE["os.path." + _k] = _mkobs(_k)


@ext("os.access", "os.path.samefile")
def _access(I, args, kw, node, st):
    I.fork_excs(st, ("FileNotFoundError",) if False else (), node, "access")
    return vbool(atom(mk("fs", "access", mk("tup", *[
        I.snap(a, st) for a in args]), site(I, node), loopvars(I))))


@ext("os.readlink")
def _readlink(I, args, kw, node, st):
    p = _fspath(args[0])
    link = atom(mk("islink", p))
    if I.caught("OSError"):
        s2 = st.copy()
        s2.pc = AND(st.pc, NOT(link))
        if not s2.dead():
            I.raise_named(s2, "OSError", node)
        st.pc = AND(st.pc, link)
        if st.dead():
            return NONE
    I.event(st, "os.readlink", args, kw, node)
    return mk("readlink", p)


@ext("os.getenv", "os.environ.get")
def _getenv(I, args, kw, node, st):
    return mk("env", args[0], *(args[1:2] or [NONE]))


@ext("os.stat", "os.lstat")
def _stat(I, args, kw, node, st):
    raise AssertionError


def _mkstat(nm):
    def f(I, args, kw, node, st):
        p = _fspath(args[0])
        fs = kw.get("follow_symlinks", KTRUE)
        I.event(st, nm, args, kw, node, excs=EXC[nm])
        if nm == "os.lstat" or (fs.op == "k" and not kval(fs)):
            return mk("stat", p)
        return mk("stat", mk("target", p))
    return f


TABLE["os.stat"] = _mkstat("os.stat")
TABLE["os.lstat"] = _mkstat("os.lstat")


@ext("os.path.getmtime", "os.path.getsize")
def _getm(I, args, kw, node, st):
    I.fork_excs(st, ("FileNotFoundError", "OSError"), node, "getmtime")
    return mk("stat", mk("target", _fspath(args[0])), K("st_mtime"))


@ext("os.listdir")
def _listdir(I, args, kw, node, st):
    p = _fspath(args[0]) if args else K(".")
    s = site(I, node)
    I.event(st, "os.listdir", args, kw, node, excs=EXC["os.listdir"])
    if st.dead():
        return NONE
    return I.new_coll(st, "list", [Part((V0,), V0, None,
                                        atom(mk("indir", p, V0, s)))],
                      src=("scandir", p))


@ext("os.scandir")
def _scandir(I, args, kw, node, st):
    p = _fspath(args[0]) if args else K(".")
    s = site(I, node)
    r = mk("res", "os.scandir", (p,), s, ())
    I.event(st, "os.scandir", (p,), kw, node, excs=EXC["os.scandir"], result=r)
    return r


@ext("os.walk")
def _walk(I, args, kw, node, st):
    I.event(st, "os.walk", args, kw, node)
    return I.top("os.walk")


@ext("isinstance")
def _isinstance(I, args, kw, node, st):
    return vbool(isinstance_bdd(I, args[0], args[1], st))


@ext("issubclass")
def _issubclass(I, args, kw, node, st):
    return vbool(1 if I.exc_match(args[0], args[1]) else 0)


@ext("type")
def _type(I, args, kw, node, st):
    if len(args) == 1:
        c = I.class_of(args[0], st)
        if c.op != "top":
            return c
        return mk("typeof", args[0])
    return I.top("type()")


@ext("len")
def _len(I, args, kw, node, st):
    v = args[0]
    if v.op == "k":
        try:
            return K(len(kval(v)))
        except TypeError:
            pass
    if v.op == "tup":
        return K(len(v.args))
    if v.op == "ntup":
        return K(len(v.args[1]))
    c = I.coll_of(v, st)
    if c is None and v.op == "ref" and isinstance(st.heap.get(v), HInst):
        f = I.find_attr(st.heap[v].cls, "__len__")
        if f is not None:
            return I.call(mk("bound", f, v), [], {}, node, st)
        store = st.heap[v].fields.get("__store")
        if store is not None:
            c = st.heap[store]
    if c is not None:
        ps = list(c.parts.values())
        if all(p.vars == () and p.cond == 1 for p in ps) and c.kind == "list":
            return K(len(ps))
        return mk("len", vbool(nonempty(I, c)), collterm(c))
    return mk("len", vbool(I.truth(v, st)), v)


@ext("list", "collections.deque")
def _list(I, args, kw, node, st):
    if not args:
        return I.new_coll(st, "list")
    return to_coll(I, args[0], st, node, "list")


@ext("tuple")
def _tuple(I, args, kw, node, st):
    if not args:
        return mk("tup")
    if args[0].op == "tup":
        return args[0]
    rec = I.iter_rec(args[0], st, node)
    ps = list(rec.parts.values())
    if all(p.vars == () and p.cond == 1 for p in ps):
        return mk("tup", *[p.key for p in ps])
    return I.alloc(st, HColl("list", {a: _plain(b) for a, b in
                                      rec.parts.items()}, dict(rec.meta)))


@ext("set", "frozenset")
def _set(I, args, kw, node, st):
    if not args:
        return I.new_coll(st, "set")
    return to_coll(I, args[0], st, node, "set")


@ext("iter")
def _iter(I, args, kw, node, st):
    if len(args) == 2:
        return mk("res", "iter2", (args[0], I.snap(args[1], st)),
                  site(I, node), loopvars(I))
    if args[0].op == "ref" and isinstance(st.heap.get(args[0]), HColl):
        h = st.heap[args[0]]
        if h.kind == "gen":
            return args[0]
        return I.alloc(st, HColl("gen", {a: _plain(b) for a, b in
                                         h.parts.items()}, dict(h.meta)))
    return args[0]


@ext("next")
def _next(I, args, kw, node, st):
    v = args[0]
    c = I.coll_of(v, st)
    if c is None:
        return mk("res", "next", (v,), site(I, node), loopvars(I))
    if c.meta.get("inf"):
        # An endless iterator: it goes on until there is an element.
        t = mk("phi", "next", site(I, node), *loopvars(I))
        cond = 0
        for p in c.parts.values():
            vs, k, _, cc = part_fresh(p)
            if k is t or k.op == "k":
                cc = AND(cc, eq(t, k))
            else:
                cc = assign(cc, {k: t})
            cond = OR(cond, exists(vs, cc))
        st.ax = AND(st.ax, cond)
        return t
    ne = nonempty(I, c)
    dflt = args[1] if len(args) > 1 else None
    x = fresh("nx")
    picks = []
    cond = 0
    val = None
    for p in c.parts.values():
        vs, k, _, cc = part_fresh(p)
        val = k if val is None else vite(cc, k, val)
        cond = OR(cond, cc)
    if dflt is not None:
        if val is None:
            return dflt
        return vite(ne, val, dflt)
    if I.caught("StopIteration"):
        s2 = st.copy()
        s2.pc = AND(st.pc, NOT(ne))
        if not s2.dead():
            I.raise_named(s2, "StopIteration", node)
    st.pc = AND(st.pc, ne, cond)
    return val if val is not None else NONE


@ext("dict", "collections.OrderedDict")
def _dict(I, args, kw, node, st):
    parts = []
    if args:
        rec = I.iter_rec(args[0], st, node)
        for p in rec.parts.values():
            if rec.kind == "dict":
                parts.append(p)
            elif p.key.op == "tup" and len(p.key.args) == 2:
                q = Part(p.vars, p.key.args[0], p.key.args[1], p.cond)
                parts.append(I.canon_part(q))
            else:
                parts.append(Part(p.vars, mk("idx", p.key, K(0)),
                                  mk("idx", p.key, K(1)), p.cond))
    for k, v in kw.items():
        parts.append(Part((), K(k), v, 1))
    return I.new_coll(st, "dict", parts)


@ext("collections.defaultdict")
def _defaultdict(I, args, kw, node, st):
    r = I.new_coll(st, "dict")
    if args and args[0] is not NONE:
        h = st.heap[r]
        st.heap[r] = HColl("dict", h.parts, {"factory": args[0]})
    return r


@ext("collections.Counter")
def _counter(I, args, kw, node, st):
    return I.top("Counter")


@ext("sorted")
def _sorted(I, args, kw, node, st):
    rec = I.iter_rec(args[0], st, node)
    return I.alloc(st, sorted_coll(I, rec, kw, node, st))


@ext("reversed")
def _reversed(I, args, kw, node, st):
    rec = I.iter_rec(args[0], st, node)
    m = turned(rec.meta)
    m["align"] = ("a", I.newid())
    return I.alloc(st, HColl("list", dict(list(rec.parts.items())[::-1]), m))


def position(rec, pid, p):
    """The index of an element of a part, as a term."""
    a = rec.meta.get("align")
    return mk("pos", p.key) if a is None else mk(
        "pos", K(str(a)), K(pid), *p.vars)


def in_step(rec):
    """What is known of a sequence made of one for each element of another."""
    m = {"align": rec.meta.get("align")}
    o = rec.meta.get("order") or rec.meta.get("zorder")
    if o is not None:
        m["zorder"] = o
    return m


@ext("enumerate")
def _enumerate(I, args, kw, node, st):
    rec = I.iter_rec(args[0], st, node)
    d = {}
    for i, (pid, p) in enumerate(rec.parts.items()):
        n = K(i) if p.vars == () and all(
            q.vars == () for q in rec.parts.values()) and len(args) == 1 \
            else position(rec, pid, p) if len(args) == 1 \
            else mk("pos", p.key)
        d[pid] = Part(p.vars, mk("tup", n, p.key), None, p.cond)
    m = in_step(rec)
    if rec.meta.get("inf"):
        m["inf"] = True
    return I.alloc(st, HColl("list", d, m))


@ext("zip")
def _zip(I, args, kw, node, st):
    if any(a.op == "star" for a in args):
        return I.top("zip(*)")
    recs = [I.iter_rec(a, st, node) for a in args]
    return I.alloc(st, zip_colls(I, st, recs, node))


@ext("map")
def _map(I, args, kw, node, st):
    if len(args) != 2:
        return I.top("map")
    rec = I.iter_rec(args[1], st, node)
    f = args[0]
    c = map_coll(I, st, rec, lambda x, s: (I.call(f, [x], {}, node, s), None, 1),
                 node, "gen")
    if rec.meta.get("align"):
        c = HColl(c.kind, c.parts, {"align": rec.meta["align"]})
    return I.alloc(st, endless(c, rec))


def endless(c, rec):
    if rec.meta.get("inf"):
        c = HColl(c.kind, c.parts, dict(c.meta, inf=True))
    return c


@ext("itertools.count", "itertools.cycle", "itertools.repeat")
def _endless(I, args, kw, node, st):
    if isinstance(node, ast.Call) and ast.unparse(node.func).endswith("cycle"):
        rec = I.iter_rec(args[0], st, node)
        return I.alloc(st, HColl("gen", {
            I.newid(): _plain(p) for p in rec.parts.values()}, {"inf": True}))
    if isinstance(node, ast.Call) and ast.unparse(node.func).endswith("repeat"):
        return I.alloc(st, HColl("gen", {I.newid(): Part(
            (), args[0], None, 1)}, {} if args[1:] or kw else {"inf": True}))
    return I.alloc(st, HColl("gen", {I.newid(): Part(
        (V0,), V0, None, atom(mk("counted", V0, site(I, node))))},
        {"inf": True}))


@ext("filter")
def _filter(I, args, kw, node, st):
    rec = I.iter_rec(args[1], st, node)
    f = args[0]

    def one(x, s):
        t = I.truth(x if f is NONE else I.call(f, [x], {}, node, s), s)
        return (x, None, t)
    return I.alloc(st, endless(map_coll(I, st, rec, one, node, "gen"), rec))


@ext("itertools.filterfalse")
def _filterfalse(I, args, kw, node, st):
    rec = I.iter_rec(args[1], st, node)
    f = args[0]

    def one(x, s):
        t = I.truth(x if f is NONE else I.call(f, [x], {}, node, s), s)
        return (x, None, NOT(t))
    return I.alloc(st, endless(map_coll(I, st, rec, one, node, "gen"), rec))


@ext("itertools.chain")
def _chain(I, args, kw, node, st):
    d, inf = {}, False
    for a in args:
        if a.op == "star":
            return I.top("chain(*)")
        rec = I.iter_rec(a, st, node)
        inf = inf or bool(rec.meta.get("inf"))
        for p in rec.parts.values():
            d[I.newid()] = _plain(p)
    return I.alloc(st, HColl("gen", d, {"inf": True} if inf else {}))


@ext("itertools.chain.from_iterable")
def _chainfi(I, args, kw, node, st):
    outer = I.iter_rec(args[0], st, node)
    d = {}
    for p in outer.parts.values():
        vs, k, _, c = part_fresh(p)
        a = st.copy()
        a.pc = AND(st.pc, c)
        inner = I.iter_rec(k, a, node)
        for q in inner.parts.values():
            ws, kk, _, cc = part_fresh(q)
            d[I.newid()] = I.canon_part(Part(vs + ws, kk, None, AND(c, cc)))
    return I.alloc(st, HColl("gen", d, {}))


@ext("any")
def _any(I, args, kw, node, st):
    rec = I.iter_rec(args[0], st, node)
    return vbool(fresh_elem_bool(I, rec, st, True))


@ext("all")
def _all(I, args, kw, node, st):
    rec = I.iter_rec(args[0], st, node)
    return vbool(NOT(fresh_elem_bool(I, rec, st, False)))


@ext("bool")
def _bool(I, args, kw, node, st):
    return vbool(I.truth(args[0], st)) if args else KFALSE


@ext("sum", "min", "max")
def _agg(I, args, kw, node, st):
    raise AssertionError


def _mkagg(nm):
    def f(I, args, kw, node, st):
        if len(args) > 1 and nm in ("min", "max"):
            if all(a.op == "k" for a in args):
                try:
                    return K({"min": min, "max": max}[nm](kval(a) for a in args))
                except TypeError:
                    pass
            return mk(nm, *[I.snap(a, st) for a in args])
        rec = I.iter_rec(args[0], st, node)
        return mk(nm, collterm(rec), *args[1:])
    return f


for _k in ("sum", "min", "max"):
    TABLE[_k] = _mkagg(_k)


@ext("range")
def _range(I, args, kw, node, st):
    if all(a.op == "k" and isinstance(kval(a), int) for a in args):
        r = range(*[kval(a) for a in args])
        if len(r) <= 16:
            return I.new_coll(st, "list", [Part((), K(i), None, 1) for i in r])
    if len(args) == 1 and args[0].op == "len" and isinstance(
            node, ast.Call) and isinstance(node.args[0], ast.Call) and \
            len(node.args[0].args) == 1 and isinstance(
            node.args[0].args[0], (ast.Name, ast.Attribute)):
        # The positions of a sequence.
        o = I.eval(node.args[0].args[0], st)
        h = st.heap.get(o) if o.op == "ref" else None
        if isinstance(h, HColl) and h.meta.get("align") is not None and \
                args[0].args[-1] is collterm(h):
            return I.alloc(st, HColl("list", {
                pid: Part(p.vars, position(h, pid, p), None, p.cond)
                for pid, p in h.parts.items()}, in_step(h)))
    return I.new_coll(st, "list", [Part((V0,), V0, None, atom(
        mk("inrange", mk("tup", *args), V0)))])


@ext("getattr")
def _getattr(I, args, kw, node, st):
    if args[1].op == "k":
        o, n = args[0], kval(args[1])
        if len(args) > 2 and o.op == "ref" and isinstance(st.heap.get(o), HInst):
            h = st.heap[o]
            v = h.fields.get(n)
            if (v is None or v is UNBOUND) and I.find_attr(h.cls, n) is None:
                return args[2]
        return I.fork(o, st, lambda l, s2: I.getattr_(l, n, node, s2))
    return I.top("getattr")


@ext("hasattr")
def _hasattr(I, args, kw, node, st):
    o = args[0]
    if args[1].op == "k" and o.op == "ref" and isinstance(st.heap.get(o), HInst):
        h = st.heap[o]
        v = h.fields.get(kval(args[1]))
        if v is None:
            return K(I.find_attr(h.cls, kval(args[1])) is not None)
        return vbool(NOT(I.unbound_cond(v)))
    if o is NONE:
        return KFALSE
    return vbool(atom(mk("hasattr", o, args[1])))


@ext("setattr")
def _setattr(I, args, kw, node, st):
    if args[1].op == "k":
        I.fork(args[0], st, lambda l, s2: I.setattr_(
            l, kval(args[1]), args[2], node, s2))
        return NONE
    return I.top("setattr")


@ext("callable")
def _callable(I, args, kw, node, st):
    return K(args[0].op in ("fn", "bound", "cls", "ext"))


@ext("id", "vars", "dir", "globals", "locals")
def _idf(I, args, kw, node, st):
    return I.top("introspection")


def fork_conv(I, st, name, a):
    """A conversion fails for all occurrences of a value or for none."""
    if st.dead() or not I.caught("ValueError"):
        return
    x = atom(mk("exc", "ValueError", name, I.snap(a, st)))
    s2 = st.copy()
    s2.pc = AND(st.pc, x)
    if not s2.dead():
        I.raise_sinks[-1].append((mk("ext", "ValueError"),
                                  mk("excval", "ValueError"), s2))
    st.pc = AND(st.pc, NOT(x))


def either(I, a, st, f):
    """f of the value of a conditional, each under its condition."""
    pc = st.pc
    st.pc = AND(pc, a.args[0])
    x = f(a.args[1])
    p1 = st.pc
    st.pc = AND(pc, NOT(a.args[0]))
    y = f(a.args[2])
    st.pc = OR(p1, st.pc)
    return vite(a.args[0], x, y)


@ext("int")
def _int(I, args, kw, node, st):
    a = args[0] if args else K(0)
    if a.op == "k":
        try:
            return K(int(kval(a)))
        except Exception:
            pass
    if a.op == "ite":
        return either(I, a, st, lambda x: _int(I, [x], kw, node, st))
    fork_conv(I, st, "int", a)
    if not I.dry and not st.dead():
        I.event(st, "int", args, kw, node)
    return mk("int", I.snap(a, st))


@ext("float")
def _float(I, args, kw, node, st):
    a = args[0] if args else K(0.0)
    if a.op == "k":
        try:
            return K(float(kval(a)))
        except Exception:
            pass
    if a.op == "ite":
        return either(I, a, st, lambda x: _float(I, [x], kw, node, st))
    fork_conv(I, st, "float", a)
    if not I.dry and not st.dead():
        I.event(st, "float", args, kw, node)
    return mk("float", I.snap(a, st))


@ext("property", "functools.cached_property")
def _property(I, args, kw, node, st):
    return mk("prop", args[0], args[1] if len(args) > 1 else
              kw.get("fset", NONE))


@ext("staticmethod")
def _static(I, args, kw, node, st):
    return mk("static", args[0])


@ext("classmethod")
def _clsm(I, args, kw, node, st):
    return mk("clsm", args[0])


@ext("contextlib.contextmanager")
def _ctxm(I, args, kw, node, st):
    return mk("ctxm", args[0])


@ext("functools.wraps", "functools.update_wrapper")
def _wraps(I, args, kw, node, st):
    return mk("identity")


@ext("functools.lru_cache", "functools.cache", "functools.singledispatch")
def _lru(I, args, kw, node, st):
    if args and args[0].op in ("fn",):
        return args[0]
    return mk("identity")


@ext("abc.abstractmethod", "atexit.register_", "typing.no_type_check",
     "typing.overload", "staticmethod_", "dataclasses.dataclass_")
def _ident(I, args, kw, node, st):
    return args[0]


@ext("functools.partial")
def _partial(I, args, kw, node, st):
    return mk("partial", args[0], tuple(args[1:]),
              tuple(sorted(kw.items(), key=lambda kv: kv[0])))


@ext("typing.cast")
def _cast(I, args, kw, node, st):
    return args[1]


@ext("typing.NamedTuple", "collections.namedtuple")
def _nt(I, args, kw, node, st):
    from .interp import ClassInfo
    fields = []
    if len(args) > 1:
        rec = args[1]
        if rec.op == "k":
            fields = kval(rec).replace(",", " ").split()
        else:
            for p in I.iter_rec(rec, st, node).parts.values():
                k = p.key
                if k.op == "tup":
                    k = k.args[0]
                fields.append(kval(k))
    nm = kval(args[0]) if args and args[0].op == "k" else "tuple"
    ci = ClassInfo(nm, nm, I.module, [], {}, node)
    ci.ntfields = fields
    i = I.newid()
    I.classes[i] = ci
    return mk("cls", i)


@ext("contextlib.suppress")
def _suppress(I, args, kw, node, st):
    return mk("res", "contextlib.suppress", tuple(args), site(I, node), ())


@ext("contextlib.closing")
def _closing(I, args, kw, node, st):
    return args[0]


@ext("copy.copy", "copy.deepcopy")
def _copy(I, args, kw, node, st):
    v = args[0]
    if v.op != "ref":
        return v
    h = st.heap.get(v)
    if isinstance(h, HColl):
        m = dict(h.meta)
        m.pop("shared", None)
        return I.alloc(st, HColl(h.kind, h.parts, m))
    if isinstance(h, HInst):
        f = {}
        for n, x in h.fields.items():
            f[n] = _copy(I, [x], {}, node, st) if x.op == "ref" and isinstance(
                st.heap.get(x), HColl) else x
        return I.alloc(st, HInst(h.cls, f))
    return v


@ext("json.load", "json.loads")
def _json(I, args, kw, node, st):
    raise AssertionError


def _mkjson(nm):
    def f(I, args, kw, node, st):
        src = args[0]
        name = nm
        if src.op == "res" and src.args[0] == ".read":
            # The text of a file
            src, name = src.args[1][0], "json.load"
            args = [src]
        s = site(I, node)
        I.event(st, name, args, kw, node, excs=EXC[name])
        if st.dead():
            return NONE
        t = mk("jsondoc", src, s)
        return I.new_coll(st, "dict", [Part(
            (V0,), V0, mk("jsonval", t, V0), atom(mk("jsonhas", t, V0)))],
            json=True)
    return f


@ext("json.dumps")
def _dumps(I, args, kw, node, st):
    return mk("jsontext", _copy(I, args[:1], {}, node, st))


TABLE["json.load"] = _mkjson("json.load")
TABLE["json.loads"] = _mkjson("json.loads")


@ext("glob.glob", "glob.iglob")
def _glob(I, args, kw, node, st):
    rec = kw.get("recursive", KFALSE)
    I.event(st, "glob.glob", args, kw, node)
    return I.new_coll(st, "list" if True else "gen", [Part(
        (V0,), V0, None, atom(mk("globm", args[0], rec, V0)))],
        align=("a", I.newid()))


@rebuilder("rematch")
def rematch(name, pat, s, fl):
    """The match object or None; only its truth is known."""
    if all(t.op == "k" for t in (pat, s, fl)):
        import re
        try:
            m = getattr(re, kval(name)[3:])(kval(pat), kval(s), kval(fl))
        except Exception:
            m = False
        if m is None:
            return NONE
        if m:
            return KTRUE
    return mk("rematch", name, pat, s, fl)


def regex_call(I, name, pat, args, flags, node, st):
    """args without the pattern."""
    s = args[0] if args else NONE
    none_args(I, name, [pat] + list(args), node, st)
    fl = flags
    if name in ("re.search", "re.match", "re.fullmatch"):
        return rematch(K(name), pat, s, fl)
    if name == "re.findall":
        return mk("refindall", pat, s, fl)
    return mk("pure", name, (pat,) + tuple(I.snap(a, st) for a in args) + (fl,))


@ext("re.search", "re.match", "re.fullmatch", "re.findall", "re.sub",
     "re.split", "re.finditer", "re.compile")
def _re(I, args, kw, node, st):
    raise AssertionError


def _mkre(nm):
    def f(I, args, kw, node, st):
        if nm == "re.compile":
            fl = args[1] if len(args) > 1 else kw.get("flags", K(0))
            return mk("res", "re.compile", (args[0], fl), "", ())
        pat = args[0]
        fl = K(0)
        if nm in ("re.sub", "re.split"):
            return mk("pure", nm, tuple(I.snap(a, st) for a in args))
        if pat.op == "res" and pat.args[0] == "re.compile":
            fl = pat.args[1][1]
            pat = pat.args[1][0]
        if len(args) > 2:
            fl = args[2]
        fl = kw.get("flags", fl)
        if nm == "re.compile":
            return mk("res", nm, (pat, fl), "", ())
        I.event(st, nm, args, kw, node)
        return regex_call(I, nm, pat, [args[1]] if len(args) > 1 else [], fl,
                          node, st)
    return f


for _k in ("search", "match", "fullmatch", "findall", "sub", "split",
           "finditer", "compile"):
    TABLE["re." + _k] = _mkre("re." + _k)


@ext("sys.exit", "os._exit", "exit", "quit")
def _exit(I, args, kw, node, st):
    I.event(st, "sys.exit", args, kw, node)
    I.raise_named(st, "SystemExit", node)
    return NONE


@ext("print")
def _print(I, args, kw, node, st):
    I.event(st, "print", args, kw, node)
    return NONE


@ext("textwrap.dedent")
def _dedent(I, args, kw, node, st):
    if args[0].op == "k":
        import textwrap
        return K(textwrap.dedent(kval(args[0])))
    return args[0]


@ext("open", "io.open")
def _open(I, args, kw, node, st):
    mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
    p = _fspath(args[0])
    r = mk("res", "open", (I.snap(p, st), mode), site(I, node), loopvars(I))
    I.event(st, "open", (p, mode), {}, node, excs=EXC["open"], result=r)
    return r


@ext("time.time", "time.monotonic")
def _time(I, args, kw, node, st):
    I.event(st, "time.time", args, kw, node)
    return mk("res", "time.time", (), site(I, node), loopvars(I))


def leave_with(I, x, tn, node, st, ok):
    if x.op == "res" and x.args[0] == "sqlite3.connect" or \
            x.op in ("tmeth",) or tn == "conn":
        I.event(st, "with.commit" if ok else "with.rollback", (x,), node=node)
        return
    I.event(st, "with.exit", (x,), node=node)
