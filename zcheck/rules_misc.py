"""Profile metadata, times, exceptions, command line and daemon."""
import re
from .terms import *
from .model import *
from .vocab import *
from .interp import HInst, HColl
from .prims import PRIMS
from .check import rule

MOD = "zielen.profile"

# ------------------------------------------- P24: the info file is replaced
UNIQUE = ("os.getpid", "uuid.", "tempfile.", "secrets.", "random.", "time.",
          "datetime.", "zielen.utils.secure_string")


def unique_name(t):
    """The name differs from one process to another."""
    return any(x.op in ("res", "pure", "fresh", "havoc", "top") and
               isinstance(x.args[0], str) and
               any(x.args[0].startswith(u) for u in UNIQUE)
               for x in subterms(t))


def is_info(loc):
    return loc.region == "PROFILE" and loc.comps == (K("info.json"),)


def file_at(r, f, src):
    """The file object f was opened at the path src (or src is its name)."""
    for l, _ in leaves(r.c(f)):
        if l.op == "res" and l.args[0] in ("open", "io.open", "os.fdopen") \
                and l.args[1]:
            a = l.args[1][0]
            if a is src or a in subterms(src):
                return True
            # os.fdopen(mkstemp()[0]) and mkstemp()[1]
            if a.op == "idx" and src.op == "idx" and a.args[0] is src.args[0]:
                return True
            if a.op == "res" and a in subterms(src):
                return True
        if l.op == "res" and l.args[0].startswith("tempfile.") and \
                l in subterms(src):
            return True
    return False


def written_file(r, e):
    """The file that the event writes to, or None."""
    if e.name == "json.dump":
        f = e.arg(1, "fp")
    elif e.name in (".write", ".writelines"):
        f = e.recv
    else:
        return None
    return f


def now(r, e, x):
    """x happened before e, not counting earlier rounds of a loop."""
    return bmap(r.canon.b(e.done.get(x.key, 0)),
                lambda a: 0 if a.op == "it" else atom(a))


@rule("P24", "the info file is only ever changed by renaming a complete, closed "
             "file of the same directory, whose name no other process uses, "
             "over it")
def info_replaced(c):
    some = False
    for get in ("sync", "init", "reset", "empty_trash", "list", "daemon"):
        r = c.run(get)
        if r is None:
            continue
        for m in r.muts():
            if not is_info(m.loc):
                continue
            e = m.ev
            w = "%s (%s)" % (e.where(), r.name)
            if m.effect in ("delete", "rmtree") and r.name == "reset":
                c.ok(w, "reset removes the profile")
                continue
            if m.effect == "meta":
                continue
            if not c.require(m.effect == "move-dst", w,
                             "%s of the info file" % m.effect,
                             "the info file itself is changed (%s): it is "
                             "incomplete or missing for a while" % m.effect,
                             "info-" + m.effect, e):
                continue
            some = True
            src = r.c(e.arg(0, "src"))
            tf = [x for x in subterms(src) if x.op == "res" and
                  x.args[0].startswith("tempfile.")]
            if tf:
                tes = [x for x in r.events if x.name == tf[0].args[0] and
                       x.seq < e.seq]
                d = tes[-1].kw.get("dir") if tes else None
                locs = locate(r.c(d)) if d is not None else []
                same = bool(locs) and all(
                    l.region == "PROFILE" and not l.comps for l, _ in locs)
            else:
                same = all(l.region == "PROFILE" and len(l.comps) == 1
                           for l, _ in locate(src))
            c.require(same, w, "the new file is in the same directory",
                      "the file that replaces the info file may be in another "
                      "file system: it is not replaced atomically",
                      "info-elsewhere", e)
            c.require(unique_name(src), w, "the new file is not shared",
                      "every process uses the same temporary file: if the "
                      "daemon and a sync write at the same time, an incomplete "
                      "file replaces the info file", "info-shared-temp", e)
            ws = []
            for x in r.events:
                f = written_file(r, x)
                if f is not None and file_at(r, f, src):
                    ws.append((x, r.c(f)))
            if not ws:
                c.note("%s: how the new info file is written is not known" % w)
                continue
            before = [(x, f) for x, f in ws if x.key in e.done]
            if not c.require(before, w, "the new file is written first",
                             "the info file is replaced by a file that is not "
                             "written yet", "info-empty", e):
                continue
            d = OR(*[now(r, e, x) for x, _ in before])
            c.never(AND(r.pc(e), NOT(d)), e, "the new file is written first",
                    "the info file is replaced although the new one was not "
                    "completely written", "info-incomplete")
            left = 0
            for f in {f for _, f in before}:
                mine = [x for x, g in before if g is f]
                ends = [x for x in r.events if x.name in (
                    "with.exit", ".close", ".flush") and x.key in e.done and
                    any(r.c(a) is f for a in list(x.args) + (
                        [x.recv] if x.recv is not None else [])) and
                    x.seq > mine[-1].seq]
                left = OR(left, AND(
                    OR(*[now(r, e, x) for x in mine]),
                    NOT(OR(*[now(r, e, x) for x in ends]))))
            c.never(AND(r.pc(e), left), e, "the new file is closed first",
                    "the info file is replaced by a file that is still being "
                    "written", "info-open")
    if not some:
        c.note("nothing writes the info file by replacing it")


# ----------------------------------------------- P25: recorded times read back
NEEDED = [{"%Y"}, {"%m", "%b", "%B", "%j"}, {"%d", "%j"}, {"%H"}, {"%M"},
          {"%S"}, {"%f"}]
ISO = "%Y-%m-%d{}%H:%M:%S.%f"


class NotExact(Exception):
    """The term surely does not keep the instant."""


class NotRead(Exception):
    """The term is not understood."""


def args_of(t):
    pos = [a for a in t.args[1] if a.op != "kw"]
    kws = {}
    for a in t.args[1]:
        if a.op == "kw":
            k = a.args[0]
            kws[kval(k) if isinstance(k, T) else k] = a.args[1]
    return pos, kws


def is_utc(t):
    if t is None:
        return False
    if t.op == "ext" and t.args[0] in ("datetime.timezone.utc", "datetime.UTC"):
        return True
    if t.op == "attr" and t.args[1] in ("utc", K("utc")):
        return True
    return t.op == "res" and t.args[0] == "datetime.timezone" and bool(
        t.args[1]) and t.args[1][0].op == "res" and \
        t.args[1][0].args[0] == "datetime.timedelta" and all(
        is_k(a) and kval(a) == 0 for a in args_of(t.args[1][0])[0]) and \
        not args_of(t.args[1][0])[1]


def zone(t):
    if t is None or t is NONE:
        return None
    if is_utc(t):
        return "utc"
    raise NotRead("time zone %s" % show(t, 4))


class Stamp:
    """A date and time: the instant v as seen in a zone.

    wall: the zone whose clock it shows; tz: the zone attached to it, or
    None; text: the format it was written in, or None."""

    def __init__(self, wall, tz=None, text=None, offset=False):
        self.wall, self.tz, self.text, self.offset = wall, tz, text, offset


def fmt_ok(f):
    ds = set(re.findall("%[a-zA-Z]", f))
    if "%s" in ds or "%c" in ds or "%x" in ds or "%X" in ds:
        raise NotExact("the format %r" % f)
    for n in NEEDED:
        if not n & ds:
            raise NotExact("the format %r lacks %s" % (f, "/".join(sorted(n))))
    return "%z" in ds


def stored(t, v):
    """What the term stores of the instant v: Stamp or 'number'."""
    if t is v:
        return "number"
    if t.op in ("float", "str", "repr") and stored(t.args[0], v) == "number":
        return "number"
    if t.op == "pure" and t.args[0] in ("str", "repr", "float"):
        return stored(t.args[-1] if isinstance(t.args[-1], T)
                      else t.args[1][0], v)
    if t.op in ("int", "round", "floordiv") or t.op in ("res", "pure") and \
            t.args[0] in ("int", "round", "math.floor", "math.ceil",
                          "math.trunc"):
        raise NotExact("fractions of a second are dropped")
    if t.op == "fmt" or t.op == "format":
        raise NotRead(show(t, 4))
    if t.op == "cat":
        # text around or after a stamp
        inner = [p for p in t.args if v in subterms(p)]
        if len(inner) == 1:
            s = stored(inner[0], v)
            if isinstance(s, Stamp) and s.text and all(
                    p.op == "k" or p is inner[0] for p in t.args):
                f = "".join(s.text if p is inner[0] else
                            str(kval(p)).replace("%", "%%") for p in t.args)
                if f.endswith("Z") and s.wall == "utc":
                    return Stamp(s.wall, s.tz, f, s.offset)
                return Stamp(s.wall, s.tz, f, s.offset)
        raise NotRead(show(t, 4))
    if t.op == "add":
        for a, b in (t.args[:2], t.args[1::-1]):
            if epoch(a) and seconds(b) is not None:
                number(seconds(b), v)
                z = epoch(a)
                return Stamp("utc", None if z == "naive" else z)
    if t.op != "res":
        if not any(x is v for x in subterms(t)):
            raise NotExact("something else is stored: %s" % show(t, 4))
        raise NotRead(show(t, 4))
    n = t.args[0]
    pos, kw = args_of(t)
    if n == "datetime.datetime.utcfromtimestamp":
        number(pos[0], v)
        return Stamp("utc")
    if n == "datetime.datetime.fromtimestamp":
        number(pos[0], v)
        z = zone(pos[1] if len(pos) > 1 else kw.get("tz"))
        return Stamp(z or "local", z)
    if n == ".replace":
        s = stored(pos[0], v)
        return replaced(s, pos, kw)
    if n == ".astimezone":
        s = stored(pos[0], v)
        z = zone(pos[1] if len(pos) > 1 else kw.get("tz"))
        return moved(s, z)
    if n in (".strftime", ".__format__"):
        s = stored(pos[0], v)
        f = text_of(pos[1] if len(pos) > 1 else kw.get("format"))
        return Stamp(s.wall, s.tz, f, fmt_ok(f) and s.tz is not None)
    if n == ".isoformat":
        s = stored(pos[0], v)
        sep = text_of(pos[1] if len(pos) > 1 else kw.get("sep", K("T")))
        ts = text_of(pos[2] if len(pos) > 2 else kw.get("timespec", K("auto")))
        if ts == "auto":
            f = "iso" + sep
        elif ts == "microseconds":
            f = ISO.format(sep) + ("%z" if s.tz else "")
        else:
            raise NotExact("fractions of a second are dropped")
        return Stamp(s.wall, s.tz, f, s.tz is not None)
    raise NotRead(show(t, 4))


def epoch(t):
    """The zone of a constant that is the epoch, or None."""
    z = None
    if t.op in ("pure", "res") and t.args[0] == "datetime.datetime":
        pos, kw = args_of(t)
        if [kval(a) if is_k(a) else None for a in pos[:3]] != [1970, 1, 1] or \
                not all(is_k(a) and kval(a) in (0, None) for a in pos[3:7]):
            return None
        z = zone(pos[7] if len(pos) > 7 else kw.get("tzinfo"))
        return z or "naive"
    if t.op in ("res", "pure") and t.args[0] in (
            "datetime.datetime.utcfromtimestamp",
            "datetime.datetime.fromtimestamp"):
        pos, kw = args_of(t)
        if not pos or not is_k(pos[0]) or kval(pos[0]) != 0:
            return None
        z = zone(pos[1] if len(pos) > 1 else kw.get("tz"))
        if t.args[0].endswith("utcfromtimestamp"):
            return "naive"
        return z
    return None


def seconds(t):
    """The term is timedelta(seconds=x): x."""
    if t.op in ("pure", "res") and t.args[0] == "datetime.timedelta":
        pos, kw = args_of(t)
        if not pos and list(kw) == ["seconds"]:
            return kw["seconds"]
        if len(pos) == 2 and not kw and is_k(pos[0]) and kval(pos[0]) == 0:
            return pos[1]
    return None


def since_epoch(t, s, w):
    """The term is the time since the epoch of what is stored."""
    if t.op != "sub":
        return False
    e = epoch(t.args[1])
    if not e:
        raise NotRead(show(t, 4))
    p = parsed(t.args[0], s, w)
    if not isinstance(p, Stamp):
        raise NotRead(show(t, 4))
    if p.tz or e != "naive":
        if not p.tz or e == "naive":
            raise NotExact("a time with a zone and one without are subtracted")
        if p.tz != p.wall:
            raise NotExact("a time in %s is taken for %s time" % (
                p.wall, p.tz))
        return True
    if p.wall != "utc":
        raise NotExact("a time in %s is taken for utc time" % p.wall)
    return True


def number(t, v):
    if stored(t, v) != "number":
        raise NotRead(show(t, 4))


def text_of(t):
    if t is None or t.op != "k" or not isinstance(kval(t), str):
        raise NotRead("format %s" % (show(t, 3) if t is not None else "?"))
    return kval(t)


def replaced(s, pos, kw):
    if not isinstance(s, Stamp) or len(pos) > 1:
        raise NotRead("replace")
    tz = s.tz
    for k, x in kw.items():
        if k == "tzinfo":
            tz = zone(x)
        elif k == "microsecond":
            raise NotExact("fractions of a second are dropped")
        else:
            raise NotExact("%s is replaced" % k)
    return Stamp(s.wall, tz)


def moved(s, z):
    """astimezone: a stamp without a zone is taken for local time."""
    if not isinstance(s, Stamp):
        raise NotRead("astimezone")
    if (s.tz or "local") != s.wall:
        raise NotExact("a time in %s is taken for %s time" % (
            s.wall, s.tz or "local"))
    return Stamp(z or "local", z or "local")


def parsed(t, s, w):
    """What the term makes of the stored text s, written as w: Stamp, or
    'number' if it is the instant."""
    if t is s:
        return w
    if t.op == "float" or t.op == "pure" and t.args[0] == "float":
        a = t.args[0] if t.op == "float" else (
            t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1])
        return parsed(a, s, w)
    if t.op == "int":
        raise NotExact("fractions of a second are dropped")
    if t.op in ("div", "truediv") and since_epoch(t.args[0], s, w):
        d = seconds(t.args[1])
        if d is None or not is_k(d) or kval(d) != 1:
            raise NotRead(show(t, 4))
        return "number"
    if t.op in ("res", "pure") and t.args[0] == ".total_seconds" and \
            since_epoch(args_of(t)[0][0], s, w):
        return "number"
    if t.op != "res":
        if not any(x is s for x in subterms(t)):
            raise NotExact("the stored time is not used: %s" % show(t, 4))
        raise NotRead(show(t, 4))
    n = t.args[0]
    pos, kw = args_of(t)
    if n in ("datetime.datetime.strptime", "datetime.datetime.fromisoformat"):
        p = parsed(pos[0], s, w)
        if not isinstance(p, Stamp) or not p.text:
            raise NotExact("what is stored is no text")
        if n.endswith("strptime"):
            f = text_of(pos[1] if len(pos) > 1 else kw.get("format"))
            off = fmt_ok(f)
            if p.text.startswith("iso"):
                raise NotExact("a time without fraction cannot be read back")
            if f != p.text:
                raise NotExact("times are written as %r and read as %r" % (
                    p.text, f))
        else:
            off = p.offset
            if not p.text.startswith(("iso", "%Y-%m-%d")):
                raise NotRead(p.text)
        return Stamp(p.wall, p.wall if off else None)
    if n == ".replace":
        return replaced(parsed(pos[0], s, w), pos, kw)
    if n == ".astimezone":
        return moved(parsed(pos[0], s, w),
                     zone(pos[1] if len(pos) > 1 else kw.get("tz")))
    if n == ".timestamp":
        p = parsed(pos[0], s, w)
        if not isinstance(p, Stamp):
            raise NotRead("timestamp")
        if (p.tz or "local") != p.wall:
            raise NotExact("a time in %s is taken for %s time" % (
                p.wall, p.tz or "local"))
        if p.wall == "local" and not p.tz:
            raise NotExact("local times are ambiguous when daylight saving "
                           "ends")
        return "number"
    if n in ("calendar.timegm", "time.mktime"):
        raise NotExact("fractions of a second are dropped")
    raise NotRead(show(t, 4))


def time_run(M, attr, write):
    key = "Profile.%s %s" % (attr, "set" if write else "get")
    if key in M.cache:
        return M.cache[key]

    def drive(run, I, st):
        c = M.cls(I, st, MOD, "Profile")
        run.obj = I.instantiate(c, [K("n")], {}, M.prog.dummy, st)
        inf = [v for v in st.heap[run.obj].fields.values() if v.op == "ref" and
               isinstance(st.heap.get(v), HInst) and
               I.classes[st.heap[v].cls.args[0]].name == "ProfileInfoFile"]
        if len(inf) != 1:
            raise Missing("the profile's info file")
        run.info = inf[0]
        I.call(I.getattr_(inf[0], "read", M.prog.dummy, st), [], {},
               M.prog.dummy, st)
        run.init_events = len(I.events)
        st.pc = 1
        if write:
            I.setattr_(run.obj, attr, mk("arg", "v"), M.prog.dummy, st)
        else:
            run.result = I.getattr_(run.obj, attr, M.prog.dummy, st)
    r = Run(M.prog, key, drive, selected=lambda n: False)
    M.cache[key] = r
    return r


@rule("P25 P19 P02", "times are stored and read back in the same format and "
                     "zone, to the microsecond")
def times_exact(c):
    v = mk("arg", "v")
    keys = {}
    for attr in ("last_sync", "last_adjust"):
        w = c.run(lambda M: time_run(M, attr, True), attr)
        g = c.run(lambda M: time_run(M, attr, False), attr)
        if w is None or g is None:
            continue
        where = "zielen/profile.py in Profile.%s" % attr
        sets = [e for e in w.events[w.init_events:] if e.name == "setitem"]
        if not c.require(sets, where, "%s is stored" % attr,
                         "%s is not stored" % attr, attr + "-lost"):
            continue
        reads = {s for l, _ in leaves(g.result) for s in subterms(l)
                 if s.op == "jsonval"}
        for e in sets:
            where = e.where()
            k = e.args[1]
            if len(reads) > 1:
                c.note("%s: what is read is not known" % where)
                continue
            if not c.require(any(x.args[1] is k for x in reads), where,
                             "%s is read from where it is stored" % attr,
                             "%s is not read from where it is stored" % attr,
                             attr + "-key", e):
                continue
            s = next(iter(reads))
            other = keys.setdefault(k, attr)
            c.require(other == attr, where, "%s has an entry of its own" % attr,
                      "%s and %s share an entry" % (other, attr),
                      attr + "-shared", e)
            for l, _ in leaves(e.args[2]):
                for l2, cond in leaves(g.result):
                    if l2 is NONE and not any(x is s for x in subterms(l2)):
                        # nothing recorded yet
                        if feasible(AND(cond, truth_of(s))) == 0:
                            continue
                    try:
                        x = stored(l, v)
                        y = parsed(l2, s, x)
                        c.require(y == "number", where, "%s reads back the "
                                  "same" % attr, "%s reads back as something "
                                  "else than a time in seconds" % attr,
                                  attr + "-kind", e)
                    except NotExact as ex:
                        c.require(False, where, "%s reads back the same" % attr,
                                  "%s does not read back as the same instant: "
                                  "%s" % (attr, ex), attr + "-instant", e)
                    except NotRead as ex:
                        c.note("%s: how times are stored is not understood: %s"
                               % (where, ex))


@rule("P22 P02 P19", "a profile that is initialized has the times that every "
                     "later command needs")
def init_times(c):
    from .rules_life import saves, dumped
    r = c.run("init")
    if r is None or r.final.dead():
        return
    for d, s in saves(r):
        st = dumped(r, d, "Status")
        fin = OR(*[f for f, x in st or () if x is K("initialized")])
        if fin == 0:
            continue
        for key in ("LastSync", "LastAdjust"):
            v = dumped(r, d, key)
            if v is None:
                c.note("%s: what is written is not known" % d.where())
                continue
            none = NOT(OR(*[f for f, x in v if x is not NONE]))
            c.never(AND(r.pc(d), fin, none), d, "%s is set by init" % key,
                    "init finishes without setting %s: later commands crash" %
                    key, "init-no-" + key)


# ------------------------------------------------ P22: no programming errors
ERRORS = {"unbound", "name", "attr", "noneattr", "arity", "noneiter", "import",
          "div", "nonearg", "key", "maykey", "mayremove",
          "oneshot"}
MAY = ("maykey", "mayremove")
COMMAND_RUNS = ("sync", "init", "reset", "empty-trash", "list", "daemon")


SELECTION = ("prioritize_files", "prioritize_dirs", "get_excluded_size")


def records_hold(r, f):
    """f while the records agree with the remote directory (P17), as they do
    when a sync selects what it keeps."""
    ats = atoms(f)
    for a in ats:
        if a.op != "indb":
            continue
        x = a.args[1]
        here = [b for b in ats if b.op == "intree" and b.args[0] is REMOTE and
                b.args[2] is x]
        flag = dbdir(x, a.args[0])
        for b in here:
            f = AND(f, NOT(inutil(x)), OR(NOT(atom(a)), atom(b)))
        if isinstance(flag, int) and here:
            f = AND(f, OR(NOT(atom(a)), IFF(flag, isdir(R(x)))))
    return f


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def all_runs(c):
    """Every analysed entry point, and the bodies that they leave out."""
    from . import rules_body, rules_db, rules_daemon, rules_prof, rules_sel
    yield c.run(rules_daemon.thread_run, "daemon thread")
    for n in ("sync", "init", "reset", "empty_trash", "list", "daemon"):
        yield c.run(n)
    for whole in (False, True):
        yield c.run(rules_body.transfer_body_of(whole), "transfer_tree")
    yield c.run(symlink_body, "symlink_tree")
    P = mk("root", "SRC")
    for name, args in (
            ("scan_tree", [P]), ("update_mtime", [P]),
            ("is_unsafe_symlink", [mk("arg", "link"), mk("arg", "parent")])):
        yield c.run(lambda M: fstool_body(M, name, *args), name)
    yield c.run(rules_body.dir_scans, "scan_paths")
    yield c.run(rules_prof.pattern_run, "patterns")
    for name in SELECTION:
        yield c.run(lambda M: rules_sel.selection_run(M, name),
                    "FilesManager." + name)
    n, a, z = "paths", mk("arg", "n"), NONE
    for which, own, upd in (
            ("profile", {"priority": a, "local": a},
             {"directory": z, "priority": a, "local": z}),
            ("remote", {}, {"directory": z, "lastsync": a})):
        for meth, coll, kw in (
                ("add_paths", ("files", "dirs"), own), ("rm_paths", (n,), {}),
                ("update_paths", (n,), upd), ("get_paths", (), {}),
                ("get_path_info", (), {"path": mk("arg", "path")})):
            yield c.run(lambda M: rules_db.db_run(M, which, meth, coll, **kw),
                        which + "." + meth)
    for meth, coll, kw in (
            ("add_inflated", ("files", "dirs"), {}),
            ("increment", (n,), {"increment": a}),
            ("adjust_all", (), {"adjustment": a})):
        yield c.run(lambda M: rules_db.db_run(M, "profile", meth, coll, **kw),
                    meth)


VALUES = ("cfgval", "loopval")


def zero_words(c, t):
    """(key, words) for which the denominator t is zero: t is a product of
    constants and one number of an option."""
    from . import rules_conf as RC
    ks = {s.args[-1] for s in subterms(t) if s.op in VALUES}
    if len(ks) != 1:
        return None
    key = ks.pop()
    if not is_k(key) or kval(key) not in RC.OPTIONS:
        return None
    todo, number = [t], None
    while todo:
        x = todo.pop()
        if x.op == "mul":
            todo += x.args
        elif is_k(x):
            if not kval(x):
                return None
        elif x.op in ("int", "float") and x.args[0].op in VALUES and \
                number is None:
            number = x
        else:
            return None
    if number is None:
        return None
    return kval(key), RC.lang(r"\s*[-+]?[0_]+(\.[0_]*)?([eE].*)?\s*")


@rule("P22", "no path uses an unbound variable, a name, attribute or parameter "
             "that does not exist, or iterates over None")
def no_program_errors(c):
    from . import rules_conf as RC
    by_value = set()
    for name in RC.OPTIONS:
        g = c.run(lambda M: RC.getter(M, RC.OPTIONS[name]["getter"]), name)
        if g is not None:
            by_value |= {p[2] for p in g.I.problems}
    seen = {}
    for r in all_runs(c):
        if r is None:
            continue
        for mod, qual in r.I.functions_seen:
            seen.setdefault((mod, qual), r)
        for kind, m, node, text, fn, cond, stack in r.I.problems:
            if kind not in ERRORS:
                continue
            if r.name.startswith("FilesManager.") and isinstance(cond, int):
                if kind not in ERRORS:
                    continue
                cond = records_hold(r, r.canon.b(cond))
            elif kind in MAY and (r.name not in COMMAND_RUNS or any(
                    s.op.startswith("loop") or s.op in ("top", "havoc")
                    for a in atoms(r.canon.b(cond)) for s in subterms(a))):
                continue
            if kind == "noneattr" and r.name.startswith("db."):
                continue        # the database exists
            w = "%s:%d in %s" % (m.relpath, getattr(node, "lineno", 0), fn)
            where_ = "%s:%d" % (m.name, getattr(node, "lineno", 0))
            if any(getattr(n, "lineno", 0) == getattr(node, "lineno", -1) and
                   type(n) is type(node) and
                   getattr(n, "col_offset", 0) == node.col_offset
                   for n in by_value):
                c.ok(w, "decided by the accepted values of the option")
                continue
            if kind == "div":
                zs = [zero_words(c, l) for l, _ in leaves(text)]
                z = zs[0] if len(set(x and x[0] for x in zs)) == 1 else None
                if z is not None:
                    o = RC.Option(c, z[0])
                    if o.ok:
                        d = (o.accepted & z[1]).example()
                        c.require(d is None, w, "the divisor is not zero",
                                  "%s=%s leads to a division by zero" % (
                                      z[0], d), "div")
                        continue
                c.note("%s: whether the divisor can be zero is not known" % w)
                continue
            f = feasible(definite(fresh_names(r.canon.b(cond)))) \
                if isinstance(cond, int) else 1
            msg = text if isinstance(text, str) else show(text, 4)
            if f == 0:
                c.ok(w, msg)
                continue
            c.bad(w, "no programming error", msg, "%s %s" % (kind, msg),
                  " > ".join("%s:%d" % (q, l) for q, l, *_ in stack),
                  witness(f, None)[:1500])
    for (mod, qual), r in sorted(seen.items()):
        c.ok("%s %s" % (mod, qual), "analysed in %s" % r.name)
