"""P15, P16: the configuration; P24, P25: the metadata file."""
from .terms import *
from .terms import T
from .model import *
from .interp import HInst, HColl, V0
from .prims import PRIMS
from .check import rule
from .arith import lin
from .lang import *
from .sql import Unknown

PROFILE_PY = "zielen/profile.py"
MOD = "zielen.profile"
VALUE = mk("arg", "value")
# What ends up as the value of an option: stripped, on one line.
STORED = lang(r"[^\n\r]*") & ~lang(r"\s[\s\S]*|[\s\S]*\s")
BLANK = EMPTY

BOOLS = (("yes", "true"), ("no", "false"))
MIN, HOUR, DAY = 60, 3600, 86400
SIZE = r"^([0-9]+)\s*([kmg])(i?b)?$"
_SZ = [(p, e) for e, p in enumerate("kmg", 1)]

# name: getter, required, documented values, values with a meaning, cases
# (language, coefficient or None, number pattern), documented default
OPTIONS = {
    "LocalDir": dict(getter="local_path", required=True,
                     documented=r"~?/[A-Za-z0-9 ._/-]*", path=True,
                     meaning=r"~?/[\s\S]*"),
    "RemoteDir": dict(getter="remote_path", required=True,
                      documented=r"~?/[A-Za-z0-9 ._/-]*", path=True,
                      meaning=r"~?/[\s\S]*"),
    "StorageLimit": dict(
        getter="storage_limit", required=True,
        documented=r"[0-9]+ ?[KkMmGg][Ii]?[Bb]",
        meaning=r"[0-9]+\s*[KkMmGg]([Ii]?[Bb])?",
        cases=[(r"[0-9]+\s*[%s%s][Bb]" % (p, p.upper()), 1000 ** e,
                r"^([0-9]+)(?:[^0-9][\s\S]*)?$") for p, e in _SZ] +
        [(r"[0-9]+\s*[%s%s][Ii][Bb]" % (p, p.upper()), 1024 ** e,
          r"^([0-9]+)(?:[^0-9][\s\S]*)?$") for p, e in _SZ]),
    "SyncInterval": dict(
        getter="sync_interval", documented="[0-9]+", meaning=r"\+?[0-9_]+",
        cases=[("[0-9]+", MIN, r"^([0-9]+)$")], default=20 * MIN),
    "PriorityHalfLife": dict(
        getter="priority_half_life", documented="0*[1-9][0-9]*",
        meaning=r"\+?[0-9_]*[1-9][0-9_]*",
        cases=[("0*[1-9][0-9]*", HOUR, r"^([0-9]+)$")], default=120 * HOUR),
    "TrashCleanupPeriod": dict(
        getter="cleanup_period", documented="-?[0-9]+",
        meaning=r"[+-]?[0-9_]+",
        cases=[("[0-9]+", DAY, r"^([0-9]+)$"), ("-0*[1-9][0-9]*", None, None)],
        default=30 * DAY),
    "UseTrash": dict(getter="use_trash", bool=True, default=True),
    "InflatePriority": dict(getter="inflate_priority", bool=True, default=True),
    "AccountForSize": dict(getter="account_for_size", bool=True, default=True),
}


def prims_without(*names):
    return {k: v for k, v in PRIMS.items()
            if not (k[0] in ("ProfileConfigFile", "ConfigFile") and
                    k[1] in names) and k[1] not in names}


def validation(M, key, value=VALUE):
    """check_value for one option."""
    name = "check_value(%s)" % key

    def setup(run, I, st, f):
        return I.call(f, [mk("arg", "path")], {}, M.prog.dummy, st)
    return func_run(M, name, MOD, "check_value",
                    lambda run, I, st: ([K(key), value], {}),
                    prims_without("check_value"), cls="ProfileConfigFile",
                    setup=setup)


def getter(M, attr):
    """The value of one property of a profile whose config file was read."""
    key = "Profile." + attr
    if key in M.cache:
        return M.cache[key]

    def drive(run, I, st):
        c = M.cls(I, st, MOD, "Profile")
        run.obj = I.instantiate(c, [K("n")], {}, M.prog.dummy, st)
        cf = [v for v in st.heap[run.obj].fields.values() if v.op == "ref" and
              isinstance(st.heap.get(v), HInst) and
              I.classes[st.heap[v].cls.args[0]].name == "ProfileConfigFile"]
        if len(cf) != 1:
            raise Missing("the profile's configuration file")
        run.cfgpath = st.heap[cf[0]].fields.get("path", NONE)
        I.call(I.getattr_(cf[0], "read", M.prog.dummy, st), [], {},
               M.prog.dummy, st)
        run.init_events = len(I.events)
        run.init_problems = len(I.problems)
        st.pc = 1
        run.result = I.getattr_(run.obj, attr, M.prog.dummy, st)
    r = Run(M.prog, key, drive, selected=lambda n: False)
    M.cache[key] = r
    return r


class Option:
    """What validation accepts and what the getter makes of it."""

    def __init__(self, c, name):
        self.c, self.name, self.spec = c, name, OPTIONS[name]
        self.ok = False
        self.v = c.run(lambda M: validation(M, name), "check_value")
        self.g = None
        if self.v is None:
            return
        self.w = Words(VALUE, STORED)
        try:
            acc = NOTHING
            for t, cond in leaves(self.v.result):
                k = truth_of(t)
                acc = acc | self.w.of(AND(cond, self.v.final.pc, NOT(k)))
            self.accepted = acc
            self.ok = True
        except Unknown as e:
            c.note("what check_value accepts for %s could not be determined: "
                   "%s" % (name, e))

    def where(self, n=None, meth="ProfileConfigFile.check_value"):
        return "%s in %s" % (PROFILE_PY, meth)

    # ---- the getter
    def read(self):
        c = self.c
        self.g = c.run(lambda M: getter(M, self.spec["getter"]),
                       self.spec["getter"])
        if self.g is None:
            return False
        self.val = mk("cfgval", self.g.cfgpath, K(self.name))
        self.key = mk("cfgkey", self.g.cfgpath, K(self.name))
        return True

    def words(self, given, env):
        def facts(a):
            if a is self.key:
                return given
            return None
        return Words(self.val, env, facts)


def fails(r, w, events, problems, res=()):
    """(where, what, words) for everything that can fail for some value."""
    for e in events:
        if e.name in ("int", "float") and e.args:
            t = e.args[0]
            L = w.of(e.pc)
            if L.empty():
                continue
            for l, cond in leaves(t):
                if any(s is w.v for s in subterms(l)):
                    L2 = w.of(AND(e.pc, cond))
                    bad = (L2 & w.absent(l)) | (L2 - w.pre(l, numbers(e.name)))
                    yield e.where(), "%s() of it fails" % e.name, bad
                elif l.op == "k" and not isinstance(kval(l), (int, float, str)):
                    yield e.where(), "%s(%r)" % (e.name, kval(l)), \
                        w.of(AND(e.pc, cond))
    for t, cond in res:
        L = w.of(cond)
        yield None, "no match is expected", L & w.absent(t)
        for a in atoms(cond):
            if any(s is w.v for s in subterms(a)):
                yield None, "there is no match for it", L & w.absent(a)
    for p in problems:
        if p[0] == "unbound" or p[0] in ("attr", "none"):
            f = p[5] if isinstance(p[5], int) and not isinstance(p[5], bool) \
                else None
            if f is None:
                continue
            yield "%s:%d in %s" % (p[1].relpath, p[2].lineno, p[4]), \
                str(p[3]), w.of(f)
    for cls, val, st in r.raised:
        yield None, "%s is raised" % (cls.args[0] if cls.op == "ext" else
                                      "an error"), w.of(st.pc)


class WhereAt:
    def __init__(self, r, meth):
        self.r, self.meth = r, meth


@rule("P15", "every documented value of an option is accepted and nothing "
      "without a meaning is")
def accepted_values(c):
    for name, spec in OPTIONS.items():
        o = Option(c, name)
        if not o.ok:
            continue
        w = o.where()
        if spec.get("bool"):
            doc = mean = ignoring_case("yes|true|no|false")
            mean = mean | BLANK
        else:
            doc = lang(spec["documented"]) & STORED
            mean = lang(spec["meaning"])
            if not spec.get("required"):
                mean = mean | BLANK
        x = (doc - o.accepted).example()
        c.require(x is None, w, "%s: documented values are accepted" % name,
                  "%s=%s is rejected although it is documented" % (name, x),
                  "rejected:%s" % name)
        x = (o.accepted - mean).example()
        c.require(x is None, w, "%s: accepted values have a meaning" % name,
                  "%s=%s is accepted but has no documented meaning" % (name, x),
                  "accepted:%s" % name)
        try:
            n = 0
            for at, what, bad in fails(o.v, o.w, o.v.events,
                                       o.v.I.problems, ()):
                n += 1
                x = bad.example()
                c.require(x is None, at or w,
                          "%s: validation does not fail" % name,
                          "validation of %s=%s fails: %s" % (name, x, what),
                          "validate-fails:%s" % name)
            c.ok(w, "%s: validation itself cannot fail (%d operations)" % (
                name, n))
        except Unknown as e:
            c.note("%s: %s" % (name, e))


def number_agrees(w, s, pat, X):
    """The string s is the number that pattern pat marks, on the words X."""
    spec = mk("idx", mk("refindall", K(pat), w.v, K(0)), K(0))
    for L in SAMPLES:
        a, b = w.pre(s, L) & X, w.pre(spec, L) & X
        d = (a - b) | (b - a)
        x = d.example()
        if x is not None:
            return x
    return None


SAMPLES = [lang(p) for p in ("0*7", "0*12", "0*34[0-9]*", "0*5[0-9]*0", "0*1",
                             "0*[0-9]", "0*[0-9][0-9]")]


@rule("P15 P16 P22", "the value of an option is what the documentation says it "
      "means, for every value that validation accepts")
def option_values(c):
    for name, spec in OPTIONS.items():
        o = Option(c, name)
        if not o.ok or not o.read():
            continue
        g = o.g
        w = "%s in Profile.%s" % (PROFILE_PY, spec["getter"])
        W = o.words(True, o.accepted - BLANK)
        try:
            res = list(leaves(g.result))
            fin = g.final.pc
            for at, what, bad in fails(
                    g, W, g.events[g.init_events:],
                    g.I.problems[g.init_problems:],
                    [(t, AND(cd, fin)) for t, cd in res]):
                x = bad.example()
                c.require(x is None, at or w,
                          "%s: using an accepted value does not fail" % name,
                          "%s=%s is accepted but using it fails: %s" % (
                              name, x, what), "use-fails:%s" % name)
            if c.pid == "P22":
                continue
            user_value(c, o, W, w, res, fin)
        except Unknown as e:
            c.note("the value of %s could not be determined: %s" % (name, e))


def user_value(c, o, W, w, res, fin):
    name, spec = o.name, o.spec
    if spec.get("bool"):
        yes = NOT(0)
        true = W.of(AND(fin, truth_of(o.g.result)))
        want = W.env & ignoring_case("yes|true")
        x = ((true - want) | (want - true)).example()
        c.require(x is None, w, "%s: yes and true are true, others not" % name,
                  "%s=%s is taken as the opposite" % (name, x),
                  "bool:%s" % name)
        return
    for t, cond in res:
        L = W.of(AND(cond, fin))
        if L.empty():
            continue
        if spec.get("path"):
            path_value(c, o, w, t, L)
            continue
        for pat, coeff, num in spec["cases"]:
            X = L & lang(pat)
            x = X.example()
            if x is None:
                continue
            what = "%s: values like %s mean what is documented" % (name, x)
            if coeff is None:
                c.require(t is NONE, w, what,
                          "%s=%s does not switch it off" % (name, x),
                          "value:%s" % name)
                continue
            d = lin(t) if t is not NONE else None
            if d is not None and any(s.op in UNKNOWN for s in subterms(t)):
                raise Unknown(show(t, 3))
            ints = [k for k in d if k is not None and k.op in ("int", "float")
                    ] if d else []
            if d and len(d) == 1 and len(ints) == 1:
                k = ints[0]
                if k.op == "float" and not isinstance(k.args[0], T):
                    raise Unknown(show(t, 3))
                y = number_agrees(W, k.args[0], num, X)
                c.require(y is None and d[k] == coeff, w, what,
                          "%s=%s does not mean %s times the number (%s)" % (
                              name, x if y is None else y, coeff, show(t, 5)),
                          "value:%s" % name)
            elif t is NONE or d is not None and all(
                    k is None for k in d):
                c.bad(w, what, "%s=%s means %s" % (name, x, show(t, 3)),
                      "value:%s" % name)
            else:
                raise Unknown(show(t, 4))


def path_value(c, o, w, t, L):
    x = L.example()
    ops = {s.op for s in subterms(t)}
    if any(s.op in UNKNOWN for s in subterms(t)):
        raise Unknown(show(t, 3))
    c.require(o.val in set(subterms(t)), w,
              "%s: the path that was set is used" % o.name,
              "%s: %s is used instead of the path that was set" % (
                  o.name, show(t, 4)), "value:%s" % o.name)
    if not (L & lang(r"~/[\s\S]*")).empty():
        c.require("expanduser" in ops, w,
                  "%s: the home directory is expanded" % o.name,
                  "%s: '~' is not expanded" % o.name, "value:%s" % o.name)
    c.require(ops & {"norm", "abspath", "realpath"}, w,
              "%s: the path is normalized" % o.name,
              "%s: the path is not normalized, so that it differs from equal "
              "paths" % o.name, "value:%s" % o.name)


@rule("P16", "an optional option that is missing, commented out or left blank "
      "has its documented default")
def option_defaults(c):
    for name, spec in OPTIONS.items():
        if "default" not in spec:
            continue
        o = Option(c, name)
        if not o.ok or not o.read():
            continue
        w = "%s in Profile.%s" % (PROFILE_PY, spec["getter"])
        states = [("missing", o.words(False, BLANK))]
        if o.accepted.has(""):
            states.append(("blank", o.words(True, BLANK)))
        for what, W in states:
            try:
                for t, cond in leaves(o.g.result):
                    if W.of(AND(cond, o.g.final.pc)).empty():
                        continue
                    n = K(bool(W.of(truth_of(t)).has(""))) if t.op == "b" else t
                    if n.op != "k":
                        if any(s is o.val for s in subterms(n)) or \
                                n.op == "int":
                            c.bad(w, "%s: default if %s" % (name, what),
                                  "%s is not given its default if it is %s" % (
                                      name, what), "default:%s" % name)
                            continue
                        raise Unknown(show(n, 3))
                    c.require(
                        kval(n) == spec["default"] or spec.get("bool") and
                        bool(kval(n)) == spec["default"], w,
                        "%s: default if %s" % (name, what),
                        "%s is %r if it is %s; the default is %r" % (
                            name, kval(n), what, spec["default"]),
                        "default:%s" % name)
                for at, msg, bad in fails(
                        o.g, W, o.g.events[o.g.init_events:],
                        o.g.I.problems[o.g.init_problems:]):
                    c.require(bad.empty(), at or w,
                              "%s: default if %s" % (name, what),
                              "using %s fails if it is %s: %s" % (
                                  name, what, msg), "default:%s" % name)
            except Unknown as e:
                c.note("the default of %s could not be determined: %s" % (
                    name, e))


# -------------------------------------------------------- P16: the file itself
CB = "zielen/containerbase.py"
CPATH = mk("arg", "path")
LINE = var("LINE")
LINES = lang(r"[^\n\r]+\n?|\n")
COMMENT = lang(r"\s*#[\s\S]*")
OPTION = (containing("=") - COMMENT)


def held(path, x=V0):
    """The contents of a configuration object as of now."""
    return mk("cfgval", path, x), atom(mk("cfgkey", path, x))


def conf_run(M, meth, prims, args=(), kw=None, name=None):
    from .interp import Part

    def setup(run, I, st, f):
        o = I.call(f, [CPATH], {}, M.prog.dummy, st)
        v, k = held(CPATH)
        run.old_vals = I.new_coll(st, "dict", [Part((V0,), V0, v, k)])
        st.setfield(o, "raw_vals", run.old_vals)
        return o
    return func_run(M, name or "ProfileConfigFile." + meth, MOD, meth,
                    lambda run, I, st: (list(args), dict(kw or {})), prims,
                    cls="ProfileConfigFile", setup=setup)


def line_words(x):
    def facts(a):
        if a.op == "initer" and a.args[1] is x:
            return True
        if a.op == "exc" and not any(s is x for s in subterms(a)):
            return False
        if a.op in ("cfgkey", "cfgval"):
            return "free"
        return None
    return Words(x, LINES, facts)


def before(x):
    return mk("m:strip", mk("idx", mk("m:partition", x, K("=")), K(0)))


def after(x):
    return mk("m:strip", mk("idx", mk("m:partition", x, K("=")), K(2)))


@rule("P16", "reading the configuration file gives exactly the options of its "
      "lines that are not comments")
def config_read(c):
    r = c.run(lambda M: conf_run(M, "read", prims_without("read")),
              "ConfigFile.read")
    if r is None or r.final is None or r.final.dead():
        return
    w = "%s in ConfigFile.read" % CB
    coll = r.I.coll_of(r.final.heap[r.obj].fields["raw_vals"], r.final)
    if coll is None:
        c.note("what ConfigFile.read stores could not be determined")
        return
    stored = NOTHING
    try:
        for p in coll.parts.values():
            # what was read before must be gone
            old = any(a.op == "cfgkey" for a in atoms(p.cond))
            if old:
                c.require(definite(p.cond) == 0, w,
                          "options that were removed are forgotten",
                          "options from an earlier read are kept",
                          "read-keeps-old")
                continue
            xs = [a.args[1] for a in atoms(p.cond) if a.op == "initer"]
            if len(set(xs)) != 1 or xs[0].op != "var":
                raise Unknown("lines")
            x = xs[0]
            W = line_words(x)
            L = W.of(p.cond)
            stored = stored | L
            d = differ(W, p.key, before(x), L)
            c.require(d is None, w, "the name of an option is what stands "
                      "before the first '='",
                      "the name in the line %r is misread" % d, "read-key")
            d = differ(W, p.val, after(x), L)
            c.require(d is None, w, "the value of an option is what stands "
                      "behind the first '='",
                      "the value in the line %r is misread" % d, "read-value")
        want = LINES & OPTION
        d = ((stored - want) | (want - stored)).example()
        c.require(d is None, w, "exactly the lines with options are used",
                  "the line %r is %s" % (d, "not used" if d is not None and
                                         want.has(d) else "used"), "read-lines")
    except Unknown as e:
        c.note("what ConfigFile.read stores could not be determined: %s" % e)


@rule("P16", "writing the configuration file keeps all lines of the template "
      "and sets the values of its options")
def config_write(c):
    r = c.run(lambda M: conf_run(M, "write", PRIMS, [mk("arg", "template")]),
              "ConfigFile.write")
    if r is None:
        return
    w = "%s in ConfigFile.write" % CB
    evs = [e for e in r.events[r.init_events:] if e.name in (
        ".write", ".writelines") and e.recv is not None]
    out = [e for e in evs if opened(r, e.recv, CPATH, "w")]
    if not out:
        if any(e.name == "open" for e in r.events):
            c.note("ConfigFile.write: what is written could not be determined")
        return
    covered = NOTHING
    try:
        for e in out:
            xs = {a.args[1] for a in atoms(e.pc) if a.op == "initer" and
                  opened(r, a.args[0], mk("arg", "template"), "r")}
            if len(xs) != 1:
                raise Unknown("lines")
            x = xs.pop()
            W = line_words(x)
            respell = respelling(W, x, e)
            for t, cond in leaves(e.args[0]):
                f = bmap(AND(e.pc, cond), lambda a: atom(
                    subst_terms(a, respell)))
                L = W.of(f)
                if L.empty():
                    continue
                covered = covered | L
                if t is x:
                    # an option with a value of its own must not stay as it is
                    v, hk = held(CPATH, before(x))
                    hk = AND(hk, atom(v))
                    d = (W.of(AND(f, hk)) & OPTION).example()
                    c.require(d is None, w, "options that are set are written "
                              "with their values",
                              "the line %r keeps the value of the template" % d,
                              "write-value")
                    continue
                d = (L - OPTION).example()
                c.require(d is None, w, "other lines are kept",
                          "the line %r is not kept" % d, "write-other")
                key, val = split_option(t)
                vs = {v for v, _ in leaves(val)}
                d = differ(W, key, before(x), L & OPTION)
                c.require(d is None, w, "an option keeps its name",
                          "the option in the line %r gets another name" % d,
                          "write-key")
                good = True
                for v, c2 in leaves(val):
                    v = subst_terms(v, respell)
                    L2 = W.of(bmap(AND(f, c2), lambda a: atom(
                        subst_terms(a, respell))))
                    if L2.empty():
                        continue
                    if v.op == "cfgval" and v.args[0] is CPATH:
                        if differ(W, v.args[1], before(x), L2) is not None:
                            good = False
                    elif any(s.op in UNKNOWN for s in subterms(v)):
                        raise Unknown(show(v, 3))
                    elif v is K(""):
                        # Blank, which is right if it has no value.
                        hv, hk = held(CPATH, before(x))
                        if not (W.of(bmap(AND(f, c2, hk, atom(hv)), lambda a:
                                          atom(subst_terms(a, respell)))) &
                                OPTION).empty():
                            good = False
                    else:
                        good = False
                c.require(good, w, "an option is written with its value",
                          "an option is written with another value: %s" %
                          show(val, 4), "write-value")
        d = (LINES - covered).example()
        c.require(d is None, w, "every line of the template is written",
                  "the line %r of the template is lost" % d, "write-lost")
    except Unknown as e:
        c.note("what ConfigFile.write writes could not be determined: %s" % e)


def respelling(W, x, e):
    """Lookups of what is another expression for the name of the option in the
    line x -> lookups of that name."""
    m = {}
    todo = list(atoms(e.pc)) + list(subterms(e.args[0]))
    for t, c in leaves(e.args[0]):
        todo += atoms(c)
    for t in todo:
        for s in subterms(t):
            if s.op in ("cfgkey", "cfgval") and s.args[0] is CPATH and \
                    s not in m and s.args[1] is not before(x) and \
                    x in subterms(s.args[1]):
                if differ(W, s.args[1], before(x), OPTION) is None:
                    m[s] = mk(s.op, CPATH, before(x))
    return m


def opened(r, t, path, mode):
    """The term is a file opened at the path."""
    if t is None:
        return False
    for l, _ in leaves(t):
        if l.op == "res" and l.args[0] == "open" and l.args[1][0] is path:
            m = l.args[1][1]
            if m.op == "k" and mode in (kval(m) or "r"):
                return True
    return False


def split_option(t):
    """KEY = VALUE newline -> (KEY, VALUE)"""
    if t.op != "cat":
        raise Unknown("line %s" % show(t, 4))
    parts = list(t.args)
    if len(parts) == 2 and parts[1].op == "k" and \
            str(kval(parts[1])).lstrip().startswith("="):
        # KEY = constant
        return parts[0], K(str(kval(parts[1])).lstrip()[1:].strip())
    i = [n for n, p in enumerate(parts) if p.op == "k" and
         str(kval(p)).strip() == "="]
    if i != [1] or len(parts) not in (3, 4):
        raise Unknown("line %s" % show(t, 4))
    if len(parts) == 4 and not (parts[3].op == "k" and
                                not str(kval(parts[3])).strip()):
        raise Unknown("line %s" % show(t, 4))
    return parts[0], parts[2]


REQUIRED = ["LocalDir", "RemoteDir", "StorageLimit"]
Q = var("Q")


def errmsg(I, st, node, b, fi):
    """check_value as a fact of the option and its value."""
    k, v = b.get("key", NONE), b.get("value", NONE)
    return vite(message(k, v), cat(K("wrong: "), mk("m:text", k, v)), NONE)


def message(k, v):
    return atom(mk("m:errmsg", k, v))


CHECK_PRIMS = dict(prims_without("check_all", "prompt", "check_value"))
CHECK_PRIMS["ProfileConfigFile", "check_value"] = errmsg


@rule("P16 P20", "every missing, unknown or invalid option is reported and "
      "nothing else")
def config_check(c):
    ce = mk("arg", "ce")
    for name, kw, full in (("always", {}, 1), ("given", {"check_empty": ce},
                                               atom(ce))):
        r = c.run(lambda M: conf_run(M, "check_all", CHECK_PRIMS, (), kw,
                                     "check_all(%s)" % name), "check_all")
        if r is None:
            continue
        w = "%s in ProfileConfigFile.check_all" % PROFILE_PY
        ra = 0
        for cls, val, st in r.raised:
            ra = OR(ra, st.pc)
            if c.pid == "P20":
                c.require(is_program_error(r, cls), w,
                          "problems are reported as such",
                          "an invalid configuration ends in a traceback",
                          "check-raises")
        if c.pid == "P20":
            continue
        quiet = NOT(ra)
        for k in REQUIRED:
            v, has = held(CPATH, K(k))
            never_here(c, AND(quiet, NOT(has)), w,
                       "a missing required option is reported",
                       "%s may be missing without a report" % k,
                       "missing:%s" % k)
        v, has = held(CPATH, Q)
        known = OR(*[eq(Q, K(k)) for k in OPTIONS])
        never_here(c, AND(inst(quiet, Q), has, NOT(known)), w,
                   "an unknown option is reported",
                   "an unknown option is not reported", "unknown-option")
        bad = AND(has, OR(full, atom(v)), message(Q, v))
        never_here(c, AND(inst(quiet, Q), bad), w,
                   "an invalid value is reported",
                   "an invalid value is not reported", "invalid-value")
        # and nothing else: for configurations of known, valid options
        ok = 1
        for k in OPTIONS:
            v, has = held(CPATH, K(k))
            if k in REQUIRED:
                ok = AND(ok, has)
            ok = AND(ok, NOT(AND(has, OR(full, atom(v)), message(K(k), v))))
        g = only_known(AND(ra, ok))
        c.require(definite(g) == 0, w, "a valid configuration is not reported",
                  "a valid configuration is reported as invalid",
                  "reported-valid")


def only_known(f):
    """f if only known options exist: quantified ones are instantiated."""
    m = {}
    for a in atoms(f):
        if a.op == "ex":
            xs, body = a.args
            if len(xs) != 1:
                return 0
            out = 0
            for k in OPTIONS:
                out = OR(out, only_known(bsubst(body, {xs[0]: K(k)})))
            m[a] = out
    return assign_formulas(f, m) if m else f


def assign_formulas(f, m):
    for a, g in m.items():
        f = ite(g, cofactor(f, a, True), cofactor(f, a, False))
    return f


def inst(f, q):
    """Conditions that hold for no element do not hold for q."""
    out = f
    for a in atoms(f):
        if a.op == "ex" and len(a.args[0]) == 1:
            b = bsubst(a.args[1], {a.args[0][0]: q})
            out = AND(out, OR(atom(a), NOT(b)))
    return out


def never_here(c, f, where, what, msg, ident):
    g = feasible(definite(f))
    c.require(g == 0, where, what, msg, ident,
              witness="" if g == 0 else witness(g))


def is_program_error(r, cls):
    return cls.op == "cls" and any(
        k.op == "cls" and r.I.classes[k.args[0]].name == "ProgramError"
        for k in r.I.mro(cls))


@rule("P16", "the prompt asks for exactly the required options that are "
      "missing and stores valid input unchanged")
def config_prompt(c):
    r = c.run(lambda M: conf_run(M, "prompt", CHECK_PRIMS), "prompt")
    if r is None or r.final is None:
        return
    w = "%s in ProfileConfigFile.prompt" % PROFILE_PY
    coll = r.I.coll_of(r.final.heap[r.obj].fields["raw_vals"], r.final)
    if coll is None:
        c.note("what the prompt stores could not be determined")
        return
    new = [p for p in coll.parts.values() if p.key.op == "k"]
    old = [p for p in coll.parts.values() if p.key.op != "k"]
    strange = [p for p in coll.parts.values() if any(
        s.op in UNKNOWN for s in subterms(p.key))]
    if strange:
        c.note("what the prompt stores could not be determined")
        return
    for k in OPTIONS:
        v, has = held(CPATH, K(k))
        given = AND(has, atom(v))
        cond = 0
        for p in new:
            if kval(p.key) != k:
                continue
            cond = OR(cond, p.cond)
            typed = [s for s in subterms(p.val) if s.op == "res" and
                     s.args[0] == "input"]
            if any(s.op in UNKNOWN for s in subterms(p.val)):
                c.note("what the prompt stores could not be determined")
                continue
            c.require(typed, w, "what was typed is stored",
                      "the prompt stores %s instead of what was typed" %
                      show(p.val, 3), "prompt-value")
        for p in old:
            if not any(a.op == "cfgkey" for a in atoms(p.cond)):
                continue
            here = bsubst(p.cond, {V0: K(k)})
            never_here(c, AND(given, r.final.pc, NOT(here)), w,
                       "options that were set are kept",
                       "%s loses its value" % k, "prompt-loses:%s" % k)
        never_here(c, AND(cond, given), w, "options that were set are kept",
                   "%s is asked for although it is set" % k,
                   "prompt-asks:%s" % k)
        if k in REQUIRED:
            never_here(c, AND(r.final.pc, NOT(given), NOT(cond)), w,
                       "missing required options are asked for",
                       "%s may stay unset" % k, "prompt-skips:%s" % k)
    for e in r.events[r.init_events:]:
        if e.name == "setitem" and len(e.args) == 3 and e.args[1].op == "k" \
                and e.args[1] in [K(k) for k in OPTIONS]:
            val = e.args[2]
            msgs = [a for a in atoms(e.pc) if a.op == "m:errmsg"]
            c.never(AND(e.pc, message(e.args[1], val)), e,
                    "invalid input is asked for again",
                    "%s is stored although it is invalid" % kval(e.args[1]),
                    "prompt-invalid")
