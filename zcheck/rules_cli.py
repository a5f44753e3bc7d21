"""The command line: options, dispatch, reports of errors, signals."""
import ast
import os
from .terms import *
from .model import *
from .vocab import *
from .interp import HInst, Part, V0
from .prims import PRIMS
from .check import rule
from .rules_life import program_error, cls_name, INITARGS, RESETARGS

CLI = "zielen.cli"
# command -> module, class, constructor arguments by meaning (position)
COMMANDS = {
    "init": ("zielen.commands.init", "InitCommand",
             {"profile": (0, "profile_input"), "exclude": (1, "exclude"),
              "template": (2, "template"), "add_remote": (3, "add_remote")}),
    "sync": ("zielen.commands.sync", "SyncCommand",
             {"profile": (0, "profile_input")}),
    "reset": ("zielen.commands.reset", "ResetCommand",
              {"profile": (0, "profile_input"), "keep_remote": (1, "keep_remote"),
               "no_retrieve": (2, "no_retrieve")}),
    "list": ("zielen.commands.list", "ListCommand", {}),
    "empty-trash": ("zielen.commands.emptytrash", "EmptyTrashCommand",
                    {"profile": (0, "profile_input")}),
}
# command -> meaning -> flags, is it a switch
OPTIONS = {
    "init": {"exclude": (("--exclude", "-e"), False),
             "template": (("--template", "-t"), False),
             "add_remote": (("--add-remote", "-a"), True)},
    "reset": {"keep_remote": (("--keep-remote", "-k"), True),
              "no_retrieve": (("--no-retrieve", "-n"), True)},
    "sync": {}, "list": {}, "empty-trash": {},
}


def call_run(key, name, args=0):
    def get(M):
        return func_run(M, "cli." + key, CLI, name, lambda run, I, st: (
            [mk("arg", "a%d" % i) for i in range(args)], {}))
    return get


# --------------------------------------------------------------- the parser
class Opt:
    def __init__(self, e, flags):
        self.e, self.flags = e, flags
        self.action = e.kw.get("action")
        d = e.kw.get("dest")
        self.dest = None
        if d is not None:
            self.dest = kval(d) if is_k(d) else None
        elif flags and not flags[0].startswith("-"):
            self.dest = flags[0]
        else:
            long = [f for f in flags if f.startswith("--")] or flags
            self.dest = long[0].lstrip("-").replace("-", "_")


class Parser:
    def __init__(self, term, name, e):
        self.term, self.name, self.e = term, name, e
        self.opts, self.defaults, self.aliases = [], {}, ()

    def flag(self, f):
        for o in self.opts:
            if f in o.flags:
                return o

    def positionals(self):
        return [o for o in self.opts if not o.flags[0].startswith("-")]


class Table:
    """What the events of parse_args say about the parser; self.why tells what
    could not be understood."""

    def __init__(self, r):
        self.r, self.why = r, None
        self.parsers, self.subs = {}, {}
        self.main = self.subdest = self.sub_e = None
        self.required = False
        calls = r.ev(".parse_args")
        if not calls:
            self.why = "no call of parse_args was found"
            return
        self.call = calls[-1]
        self.main = Parser(r.c(calls[-1].recv), None, calls[-1])
        self.parsers[self.main.term] = self.main
        for e in r.events:
            if e.name not in (".add_subparsers", ".add_parser", ".add_argument",
                              ".set_defaults", "setattr"):
                continue
            if e.name == "setattr":
                t = r.c(e.args[0])
                if t.op == "res" and t.args[0] == ".add_subparsers" and \
                        e.args[1] is K("required"):
                    self.required = is_k(e.args[2]) and bool(kval(e.args[2]))
                if t.op == "res" and t.args[0] == ".add_subparsers" and \
                        e.args[1] is K("dest") and is_k(e.args[2]):
                    self.subdest = kval(e.args[2])
                continue
            recv = r.c(e.recv)
            if e.pc != 1 or e.loops:
                self.why = "%s is called under a condition or in a loop" % \
                    e.where()
                return
            if e.name == ".add_subparsers":
                if recv is not self.main.term:
                    self.why = "subcommands of an unknown parser"
                    return
                self.sub_e = e
                d = e.kw.get("dest")
                if d is not None:
                    self.subdest = kval(d) if is_k(d) else None
                q = e.kw.get("required")
                self.required = q is not None and is_k(q) and bool(kval(q))
            elif e.name == ".add_parser":
                n = e.arg(0, "name")
                if n is None or not is_k(n):
                    self.why = "%s: unknown name of the subcommand" % e.where()
                    return
                p = Parser(r.c(e.result), kval(n), e)
                self.parsers[p.term] = p
                self.subs[p.name] = p
            else:
                p = self.parsers.get(recv)
                if p is None:
                    if recv.op == "res" and recv.args[0] == \
                            ".add_mutually_exclusive_group":
                        p = self.parsers.get(recv.args[1][0])
                    if p is None:
                        self.why = "%s: unknown parser" % e.where()
                        return
                if e.name == ".set_defaults":
                    p.defaults.update(e.kw)
                    continue
                fl = [kval(a) if is_k(a) else None for a in e.args]
                if None in fl or not fl:
                    self.why = "%s: unknown name of the argument" % e.where()
                    return
                p.opts.append(Opt(e, fl))


def table(c):
    r = c.run(call_run("parse", "parse_args"), "parse_args")
    if r is None:
        return None
    t = Table(r)
    if t.why is None and t.sub_e is None:
        t.why = "no subcommands were found"
    if t.why:
        c.note("the parser was not understood: " + t.why)
        return None
    return t


def is_default(e, name, *values):
    v = e.kw.get(name)
    return v is None or any(v is K(x) for x in values)


def switch_ok(o):
    """The option is true when given and false otherwise; None if unknown."""
    e = o.e
    a = o.action
    if a is None:
        return False
    if not is_k(a):
        return None
    if kval(a) == "store_true":
        return is_default(e, "default", False, None, 0, "")
    if kval(a) == "store_const":
        k = e.kw.get("const")
        return is_default(e, "default", False, None, 0, "") and \
            k is not None and is_k(k) and bool(kval(k))
    if kval(a) == "count":
        return is_default(e, "default", False, None, 0)
    return False


def value_ok(o):
    """The option's argument is stored as it is, None if it is not given."""
    e = o.e
    if o.action is not None and not is_k(o.action):
        return None
    if o.action is not None and kval(o.action) not in ("store", None):
        return False
    if not is_default(e, "nargs", None) or not is_default(e, "default", None):
        return False
    if not is_default(e, "required", False) or e.kw.get("choices") is not None:
        return False
    t = e.kw.get("type")
    if t is not None and not (t.op == "ext" and t.args[0] == "str"):
        return None
    return True


@rule("P21", "the command line accepts every documented command, option and "
             "argument, as a value or as a switch that is off by default")
def options_accepted(c):
    t = table(c)
    if t is None:
        return
    for name, opts in OPTIONS.items():
        p = t.subs.get(name)
        w = t.sub_e.where() if p is None else p.e.where()
        if not c.require(p is not None, w, "the command %s exists" % name,
                         "the command %s is not known" % name,
                         "no-command " + name):
            continue
        for meaning, (flags, switch) in opts.items():
            for f in flags:
                o = p.flag(f)
                if not c.require(o is not None, w, "%s %s" % (name, f),
                                 "%s does not accept %s" % (name, f),
                                 "no-flag %s %s" % (name, f)):
                    continue
                ok = switch_ok(o) if switch else value_ok(o)
                if ok is None:
                    c.note("%s: the action of %s is not known" % (
                        o.e.where(), f))
                    continue
                c.require(ok, o.e.where(), "%s %s" % (name, f),
                          "%s of %s is not %s" % (
                              f, name, "a switch that is off unless it is given"
                              if switch else
                              "an optional value without a default"),
                          "flag-action %s %s" % (name, f))
        pos = p.positionals()
        want = 1 if "profile" in COMMANDS[name][2] else 0
        req = [o for o in pos if is_default(o.e, "nargs", None)]
        c.require(len(pos) == want and len(req) == want, w,
                  "%s takes %d argument(s)" % (name, want),
                  "%s does not take exactly %d argument(s)" % (name, want),
                  "arguments " + name)
    c.require(t.required, t.sub_e.where(), "a command is needed",
              "the command may be left out, and then none is carried out",
              "command-optional")
    for f in ("--debug",):
        o = t.main.flag(f)
        if c.require(o is not None, t.main.e.where(), f,
                     "%s is not accepted" % f, "no-flag " + f):
            c.require(switch_ok(o) is not False, o.e.where(), f,
                      "%s is not a switch that is off unless it is given" % f,
                      "flag-action " + f)
    for f in ("--quiet", "-q", "--help", "--version"):
        c.require(t.main.flag(f) is not None, t.main.e.where(), f,
                  "%s is not accepted" % f, "no-flag " + f)
    for p in [t.main] + list(t.subs.values()):
        kw = made_with(t, p)
        if kw is None or "conflict_handler" in kw:
            continue
        fl = [f for o in p.opts for f in o.flags if f.startswith("-")]
        a = kw.get("add_help")
        if a is None or is_k(a) and kval(a):
            fl += ["-h", "--help"]
        twice = sorted({f for f in fl if fl.count(f) > 1})
        c.require(not twice, p.e.where(), "no option is defined twice",
                  "%s is defined twice, which ends every command with an error"
                  % ", ".join(twice), "defined-twice %s" % (p.name or ""))
    for name, p in t.subs.items():
        c.require(p.flag("--help") is not None, p.e.where(), name + " --help",
                  "%s does not accept --help" % name, "no-flag %s --help" % name)


def made_with(t, p):
    """The keyword arguments that a parser was made with; None if unknown."""
    if p is not t.main:
        return p.e.kw
    if p.term in t.r.I.made_with:
        return t.r.I.made_with[p.term]
    for e in t.r.events:
        if e.result is not None and t.r.c(e.result) is p.term or \
                e.name == "super.__init__" and e.recv is not None and \
                t.r.c(e.recv) is p.term:
            return e.kw


def command_value(t, name):
    """The value of the destination of the subcommands for a command."""
    d = t.subs[name].defaults.get(t.subdest) if t.subdest else None
    if d is not None:
        return kval(d) if is_k(d) else None
    return name


def ns_attr(x, ns=None):
    """x is the attribute of the name space: its name."""
    if x.op in ("tmeth", "attr") and len(x.args) == 2 and \
            isinstance(x.args[0], str) and (ns is None or x.args[1] is ns):
        return x.args[0]


def decide(f, t, name, ns=None):
    """Replace tests of the command's name by their truth."""
    vals = {t.subdest: name} if t.subdest else {}
    for k, v in t.subs[name].defaults.items():
        if is_k(v):
            vals[k] = kval(v)

    def sub(a):
        for x in a.args:
            if isinstance(x, T) and ns_attr(x, ns) in vals and \
                    a.op in ("eq", "in"):
                o = [y for y in a.args if y is not x][0]
                if a.op == "eq" and is_k(o):
                    return 1 if kval(o) == vals[ns_attr(x, ns)] else 0
        return atom(a)
    return bmap(f, sub)


def ctor_index(r, mod, cls, meaning):
    """Index of the constructor argument of that meaning."""
    i, name = COMMANDS_BY[cls][meaning]
    for n in ast.walk(r.prog.modules[mod].tree):
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                    ps = [a.arg for a in f.args.args][1:] + \
                        [a.arg for a in f.args.kwonlyargs]
                    for want in (name, meaning):
                        if want in ps:
                            return ps.index(want)
    return i


COMMANDS_BY = {v[1]: v[2] for v in COMMANDS.values()}
GETTERS = {"init": "init", "sync": "sync", "reset": "reset", "list": "list",
           "empty-trash": "empty_trash"}


@rule("P21", "each command's object is made by its own class, and every option "
             "and argument reaches the constructor argument of its meaning")
def options_reach(c):
    t = table(c)
    r = c.run(call_run("def", "def_command", 1), "def_command")
    if t is None or r is None:
        return
    ns = mk("arg", "a0")
    for name, (mod, cls, args) in COMMANDS.items():
        if name not in t.subs:
            continue
        got = []
        for l, cond in leaves(r.result):
            f = decide(r.canon.b(cond), t, name, ns)
            if feasible(definite(f)) != 0:
                got.append((l, f))
        w = "%s def_command" % r.prog.modules[CLI].relpath
        for l, f in got:
            h = r.final.heap.get(l)
            if l.op == "top":
                c.note("%s: the object of %s is not known" % (w, name))
                continue
            own = isinstance(h, HInst) and h.cls.op == "cls" and \
                r.I.classes[h.cls.args[0]].name
            if not c.require(own == cls, w, "%s is carried out by %s" % (
                    name, cls), "the command %s is carried out by %s" % (
                        name, own or show(l, 2)), "class " + name):
                continue
            base = c.run(GETTERS[name])
            if base is None or base.obj is None:
                continue
            bh = base.init_st.heap.get(base.obj)
            for meaning in args:
                i = ctor_index(r, mod, cls, meaning)
                fields = [k for k, v in bh.fields.items()
                          if base.c(v) is mk("arg", str(i))]
                if not fields and meaning == "profile":
                    continue              # see profile_selected
                if not fields:
                    c.note("%s: where %s keeps %s is not known" % (
                        w, cls, meaning))
                    continue
                p = t.subs[name]
                if meaning == "profile":
                    o = (p.positionals() or [None])[0]
                else:
                    o = p.flag(OPTIONS[name][meaning][0][0])
                if o is None or o.dest is None:
                    continue
                v = r.c(h.fields.get(fields[0], NONE))
                want = OPTIONS[name].get(meaning, (0, 0))[1]
                ls = [(x, decide(g, t, name, ns)) for x, g in leaves(v)]
                ls = [(x, g) for x, g in ls if feasible(AND(f, g)) != 0]
                n = [ns_attr(x, ns) for x, g in ls]
                if want and None in n:        # a switch may be turned into bool
                    b = truth_of(v)
                    n = [ns_attr(x, ns) for a in atoms(b)
                         for x in subterms(a) if ns_attr(x, ns)]
                    if len(set(n)) != 1 or b != truth_of(
                            [x for a in atoms(b) for x in subterms(a)
                             if ns_attr(x, ns)][0]):
                        n = [None]
                if None in n and any(has_op(x, "top", "havoc", "res", "pure")
                                     for x, _ in ls):
                    c.note("%s: what %s gets as %s is not known" % (
                        w, cls, meaning))
                    continue
                c.require(set(n) == {o.dest}, w,
                          "%s: %s" % (name, meaning),
                          "%s of the command %s is %s instead of what the "
                          "command line gives for %s" % (
                              meaning, name, ", ".join(
                                  show(x, 2) for x, _ in ls), o.flags[0]),
                          "flow %s %s" % (name, meaning))
        c.require(bool(got), w, "%s makes a command" % name,
                  "the command %s makes no command object" % name,
                  "class " + name)


# ------------------------------------------------------------- the whole run
def command_prim(I, st, node, b, fi):
    me = b["self"]
    h = st.heap[me]
    n = I.classes[h.cls.args[0]].name
    I.event(st, "command", (me, K(n)), {}, node)
    for i, ci in sorted(I.classes.items()):
        if I.is_subclass(mk("cls", i), "ProgramError"):
            I.fork_class(st, ci.name, "command", K(n))
    return NONE


def ctor_prim(I, st, node, b, fi):
    """The constructor of a command may fail."""
    I.fork_class(st, "InputError", "ctor")
    return NONE


def whole(M):
    """cli.main, where the parser and each command may raise any of the
    package's errors."""
    P = dict(PRIMS)
    for _, cls, _ in COMMANDS.values():
        P[cls, "main"] = command_prim
        P[cls, "__init__"] = ctor_prim
    P["Command", "__init__"] = ctor_prim

    def args(run, I, st):
        I.force[".parse_args"] = ("InputError",)
        return [], {}
    return func_run(M, "cli.main", CLI, "main", args, prims=P)


def success(r):
    """The condition that a command was carried out without an error."""
    ok = 0
    for e in r.ev("command"):
        f = r.pc(e)
        for i, ci in r.I.classes.items():
            if r.I.is_subclass(mk("cls", i), "ProgramError"):
                f = AND(f, NOT(atom(mk("exc", ci.name, "command", e.args[1]))))
        ok = OR(ok, f)
    return ok


def debug_cond(t, c):
    o = t.main.flag("--debug")
    d = o.dest if o else "debug"
    return lambda f: [a for a in atoms(f) if any(
        ns_attr(x) == d for x in subterms(a))]


def reports(r, e):
    """The event writes to the standard error stream: the text or None."""
    if e.name == "print":
        f = e.kw.get("file")
        if f is not None and "sys.stderr" in show(r.c(f), 6):
            return list(e.args)
    if e.name in (".write", "sys.stderr.write", "sys.stderr.writelines") and \
            ("sys.stderr" in e.name or (
                e.recv is not None and "sys.stderr" in show(r.c(e.recv), 6))):
        return list(e.args)
    if e.name == "os.write" and e.args and e.args[0] is K(2):
        return list(e.args[1:])
    if e.name == "traceback.print_exc":
        return [K("traceback")]
    return None


@rule("P20", "every error of the package that the parser or a command raises is "
             "caught, its messages are printed on the standard error stream, and "
             "1 is returned; otherwise the result is 0")
def errors_reported(c):
    r = c.run(whole, "cli.main")
    t = table(c)
    if r is None or t is None:
        return
    w = "%s main" % r.prog.modules[CLI].relpath
    if not r.ev("command") and r.I.imprecise:
        c.note("%s: no command is carried out" % w)
        return
    ok, end = success(r), r.canon.b(r.final.pc)
    dbg = debug_cond(t, c)
    for cls, val, st in r.raised:
        if not program_error(r, cls):
            continue
        f = r.canon.b(st.pc)
        g = f
        for a in dbg(f):
            g = AND(g, NOT(atom(a)))
        ds = dbg(f)
        # without --debug nothing is raised
        off = f
        for a in ds:
            off = cofactor(off, a, False)
        c.never(off, None, "errors end the command with a message",
                "an error (%s) leaves the program as a traceback although "
                "debugging was not asked for" % cls_name(r, cls),
                "uncaught")
        if not ds and off == 0:
            c.note("--debug is not tested")
    for name in t.subs:
        for l, cond in leaves(r.result):
            f = decide(AND(r.canon.b(cond), end), t, name)
            yes = decide(ok, t, name)
            if not is_k(l):
                c.note("%s: the exit status %s is not known" % (w, show(l, 3)))
                continue
            v = kval(l)
            if v not in (1, True):
                c.never(AND(f, NOT(yes)), None, name + " after an error",
                        "the exit status is %r although the command %s failed" %
                        (v, name), "status-error")
            if v not in (0, None, False):
                c.never(AND(f, yes), None, name + " after a success",
                        "the exit status is %r although the command %s "
                        "succeeded" % (v, name), "status-success")
        # each failure is printed
        some = [e for e in r.events if reports(r, e)]
        printed = 0
        for e in some:
            printed = OR(printed, said(r, e))
        f = decide(AND(end, NOT(ok), NOT(printed)), t, name)
        c.never(f, None, name + ": the messages are printed on stderr",
                "an error ends the command %s without a message on the standard "
                "error stream" % name, "silent")
    for kind, m, node, text, fn, cond, stack in r.I.problems:
        if kind == "unbound" and fn == "main" and m.name == CLI:
            g = feasible(definite(fresh_names(r.canon.b(cond))))
            c.require(g == 0, "%s:%d in %s" % (
                m.relpath, node.lineno, fn), "names are bound when an error is "
                "handled", "when the error is raised early, %s" % text,
                "unbound-at-error")


def said(r, e):
    """The condition that e prints; an error has at least one message."""
    f = bmap(r.pc(e), lambda a: 1 if any(
        s.op == "initer" and s.args[0].op not in ("slice", "idx")
        for s in subterms(a)) else atom(a))
    xs = tuple(x for l in e.loops for x in l[1])
    return exists(xs, f) if xs else f


def select_prim(I, st, node, b, fi):
    a = [v for k, v in b.items() if k != "self"]
    I.event(st, "select", tuple(a), {}, node)
    I.fork_class(st, "InputError", "select")
    return mk("selected", *a)


def def_select(M):
    P = dict(PRIMS)
    P["Command", "select_profile"] = select_prim
    return func_run(M, "cli.def_select", CLI, "def_command",
                    lambda run, I, st: ([mk("arg", "a0")], {}), prims=P)


@rule("P21", "sync, reset and empty-trash work on the profile that their argument "
             "selects")
def profile_selected(c):
    t = table(c)
    r = c.run(def_select, "def_command")
    if t is None or r is None:
        return
    ns = mk("arg", "a0")
    w = "%s def_command" % r.prog.modules[CLI].relpath
    if not r.ev("select"):
        c.note("%s: no selection of a profile was found" % w)
        return
    for name in ("sync", "reset", "empty-trash"):
        if name not in t.subs or not t.subs[name].positionals():
            continue
        o = t.subs[name].positionals()[0]
        for l, cond in leaves(r.result):
            f = decide(AND(r.canon.b(cond), r.canon.b(r.final.pc)), t, name, ns)
            h = r.final.heap.get(l)
            if feasible(definite(f)) == 0 or not isinstance(h, HInst):
                continue
            v = r.c(h.fields.get("profile", NONE))
            if v.op != "selected":
                c.require(v is not NONE, w, name + " has a profile",
                          "%s has no profile" % name, "no-profile " + name)
                continue
            c.require([ns_attr(x, ns) for x in v.args] == [o.dest], w,
                      name + " selects by its argument",
                      "%s selects the profile by %s" % (
                          name, ", ".join(show(x, 2) for x in v.args)),
                      "select-arg " + name)


# -------------------------------------------------------- select_profile
ARGX = mk("arg", "x")


def select_run(M):
    """select_profile with opaque profiles: prof(n) is the one called n."""
    def setup(run, I, st, f):
        o = I.instantiate(f, [], {}, M.prog.dummy, st)
        h = st.heap[o]
        if "profiles" not in h.fields:
            raise Missing("Command.profiles")
        run.profiles = I.coll_of(h.fields["profiles"], st)
        run.setup_st = st.copy()
        st.setfield(o, "profiles", I.new_coll(st, "dict", [Part(
            (V0,), V0, mk("prof", V0), atom(mk("hasprof", V0)))]))
        return o
    return func_run(M, "select_profile", "zielen.commandbase", "select_profile",
                    lambda run, I, st: ([ARGX], {}), cls="Command", setup=setup)


def same_place(a):
    """The atom compares the argument's place with a profile's LocalDir: the
    profile's name."""
    ts = subterms(a)
    if ARGX not in ts:
        return None
    for x in ts:
        if x.op == "cfgval" and x.args[-1] is K("LocalDir"):
            for y in subterms(x):
                if y.op == "prof":
                    return y.args[0]
    return None


def world(a):
    """A profile that has a readable configuration and whose local directory
    exists is looked up by its path: the truth of a condition."""
    if a.op == "ex":
        g = bmap(a.args[1], world)
        return 1 if g == 1 and any(
            same_place(x) is not None for x in atoms(a.args[1])) else atom(a)
    if same_place(a) is not None:
        return 1 if identity(a) else atom(a)
    ts = subterms(a)
    place = ARGX in ts or any(x.op == "cfgval" for x in ts)
    if a.op == "hasprof":
        return 0 if a.args[0] is ARGX else 1
    if a.op in ("cfgkey", "cfgval"):
        return 1
    if a.op == "fs" and a.args[0] in ("exists", "access", "lexists"):
        return 1
    if a.op == "fs" and a.args[0] in ("isfile", "isdir"):
        return 1 if place == (a.args[0] == "isdir") else 0
    if a.op in ("islink", "linkfile"):
        return 0
    if a.op == "kdir":
        return 1 if place else 0
    return atom(a)


PATHFORMS = ("abspath", "realpath", "normpath", "expanduser", "expandvars",
             "normcase", "samefile", "tup", "access", "str", "fspath", "fs",
             "norm", "stat", "target")


def plain(t, leaf):
    """t is leaf, possibly spelled in another way."""
    while t is not leaf:
        if t.op == "ite":
            return all(plain(x, leaf) for x, _ in leaves(t) if x is not NONE)
        ts = [x for x in t.args if isinstance(x, T) and leaf in subterms(x)]
        if t.op not in PATHFORMS and not (
                t.op in ("pure", "res") and isinstance(t.args[0], str) and
                t.args[0].split(".")[-1] in PATHFORMS) or len(ts) != 1:
            return False
        t = ts[0]
    return True


def identity(a):
    """... and does so by identity of the files or of their names."""
    same = a.op == "res" and a.args[0] in ("os.path.samestat",)
    if not (a.op == "eq" or same or
            (a.op == "fs" and a.args[0] in ("access", "samefile"))):
        return False
    ts = a.args[1] if same else a.args
    for x in a.args:
        if isinstance(x, T) and x.op == "tup":
            ts = x.args
    for x in ts:
        if not isinstance(x, T):
            continue
        if ARGX in subterms(x) and not plain(x, ARGX):
            return False
        for y in subterms(x):
            if y.op == "cfgval" and y.args[-1] is K("LocalDir") and not (
                    plain(x, y) and (a.op != "eq" or normalised(x))):
                # The name in the file may end in a slash.
                return False
            if y.op == "cfgval" and y.args[-1] is K("LocalDir") and \
                    not expanded(x, y):
                # It may start with "~", too.
                return False
    return True


def expanded(t, leaf):
    """The home directory is filled in somewhere on the way from leaf to t."""
    return any(leaf in subterms(s) and (
        s.op == "expanduser" or s.op in ("pure", "res") and
        isinstance(s.args[0], str) and
        s.args[0].split(".")[-1] in ("expanduser", "expandvars"))
        for s in subterms(t))


def normalised(t):
    return any(s.op in NORMS or (
        s.op in ("pure", "res") and isinstance(s.args[0], str) and
        s.args[0].split(".")[-1] in NORMS) for s in subterms(t))


NORMS = ("norm", "abspath", "realpath", "normpath", "samefile", "fs", "tup")


def picked_from(t):
    """The result is some element of a collection of profiles: the conditions
    of its elements."""
    colls = [x for x in subterms(t) if x.op == "coll"]
    if len(colls) != 1 or t.op not in ("idx", "elem", "next", "pure", "res"):
        return None
    out = []
    for p in colls[0].args[1]:
        if p.args[1].op != "prof":
            return None
        out.append((p.args[0], truth_of(p.args[3])))
    return out or None


@rule("P21 P22", "a profile is selected by its name, or else by the path of its "
                 "local directory, and anything else is an input error")
def selection(c):
    r = c.run(select_run, "select_profile")
    if r is None:
        return
    w = "%s select_profile" % r.prog.modules["zielen.commandbase"].relpath
    end = r.canon.b(r.final.pc)
    strange = False
    byname = atom(mk("hasprof", ARGX))
    for l, cond in leaves(r.result):
        f = AND(end, r.canon.b(cond))
        l = r.c(l)
        if l.op == "top":
            c.note("%s: a result is not known" % w)
            continue
        picked = None
        if l.op != "prof":
            picked = picked_from(l)
        if l.op not in ("prof", "k") and picked is None:
            c.note("%s: the result %s is not known" % (w, show(l, 2)))
            continue
        if not c.require(l.op == "prof" or picked or
                         feasible(definite(f)) == 0, w,
                         "a profile is selected",
                         "the selection results in %s" % show(l, 2),
                         "no-profile"):
            continue
        if not picked and (l.op != "prof" or l.args[0] is ARGX):
            if l.op == "prof":
                c.never(AND(f, NOT(byname)), None, "profile by name",
                        "a profile that does not exist is selected by its name",
                        "ghost-profile")
            continue
        c.never(AND(f, byname), None, "the name comes first",
                "a profile is selected by a path although there is one of that "
                "name", "name-ignored")
        exs = [a for a in atoms(f) if a.op == "ex"]
        bodies = picked or [(a.args[0], a.args[1]) for a in exs]
        if not bodies:
            c.note("%s: the condition of a selection by path is not known" % w)
            continue
        for vs, body in bodies:
            links = [a for a in atoms(body) if same_place(a) is not None]
            good = [a for a in links if identity(a)]
            bad = [a for a in links if not identity(a) and
                   a.op not in ("cfgval", "cfgkey")]
            if any(s.op in ("res", "pure") and isinstance(s.args[0], str) and
                   s.args[0].split(".")[-1] not in PATHFORMS + (
                       "basename", "dirname", "commonprefix", "split", "stat",
                       "lower", "casefold")
                   for a in bad for s in subterms(a)):
                c.note("%s: how paths are compared is not known" % w)
                strange = True
                continue
            off = body
            for a in good:
                off = cofactor(off, a, False)
            if off == body and not bad:
                pass
            c.require(feasible(definite(off)) == 0, w,
                      "the path is the profile's local directory",
                      "a profile is selected by a path which is not that of its "
                      "local directory", "wrong-place",
                      witness=witness(off, None)[:600])

            g = bmap(body, world)
            if g == 1:
                c.ok(w, "every profile is found by its local directory")
            elif any(atom_has(a, ("top", "havoc")) for a in atoms(g)):
                c.note("%s: it is not known whether a profile is found by its "
                       "path" % w)
            else:
                c.bad(w, "every profile is found by its local directory",
                      "a profile is not found by the path of its local "
                      "directory", "path-not-found", "",
                      witness(NOT(g), None)[:600])
    if not any(r.c(l).op == "prof" and r.c(l).args[0] is not ARGX or
               picked_from(r.c(l)) for l, _ in leaves(r.result)):
        if any(r.c(l).op not in ("prof", "k") for l, _ in leaves(r.result)):
            c.note("%s: it is not known whether a profile is found by its path"
                   % w)
        else:
            c.bad(w, "a profile is found by its path",
                  "a profile is not found by the path of its local directory",
                  "path-not-found")
    for cls, val, st in r.raised:
        f = r.canon.b(st.pc)
        c.never(AND(f, byname), None, "a known name selects its profile",
                "the name of a profile leads to an error", "name-refused")
        if any(a.op == "exc" for a in atoms(f)):
            continue
        c.require(program_error(r, cls), w, "an unknown profile is reported",
                  "an argument that names no profile leads to %s, which the "
                  "command line does not report" % cls_name(r, cls),
                  "unknown-profile")
        g = bmap(f, world)
        if g != 0 and (strange or any(
                atom_has(a, ("top", "havoc")) for a in atoms(g))):
            c.note("%s: it is not known whether a profile is found by its path"
                   % w)
            continue
        c.require(g == 0, w, "a profile is found by its local directory",
                  "a profile is not found by the path of its local directory",
                  "path-not-found", witness=witness(g, None)[:600])
    # the profiles that there are
    coll = r.profiles
    if coll is None or coll.kind != "dict":
        c.note("%s: the profiles are not known" % w)
        return
    for p in coll.parts.values() if isinstance(coll.parts, dict) else coll.parts:
        h = r.setup_st.heap.get(p.val) if p.val is not None else None
        if not isinstance(h, HInst):
            c.note("%s: a profile object is not known" % w)
            continue
        n, k = r.c(h.fields.get("name", NONE)), r.c(p.key)
        c.require(k is n or k.op == "v" and n.op == "v" or
                  k.op == n.op == "var", w, "profiles are listed by their names",
                  "a profile is listed as %s but is called %s" % (
                      show(k, 2), show(n, 2)), "profile-key")


# ------------------------------------------------------- actions and signals
def action_run(name, kw=()):
    """The action's call, after it was made as argparse makes it."""
    args = {"option_strings": mk("arg", "flags"), "dest": mk("arg", "dest")}
    args.update(kw)

    def get(M):
        return func_run(
            M, "cli.%s.%s" % (name, "-".join(
                "%s=%s" % (a, show(b, 2)) for a, b in sorted(args.items()))),
            CLI, "__call__", lambda run, I, st: (
                [mk("arg", a) for a in ("parser", "namespace", "values",
                                        "option")], {}), cls=name,
            setup=lambda run, I, st, f: I.instantiate(
                f, [], dict(args), M.prog.dummy, st))
    return get


def takes_value(r, o):
    """An action of the package's own takes an argument; None if unknown."""
    evs = [e for e in r.events[:r.init_events] if e.name == "super.__init__"
           or e.name.endswith("Action.__init__")]
    if not evs:
        n = o.e.kw.get("nargs")
    elif len(evs) == 1:
        n = evs[0].kw.get("nargs")
        if any(k.startswith("**") for k in evs[0].kw):
            return None
    else:
        return None
    if n is None:
        return True
    return kval(n) != 0 if is_k(n) else None


def handler_name(r, f):
    f = r.c(f)
    if f.op == "fn":
        return r.I.funcs[f.args[0]].name
    return None


@rule("P21 P20", "--quiet silences the standard output and nothing else; --help "
                 "and --version print and end the program")
def special_actions(c):
    t = table(c)
    if t is None:
        return
    for f, kind, p in [("--quiet", "quiet", t.main), ("--help", "end", t.main),
                       ("--version", "end", t.main)] + [
                           ("--help", "end", p) for p in t.subs.values()]:
        o = p.flag(f)
        if o is None:
            continue
        if o.action is None or o.action is K("store"):
            c.bad(o.e.where(), "%s is a switch" % f, "%s takes a value, and "
                  "does nothing" % f, "action " + f)
            continue
        if is_k(o.action):
            if kind == "end":
                c.require(kval(o.action) in ("help", "version"), o.e.where(),
                          f, "%s does not print and exit" % f, "action " + f)
            else:
                c.note("%s is a plain option" % f)
            continue
        if o.action.op != "cls":
            c.note("the action of %s is not known" % f)
            continue
        n = t.r.I.classes[o.action.args[0]].name
        r = c.run(action_run(n, [x for x in o.e.kw.items()
                                 if x[0] != "action"]), n)
        if r is None:
            continue
        tv = takes_value(r, o)
        if tv is None:
            c.note("%s: whether %s takes an argument is not known" % (
                o.e.where(), f))
        else:
            c.require(not tv, o.e.where(), "%s is a switch" % f,
                      "%s takes an argument" % f, "action-value " + f)
        w = "%s %s.__call__" % (r.prog.modules[CLI].relpath, n)
        evs = r.events[r.init_events:]
        if kind == "end":
            out = [e for e in evs if e.name in (
                ".exit", "sys.exit", "os._exit", "exit", "quit")]
            cov = r.canon.b(r.final.pc) if not r.final.dead() else 0
            for e in out:
                if e.name == ".exit":
                    cov = AND(cov, NOT(r.pc(e)))
            c.require(feasible(definite(cov)) == 0, w, "%s ends the program" % f,
                      "the program goes on after %s" % f, "action-goes-on " + f)
            shown = 0
            for e in evs:
                if e.name == "print" or e.name.endswith(".write") or \
                        "print_" in e.name:
                    shown = OR(shown, r.pc(e))
            c.require(feasible(definite(NOT(shown))) == 0, w,
                      "%s prints" % f, "%s may print nothing" % f,
                      "action-silent " + f)
            for e in out:
                a = e.arg(0, "status")
                if a is not None and is_k(a):
                    c.require(kval(a) in (0, None, False), e.where(),
                              "%s is a success" % f,
                              "%s ends with the status %r" % (f, kval(a)),
                              "action-status " + f)
        else:
            done_ = 0
            for e in evs:
                if e.name == "setattr" and e.args[0] is mk("ext", "sys"):
                    a = e.args[1]
                    if a is K("stdout"):
                        if "devnull" in show(r.c(e.args[2]), 6) or \
                                "/dev/null" in show(r.c(e.args[2]), 6) or \
                                "StringIO" in show(r.c(e.args[2]), 6):
                            done_ = OR(done_, r.pc(e))
                            op = r.c(e.args[2])
                            if op.op == "res" and op.args[0] == "open":
                                md = op.args[1][1] if len(op.args[1]) > 1 \
                                    else K("r")
                                if md.op == "kw":
                                    md = md.args[1]
                                c.require(not is_k(md) or any(
                                    x in kval(md) for x in "wax+"), e.where(),
                                    "the silent output can be written",
                                    "--quiet makes every message an error",
                                    "quiet-unwritable")
                        elif op_none(e.args[2]):
                            done_ = OR(done_, r.pc(e))
                    elif a is K("stderr"):
                        c.bad(e.where(), "errors are still shown",
                              "--quiet hides the error messages as well",
                              "quiet-errors")
                if e.name in ("os.dup2", "contextlib.redirect_stdout"):
                    done_ = 1
            c.require(feasible(definite(NOT(done_))) == 0, w,
                      "--quiet silences the output",
                      "--quiet does not silence the standard output", "quiet")


def op_none(t):
    return t is NONE


@rule("P21 P20", "SIGTERM, SIGHUP and SIGINT end a command with a reported "
                 "error; SIGTERM ends the daemon normally")
def signals(c):
    for name, get in (("main", whole), ("daemon", call_run("daemon", "daemon", 1))):
        r = c.run(get, "cli." + name)
        if r is None:
            continue
        w = "%s %s" % (r.prog.modules[CLI].relpath, name)
        got = {}
        for e in r.events:
            if e.name != "signal.signal":
                continue
            s = r.c(e.arg(0, "signalnum"))
            if s.op != "ext":
                c.note("%s: the signal %s is not known" % (
                    e.where(), show(s, 2)))
                continue
            got.setdefault(s.args[0].split(".")[-1], []).append(e)
        first = [e for e in r.events if e.name in (
            ".parse_args", "command") or e.name.startswith((
                "db.", "config.", "os.", "info."))]
        for sig in ("SIGTERM", "SIGHUP", "SIGINT"):
            es = got.get(sig)
            if sig == "SIGINT" and name == "daemon" and not es:
                continue
            if not es:
                if not any(e.name == "signal.signal" and r.c(
                        e.arg(0, "signalnum")).op != "ext" for e in r.events):
                    c.bad(w, "%s: handler of %s" % (name, sig),
                          "%s: %s kills the program at once" % (name, sig),
                          "no-handler %s %s" % (name, sig))
                continue
            e = es[-1]
            if first:
                c.require(es[0].seq < first[0].seq or name == "daemon",
                          e.where(),
                          "%s is set before the work" % sig,
                          "%s is handled only after the work has begun" % sig,
                          "late-handler %s %s" % (name, sig))
            f = r.c(e.arg(1, "handler"))
            if f.op == "ext":
                c.require(sig == "SIGINT" and "default_int" in f.args[0],
                          e.where(), "handler of " + sig,
                          "%s: %s is handled by %s" % (name, sig, f.args[0]),
                          "handler %s %s" % (name, sig))
                continue
            h = handler_name(r, f)
            if h is None:
                c.note("%s: the handler of %s is not known" % (e.where(), sig))
                continue
            hr = c.run(call_run(h, h, 2), h)
            if hr is None:
                continue
            hw = "%s %s" % (hr.prog.modules[CLI].relpath, h)
            c.require(hr.final.dead(), hw, "the handler ends the operation",
                      "%s: the program goes on after %s" % (name, sig),
                      "goes-on %s %s" % (name, sig))
            for cls, val, st in hr.raised:
                n = cls_name(hr, cls)
                if name == "main":
                    c.require(program_error(hr, cls), hw,
                              "%s is reported" % sig,
                              "%s leads to %s, which the command line does not "
                              "report" % (sig, n), "signal-class " + sig)
                    hi = hr.final
                    i = st.heap.get(val)
                    if isinstance(i, HInst):
                        a = i.fields.get("args")
                        c.require(a is None or a.op != "tup" or bool(a.args),
                                  hw, "the report has a message",
                                  "%s is reported without a message" % sig,
                                  "signal-silent " + sig)
                elif sig == "SIGTERM":
                    ok = cls.op == "ext" and cls.args[0] == "SystemExit"
                    c.require(ok, hw, "SIGTERM ends the daemon normally",
                              "SIGTERM ends the daemon with %s" % n,
                              "daemon-term")
            if name == "daemon" and sig == "SIGTERM":
                for x in hr.events:
                    if x.name in ("sys.exit", "os._exit", "exit", "quit"):
                        a = x.arg(0)
                        c.require(a is None or not is_k(a) or kval(a) in (
                            0, None, False), x.where(),
                            "SIGTERM ends the daemon with 0",
                            "SIGTERM ends the daemon with the status %s" %
                            show(a, 2), "daemon-status")
            if name == "main":
                c.require(any(r.I.exc_match(cls, x) for x in e.handlers
                              for cls, _, _ in hr.raised) or not hr.raised,
                          e.where(), "%s is caught from the start" % sig,
                          "%s right after its handler is set is not reported" %
                          sig, "signal-uncaught " + sig)


@rule("P20", "a wrong command line is reported as an input error with its "
             "message")
def bad_arguments(c):
    t = table(c)
    if t is None:
        return
    m = t.main.term
    h = t.r.final.heap.get(m) if m.op == "ref" else None
    w = t.call.where()
    if isinstance(h, HInst) and h.cls.op == "cls":
        cls = t.r.I.classes[h.cls.args[0]].name
    else:
        c.require(m.op != "res", w, "the parser reports errors itself",
                  "a wrong command line is handled by argparse, which exits "
                  "with the status 2", "parser-class")
        return
    pc = t.sub_e.kw.get("parser_class")
    if pc is not None:
        c.require(pc.op != "ext", t.sub_e.where(), "class of the subparsers",
                  "a wrong command line is handled by argparse, which exits "
                  "with the status 2", "parser-class")
    r = c.run(lambda M: func_run(
        M, "cli.error", CLI, "error", lambda run, I, st: ([mk("arg", "m")], {}),
        cls=cls, setup=lambda run, I, st, f: I.instantiate(
            f, [], {}, M.prog.dummy, st)), "error")
    if r is None:
        return
    w = "%s %s.error" % (r.prog.modules[CLI].relpath, cls)
    c.require(r.final.dead() and r.raised, w,
              "a wrong command line is an error",
              "a wrong command line is not turned into an error of the package",
              "parser-error")
    for x, val, st in r.raised:
        c.require(program_error(r, x), w, "class of the error",
                  "a wrong command line leads to %s, which main does not report"
                  % cls_name(r, x), "parser-error-class")
        i = st.heap.get(val)
        if isinstance(i, HInst) and "args" in i.fields:
            c.require(mk("arg", "m") in subterms(r.c(i.fields["args"])), w,
                      "the message is kept", "a wrong command line is reported "
                      "without saying what is wrong", "parser-message")


@rule("P20", "the errors that a command raises itself are those that main "
             "reports, and they have a message")
def own_errors(c):
    for n in ("sync", "init", "reset", "empty_trash", "list"):
        r = c.run(n)
        if r is None:
            continue
        for cls, val, st in r.raised:
            if cls.op != "cls":
                continue
            f = r.canon.b(AND(st.pc, st.ax))
            w = "%s: %s" % (n, cls_name(r, cls))
            c.require(program_error(r, cls), w, "reported error",
                      "%s ends with %s, which the command line does not report" %
                      (n, cls_name(r, cls)), "class %s" % cls_name(r, cls))
            h = st.heap.get(val)
            if isinstance(h, HInst):
                a = h.fields.get("args")
                c.require(a is None or a.op != "tup" or bool(a.args), w,
                          "error with a message",
                          "%s: %s has no message" % (n, cls_name(r, cls)),
                          "no-message %s" % cls_name(r, cls))


@rule("P20", "the scripts exit with the status that the program returns")
def scripts(c):
    root = c.M.prog.root
    for path, fn in (("scripts/zielen", "main"), ("scripts/zielend", "daemon")):
        p = os.path.join(root, path)
        try:
            tree = ast.parse(open(p).read())
        except (OSError, SyntaxError) as e:
            c.note("%s could not be read: %s" % (path, e))
            continue
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module == CLI:
                for a in n.names:
                    names[a.asname or a.name] = a.name
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                f = n.value.func
                if isinstance(f, ast.Name) and f.id in names:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names[t.id] = "=" + names[f.id]

        def isret(x):
            if isinstance(x, ast.Call):
                f = x.func
                return (isinstance(f, ast.Name) and names.get(f.id) == fn) or (
                    isinstance(f, ast.Attribute) and f.attr == fn)
            return isinstance(x, ast.Name) and names.get(x.id) == "=" + fn
        calls = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and
                 isret(n)]
        if not calls:
            c.note("%s: no call of %s was found" % (path, fn))
            continue
        ok = False
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and any(isret(x) for x in n.args):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(
                    f, "id", "")
                ok = ok or nm in ("exit", "_exit", "SystemExit", "quit")
        c.require(ok, "%s:%d" % (path, calls[0].lineno),
                  "%s exits with the status" % path,
                  "%s does not exit with the status that %s returns" % (
                      path, fn), "script " + path)


REMOTE_OPS = ("transfer_tree", "symlink_tree", "scan_paths", "scan_tree",
              "shutil.copy", "os.mkdir", "os.rename", "os.remove",
              "shutil.rmtree", "os.scandir", "os.listdir", "os.makedirs",
              "shutil.copy2", "shutil.copyfile", "shutil.move", "os.walk")


def on_remote(r, e):
    for a in list(e.args) + list(e.kw.values()):
        t = r.c(a)
        if t.op in ("coll", "ref"):
            continue
        if REMOTE in subterms(t) and not any(
                x.op in ("jsonval", "cfgval") for x in subterms(t)
                if x is not t):
            return True
        if REMOTE in subterms(t):
            return True
    return False


@rule("P20", "a remote directory that is missing, or goes away while files are "
             "copied, is reported")
def remote_lost(c):
    from .rules_misc import now
    fnf = mk("ext", "FileNotFoundError")

    def test(a):
        return a.op in ("fs", "kdir") and any(
            x in (UTIL, TRASH) or x.op == "pjoin" and x.args[:len(UTIL.args)]
            == UTIL.args for x in a.args if isinstance(x, T)) and (
                a.op != "fs" or a.args[0] in ("exists", "isdir", "lexists",
                                              "access"))

    def gone(f, before=()):
        """f where every (later) test for the remote directory fails."""
        return bmap(f, lambda a: 0 if a not in before and test(a) else atom(a))
    for n in ("sync", "init", "reset", "empty_trash"):
        r = c.run(n)
        if r is None:
            continue
        ops = [e for e in r.events if e.name in REMOTE_OPS and on_remote(r, e)]
        handled = [e for e in ops if any(r.I.exc_match(fnf, h)
                                         for h in e.handlers)]
        for e in ops:
            if e.name in ("transfer_tree", "shutil.copy") or n == "sync" and \
                    e.name in ("os.mkdir", "os.rename"):
                c.require(e in handled, e.where(), "%s: lost directory" % n,
                          "%s: a directory that goes away while files are copied "
                          "or moved leads to a traceback" % n, "lost %s" % e.name, e)
        if n != "init":
            for e in ops:
                if e in handled:
                    continue
                f = gone(r.pc(e))
                for x in handled:
                    if x.seq < e.seq:
                        f = AND(f, NOT(now(r, e, x)))
                c.never(f, e, "%s: missing directory" % n,
                        "%s: the remote directory is used without finding out "
                        "whether it is there" % n, "missing %s" % e.name)
        for cls, val, st in r.raised:
            if cls is not fnf:
                continue
            f = r.canon.b(AND(st.pc, st.ax))
            if val.op != "excval":
                c.never(f, None, "%s: errors are the package's" % n,
                        "%s: FileNotFoundError is raised instead of an error "
                        "that is reported" % n, "raises-builtin")
                continue
            for e in handled:
                pc = r.pc(e)
                for a in atoms(f):
                    if a.op != "exc" or a.args[:2] != (
                            "FileNotFoundError", e.name) or \
                            AND(pc, atom(a)) != 0:
                        continue            # not this operation's failure
                    pre = OR(cofactor(pc, a, True), cofactor(pc, a, False))
                    g = AND(cofactor(f, a, True), NOT(cofactor(f, a, False)))
                    c.never(AND(gone(g, atoms(pre)), pre), None,
                            "%s: lost directory (%s)" % (n, e.where()),
                            "%s: a remote directory that is gone leads to a "
                            "traceback instead of a message" % n,
                            "lost-unreported %s" % e.name)


def measured_roots(r, t):
    """The directories whose files are added up in t, with the unit of each
    size; None if a part of it is not understood."""
    alts = [t]
    if t.op == "phi":
        alts = list(r.I.phi_alts.get((t.args[0], t.args[1]), ()))
    roots, units = set(), set()
    for a in alts:
        a = r.c(a)
        for x in subterms(a):
            if x.op == "stat" and len(x.args) > 1:
                for d in (LOCAL, REMOTE):
                    if d in subterms(x.args[0]):
                        roots.add(d)
                f = 1
                for y in subterms(a):
                    if y.op == "mul" and x in y.args:
                        o = [z for z in y.args if z is not x]
                        f = kval(o[0]) if o and is_k(o[0]) else None
                n = x.args[1]
                units.add((kval(n) if is_k(n) else n, f))
    return roots, units


@rule("P20", "files are only transferred by init and reset if all of them fit "
             "into the space that the other directory has")
def space_checked(c):
    for n, src, dst in (("reset", REMOTE, LOCAL), ("init", LOCAL, REMOTE)):
        r = c.run(n)
        if r is None:
            continue
        for e in r.ev("transfer_tree"):
            pc = r.pc(e)
            ats = [a for a in atoms(pc) if a.op == "lt" and any(
                x.op == "attr" and x.args[-1] is K("free") or
                "free" in [y for y in x.args if isinstance(y, str)]
                for x in subterms(a))]
            good = False
            # Whatever way it was computed, there was enough.
            short = pc
            for a in ats:
                short = cofactor(short, a, any(
                    x.op == "res" and x.args[0] == "shutil.disk_usage"
                    for x in subterms(a.args[0])))
            for a in ats:
                lo, hi = a.args
                free_first = any(x.op == "res" and
                                 x.args[0] == "shutil.disk_usage"
                                 for x in subterms(lo))
                fr, tot = (lo, hi) if free_first else (hi, lo)
                where_ = [d for x in subterms(fr) if x.op == "res" and
                          x.args[0] == "shutil.disk_usage"
                          for d in (LOCAL, REMOTE) if d in subterms(x)]
                roots, units = measured_roots(r, tot)
                if not roots:
                    c.note("%s: what is compared with the free space is not "
                           "known" % e.where())
                    good = True
                    continue
                if short != 0:
                    continue
                if not c.require(set(where_) == {dst}, e.where(),
                                 "%s: free space of the target" % n,
                                 "%s compares the files with the free space of "
                                 "the wrong directory" % n, "space-target"):
                    continue
                if not c.require(roots == {src}, e.where(),
                                 "%s: size of the source" % n,
                                 "%s compares the free space with the size of "
                                 "the wrong directory" % n, "space-source"):
                    continue
                c.require(all(u in (("st_blocks", 512), ("st_size", 1))
                              for u in units), e.where(), "%s: unit" % n,
                          "%s measures the files as %s" % (n, ", ".join(
                              "%s times %s" % u for u in units)), "space-unit")
                good = True
            c.require(good, e.where(), "%s: enough space" % n,
                      "%s transfers files without having found that there is "
                      "enough space for them" % n, "space", e)


@rule("P19 P29", "the program of the daemon runs the daemon for the profile that "
                 "it is given")
def daemon_entry(c):
    r = c.run(call_run("daemon", "daemon", 1), "cli.daemon")
    if r is None:
        return
    w = "%s daemon" % r.prog.modules[CLI].relpath
    work = [e for e in r.events if "watch" in e.name.lower() or
            "notify" in e.name.lower() or "Thread" in e.name]
    if not c.require(work, w, "the daemon is run", "the daemon ends without "
                     "having begun its work", "daemon-idle"):
        return
    if not r.final.dead():
        c.never(AND(r.canon.b(r.final.pc), *[
            NOT(r.pc(e)) for e in work[-1:]]), None, "the daemon is run",
            "the daemon may end without having begun its work", "daemon-idle")


@rule("P21", "--debug shows where an error comes from")
def debug_shown(c):
    r = c.run(whole, "cli.main")
    t = table(c)
    if r is None or t is None or not r.ev("command"):
        return
    dbg = debug_cond(t, c)
    fs = [r.canon.b(st.pc) for cls, val, st in r.raised
          if program_error(r, cls)]
    fs += [r.pc(e) for e in r.events if e.name.startswith("traceback.")
           or e.name in ("logging.exception", "sys.excepthook")]
    c.require(any(dbg(f) for f in fs), "%s main" % r.prog.modules[CLI].relpath,
              "an error is shown in full if that was asked for",
              "--debug has no effect on how an error is shown", "debug-unused")


# ------------------------------------------------------------ P30: the list
def table_prim(I, st, node, b, fi):
    I.event(st, "table", (b.get("data", NONE),), {}, node)
    return NONE


def format_prim(I, st, node, b, fi):
    return mk("table", b["self"])


def list_run(M):
    P = dict(PRIMS)
    P["BoxTable", "__init__"] = table_prim
    P["BoxTable", "format"] = format_prim
    return M.method_run("list-table", "zielen.commands.list", "ListCommand", 0,
                        prims=P)


COLUMNS = (("local", "LocalDir"), ("remote", "RemoteDir"),
           ("limit", "StorageLimit"))


@rule("P30", "list prints, for every profile, its name and the local directory, "
             "the remote directory and the storage limit of its own "
             "configuration, under their headings")
def profiles_listed(c):
    r = c.run(list_run, "list")
    if r is None or r.final is None:
        return
    ts = r.ev("table")
    shown = [e for e in r.events if e.name in (
        "print", ".write", "sys.stdout.write", ".writelines") and not all(
            is_k(a) for a in e.args)]
    if not ts and not shown and not r.I.imprecise:
        c.bad("zielen/commands/list.py", "the list is printed",
              "the list of profiles is not printed", "not-printed")
        return
    if len(ts) != 1 or not ts[0].colls:
        c.note("zielen/commands/list.py: how the list is printed is not known")
        return
    e = ts[0]
    h = next(iter(e.colls.values()))
    rows, heads = [], []
    for p in h.parts.values():
        k = r.c(p.key)
        if k.op != "tup":
            c.note("%s: a row of the list is not known" % e.where())
            return
        (heads if all(x.op == "k" for x in k.args) else rows).append((p, k))
    if rows and not c.require(heads, e.where(), "the columns have headings",
                              "the columns of the list have no headings",
                              "no-headings"):
        return
    if len(heads) != 1:
        c.note("%s: the headings of the list are not known" % e.where())
        return
    hs = [str(kval(x)).lower() for x in heads[0][1].args]
    at = {}
    for word, key in COLUMNS + (("profile", None),):
        i = [n for n, t in enumerate(hs) if word in t]
        if not c.require(len(i) == 1, e.where(), "heading " + word,
                         "the list has no column for %s" % (key or "the name"),
                         "no-column " + word):
            return
        at[key] = i[0]
    # the rows
    listed = 0
    for p, k in rows:
        name = k.args[at[None]]
        cond = r.canon.b(p.cond)
        listed = OR(listed, exists(tuple(p.vars), AND(cond, eq(name, X))))
        for key in ("LocalDir", "RemoteDir", "StorageLimit"):
            for l, f in leaves(p.key.args[at[key]]):
                w = "%s is what the configuration says" % key
                g = AND(p.cond, f)
                if feasible(definite(g)) == 0:
                    continue
                if l.op == "cfgval":
                    c.require(l.args[1] is K(key), e.where(), w,
                              "the list shows %s as the %s" % (
                                  show(l.args[1], 2), key), "column " + key)
                    prof = l.args[0].args[-2:-1] if l.args[0].op == "path" \
                        else ()
                    if prof and prof[0].op == "k":
                        c.bad(e.where(), w, "the list shows the configuration "
                              "of another profile", "column-profile " + key)
                elif is_k(l):
                    # Nothing to show.
                    have = AND(*[atom(a) for a in atoms(g) if
                                 a.op in ("cfgkey", "cfgval") and
                                 a.args[1] is K(key)])
                    some = any(a.op == "cfgval" and a.args[1] is K(key)
                               for a in atoms(g))
                    c.require(some and feasible(definite(AND(g, have))) == 0,
                              e.where(), w, "the list leaves out the %s of a "
                              "profile that has one" % key, "column " + key)
                elif any(s.op in ("top", "havoc") for s in subterms(l)):
                    c.note("%s: the %s that is listed is not known" % (
                        e.where(), key))
                else:
                    c.require(any(s.op == "cfgval" and s.args[1] is K(key)
                                  for s in subterms(l)), e.where(), w,
                              "the list shows %s as the %s" % (
                                  show(l, 3), key), "column " + key)
    d = r.init_st.heap.get(r.obj)
    coll = d.fields.get("profiles") if isinstance(d, HInst) else None
    if coll is not None:
        coll = r.I.iter_rec(coll, r.init_st, r.prog.dummy)
    if coll is None:
        c.note("%s: the profiles are not known" % e.where())
        return
    has = r.canon.b(E.member(r.I, coll, X, r.init_st))
    def own(a):
        if a.op == "islink":
            return 0
        if a.op in ("indir", "kdir") or a is X or a.op == "fs":
            return 1
        return atom(a)
    f = bmap(has, own)
    if any(atom_has(a, ("top", "havoc")) for a in atoms(f)):
        c.note("%s: the profiles are not known" % e.where())
    else:
        c.require(f == 1, e.where(), "every directory of a profile is known",
                  "not every profile is known to the list", "profile-unknown")
    c.never(AND(has, r.pc(e), NOT(listed)), e, "every profile is listed",
            "a profile is not listed", "profile-left-out", X)
    printed = OR(*[r.pc(p) for p in r.ev("print") + r.ev("sys.stdout.write")
                   if any(s.op == "table" for a in p.args
                          for s in subterms(r.c(a)))])
    c.never(AND(r.canon.b(r.final.pc), has, NOT(printed)), e,
            "the list is printed", "the list of profiles is not printed",
            "not-printed", X)
