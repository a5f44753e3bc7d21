"""P14, P16, P21: what init puts into a new profile; P09: patterns."""
from .terms import *
from .model import *
from .interp import HInst, HColl, V0
from . import ext as X
from .check import rule
from .lang import *
from .sql import Unknown
from .rules_life import init, dumped, saves, has_term
from .rules_conf import LINES

INIT_PY = "zielen/commands/init.py"
PATTERNS = LINES - lang(r"\s*(#[\s\S]*)?")
PROF_PY = "zielen/profile.py"


def own(name):
    return lambda m: m.loc.region == "PROFILE" and m.loc.comps == (K(name),)


def lookup(r, coll, key):
    """[(condition, value)] of a key in a collection."""
    f, v = X.dict_lookup(r.I, coll, key, r.final)
    if v is None:
        return r.canon.b(f), []
    return r.canon.b(f), [(r.canon.b(AND(f, cnd)), r.c(l))
                          for l, cnd in leaves(r.c(v))]


def term(f):
    """The argument whose truth the formula is."""
    return [t for a in atoms(f) for t in subterms(a) if t.op == "arg"][0]


@rule("P14 P16 P21", "the options of init reach the profile that it creates")
def init_inputs(c):
    k = init(c)
    if k is None or k.r.final.dead():
        return
    r = k.r
    # ---- add_remote is kept for an initialization that is resumed
    early = []
    for d, s in saves(r):
        v = dumped(r, d, "Status")
        if v and any(x is K("partial") for _, x in v):
            early.append((d, v))
    for d, v in early:
        io = dumped(r, d, "InitOptions")
        if io is None:
            c.note("%s: what is written to the info file is not known"
                   % d.where())
            continue
        new = AND(r.pc(d), OR(*[f for f, x in v if x is K("partial")]),
                  NOT(k.partial))
        got = 0
        for f, ref in io:
            coll = d.colls.get(ref)
            if coll is None and definite(AND(new, f)) == 0:
                continue
            if coll is None:
                c.note("%s: the options of init are not known" % d.where())
                got = 1
                continue
            for f2, x in lookup(r, coll, K("add_remote"))[1]:
                f3 = AND(new, f, f2)
                t = truth_of(x)
                got = OR(got, AND(f3, OR(AND(t, k.add_remote),
                                         AND(NOT(t), NOT(k.add_remote)))))
        c.never(AND(new, NOT(got)), d, "--add-remote is recorded for a "
                "resumed initialization", "an initialization that is resumed "
                "does not know whether --add-remote was given", "add-remote")
    # ---- the template
    given, template = k.template, term(k.template)
    prompts = [e for e in r.events if e.name == "config.prompt" and
               own_path(r, r.c(e.args[0]), "config")]
    x = var("Q")
    theirs = atom(mk("cfgkey", template, x))
    ok = 0
    for e in prompts:
        coll = e.colls.get("raw")
        if coll is None:
            c.note("%s: the options before the prompt are not known"
                   % e.where())
            return
        f, vals = lookup(r, coll, x)
        pc = r.pc(e)
        ok = OR(ok, AND(pc, given))
        c.never(AND(pc, given, theirs, NOT(f)), e, "the options of the "
                "template are used", "an option of the template is not used",
                "template-lost")
        c.never(AND(pc, given, NOT(theirs), f), e, "only the options of the "
                "template are used", "an option that the template does not "
                "have is used", "template-more")
        for f2, v in vals:
            if v is mk("cfgval", template, x):
                continue
            c.never(AND(pc, given, theirs, f2), e, "the values of the "
                    "template are used", "an option is %s instead of the "
                    "template's value" % show(v, 3), "template-value")
    checks = [e for e in r.events if e.name == "config.check_all" and
              "config.prompt" not in [o.name for o in r.events
                                      if o.node is e.node]]
    for e in checks:
        if r.c(e.args[0]) is template:
            c.require(r.c(e.kw["empty"]) is not KTRUE, e.where(),
                      "a template need not set every required option",
                      "a template that leaves required options to the prompt "
                      "is refused", "template-empty")
    for m in k.effects:
        d = k.any_exc(OR(*[r.canon.b(m.ev.done.get(p.key, 0)) for p in checks
                           if r.c(p.args[0]) is template or
                           own_path(r, r.c(p.args[0]), "config")]))
        c.never(AND(m.pc, NOT(k.partial), given, NOT(d)), m.ev,
                "%s in %s after the template was validated"
                % (m.effect, m.loc.region), "the template is not validated",
                "template-checked")
    writes = [m for m in r.muts() if own("config")(m) and
              m.effect in ("write", "move-dst")]
    done = lambda e, evs: OR(*[r.canon.b(e.done.get(p.key, 0)) for p in evs])
    if not c.require(writes, INIT_PY, "init writes the configuration",
                     "init does not write a configuration", "no-config"):
        return
    for m in writes:
        c.never(AND(m.pc, NOT(k.partial), NOT(k.any_exc(done(m.ev, prompts)))),
                m.ev, "the configuration is written after the user was asked",
                "the configuration is written before the user was asked for "
                "what is missing", "asked-late")
    for m in k.effects:
        wr = k.any_exc(done(m.ev, [x.ev for x in writes]))
        c.never(AND(m.pc, NOT(k.partial), NOT(wr)), m.ev,
                "%s in %s with a configuration" % (m.effect, m.loc.region),
                "the user's files are touched without a configuration",
                "config-late")
    # the lines of the configuration are those of the template
    for e in r.events:
        if e.name == "open" and own_path(r, r.c(e.args[0]), "config") and \
                any("w" in (kval(t) if t.op == "k" else "") for t in e.args[1:2]):
            src = OR(*[AND(done(e, [o]), r.canon.b(f)) for o in r.events
                       if o.name == "open" for l, f in leaves(r.c(o.args[0]))
                       if l is template])
            c.never(AND(r.pc(e), given, NOT(k.any_exc(src))), e,
                    "a template that was given is what the configuration is "
                    "written from", "the configuration is not written from "
                    "the template that was given", "template-lines")
    # ---- the patterns
    epath = [m for m in r.muts() if own("exclude")(m)]
    lines = [e for e in r.events if e.name in (".write", ".writelines") and
             e.recv is not None and excl_file(r, e.recv)]
    if not c.require(epath, INIT_PY, "init writes the pattern file",
                     "a new profile has no pattern file", "no-patterns"):
        return
    given, exclude = k.exclude, term(k.exclude)
    got = 0
    for e in lines:
        x = r.c(e.args[0])
        src = source(r, e, x)
        if src is exclude:
            c.ok(e.where(), "the lines of --exclude become the patterns")
            f = bmap(r.pc(e), lambda a: 1 if a.op == "initer" else atom(a))
            about = [a for a in atoms(f) if has_term(a, x)]
            if about:
                try:
                    d = (PATTERNS - Words(x, LINES).of(exists_atoms(
                        f, lambda a: a not in about))).example()
                except Unknown as u:
                    c.note("%s: which lines become patterns is not known: %s"
                           % (e.where(), u))
                    d = None
                c.require(d is None, e.where(), "every pattern of --exclude is used",
                          "the line %r of --exclude is not used" % d,
                          "exclude-line")
                f = exists_atoms(f, lambda a: a in about)
            got = OR(got, f)
        elif x.op == "k":
            bad = [l for l in str(kval(x)).split("\n") if l.strip() and
                   not l.lstrip().startswith("#")]
            c.require(not bad, e.where(), "init adds only comments to the patterns",
                      "init adds the pattern %r" % (bad and bad[0]),
                      "pattern-added")
    copies = [e for e in r.events if e.name.startswith("shutil.copy") and
              len(e.args) > 1 and r.c(e.args[0]) is exclude and
              own_path(r, r.c(e.args[1]), "exclude")]
    got = OR(got, *[r.pc(e) for e in copies])
    stdin = eq(K("-"), exclude)
    end = AND(k.end(), given, NOT(stdin), NOT(k.partial))
    c.never(AND(end, NOT(k.any_exc(got))), epath[0].ev,
            "the lines of --exclude become the patterns",
            "the patterns given with --exclude are not used", "exclude-lost")
    got = 0
    for e in lines:
        x = r.c(e.args[0])
        if from_stdin(r, e, x):
            about = [a for a in atoms(r.pc(e)) if has_term(a, x)]
            got = OR(got, exists_atoms(
                bmap(r.pc(e), lambda a: 1 if a.op == "initer" else atom(a)),
                lambda a: a in about))
    got = OR(got, *[r.pc(e) for e in r.events
                    if e.name.startswith("shutil.copyfileobj") and
                    from_stdin(r, e, r.c(e.args[0]))])
    c.never(AND(k.end(), given, stdin, NOT(k.partial), NOT(k.any_exc(got))),
            epath[0].ev, "the standard input becomes the patterns if it is "
            "given as the file", "the patterns given on the standard input are "
            "not used", "exclude-stdin-lost")


def from_stdin(r, e, x):
    """x is read from the standard input."""
    ts = [x] + [r.c(a.args[0]) for a in atoms(r.pc(e)) if a.op == "initer" and
                a.args[1] is x]
    return any("sys.stdin" in str(a) for t in ts for s in subterms(t)
               for a in s.args if s.op in ("ext", "res"))


def source(r, e, x):
    """The path of the file whose line (or contents) x is, if known."""
    for a in atoms(r.pc(e)):
        if a.op == "initer" and a.args[1] is x:
            t = r.c(a.args[0])
            for l, _ in leaves(t):
                if l.op == "res" and l.args[0] == "open":
                    return r.c(l.args[1][0])
    if x.op == "res" and x.args[0] in (".read", ".readlines", "open"):
        for s in subterms(x):
            if s.op == "res" and s.args[0] == "open":
                return r.c(s.args[1][0])
    return None


def own_path(r, t, name):
    for l, _ in locate(t):
        if l is not None and l.region == "PROFILE" and l.comps == (K(name),):
            return True
    return False


def excl_file(r, t):
    for l, _ in leaves(r.c(t)):
        if l.op == "res" and l.args[0] == "open" and \
                own_path(r, r.c(l.args[1][0]), "exclude"):
            return True
    return False


# ------------------------------------------------------------ P09: patterns
PF, START, OTHER, THIRD = mk("root", "PATTERNS"), K("/START"), K("/START2"), \
    K("/START3")
EXCL_PY = "zielen/profile.py in ProfileExcludeFile"


def pattern_run(M, again=False):
    def setup(run, I, st, f):
        return I.call(f, [PF], {}, M.prog.dummy, st)

    def call(run, I, st, name, *args):
        return I.call(I.getattr_(run.obj, name, M.prog.dummy, st), list(args),
                      {}, M.prog.dummy, st)

    def mkargs(run, I, st):
        if again:
            call(run, I, st, "all_matches", START)
            call(run, I, st, "reset")
        else:
            run.other = call(run, I, st, "all_matches", OTHER)
            run.matches = call(run, I, st, "matches", THIRD)
        run.mark = len(I.events)
        return [START], {}
    return func_run(M, "patterns%d" % again, "zielen.profile", "all_matches",
                    mkargs, without("matches", "all_matches"),
                    cls="ProfileExcludeFile", setup=setup)


FSKIND = {"islink", "linkdir", "kdir", "lexists", "exists"}


def plain_tree(f, v):
    """f without failures, where v is a directory that can be scanned."""
    def fn(a):
        if a.op == "exc":
            return 0
        if v is not None and a.op in FSKIND and a.args[0] is v:
            return 0 if a.op == "islink" else 1
        if a.op == "ex":
            return exists(a.args[0], plain_tree(a.args[1], v))
        return atom(a)
    return bmap(f, fn)


def pattern_parts(r, ref, start):
    """[(match variable, variables, condition)] of the matches and of what is
    below them; None if unknown."""
    coll = r.I.coll_of(ref, r.final)
    if coll is None:
        return None
    direct, below = [], []
    for p in coll.parts.values():
        for k, c in leaves(p.key):
            cond = AND(p.cond, c)
            if definite(cond) == 0:
                continue
            if k.op != "relpath" or k.args[1] is not start:
                return None
            t = k.args[0]
            trees = [a for a in atoms(cond) if a.op == "intree"]
            if t.op == "var" and not trees:
                direct.append((t, p.vars, cond))
            elif len(trees) == 1 and trees[0].args[0].op == "var" and \
                    t is pjoin(trees[0].args[0], trees[0].args[2]):
                a = trees[0]
                below.append((a.args[0], p.vars, cofactor(cond, a, True)))
            elif t.op == "pjoin" and t.args[0] in p.vars and not trees:
                pass                              # some of what is below
            else:
                return None
    return direct, below


@rule("P09 P27 P26", "exactly the files that match a pattern, and those below "
                     "them, count as excluded")
def patterns_matched(c):
    r = c.run(pattern_run, "ProfileExcludeFile.all_matches")
    if r is None or not c.require(
            r.final is not None and not r.final.dead(), EXCL_PY,
            "patterns can be matched against more than one directory",
            "matching the patterns always fails", "no-result"):
        return
    M_ = var("M")
    want = {START: 0, OTHER: 0, THIRD: 0}
    used = NOTHING
    for e in r.events:
        if e.name != "glob.glob":
            continue
        pat, pc = r.c(e.args[0]), r.pc(e)
        rec = r.c(e.kw.get("recursive", KFALSE))
        xs = {a.args[1] for a in atoms(pc) if a.op == "initer" and
              source_is(r, a.args[0], PF)}
        if len(xs) != 1:
            c.note("%s: the lines of the patterns are not known" % e.where())
            return
        x = xs.pop()

        def facts(a):
            if a.op == "initer" and a.args[1] is x:
                return True
            if a.op == "exc":
                return False
            if a.op == "in" and any(s in want for s in subterms(a)):
                return "free"
            return None
        W = Words(x, LINES, facts)
        roots = set()
        try:
            d = (W.of(pc) - PATTERNS).example()
            c.require(d is None, e.where(), "only lines with patterns are used",
                      "the line %r is used as a pattern" % d, "pattern-line")
            for t, cond in leaves(pat):
                L = W.of(AND(pc, cond)) & PATTERNS
                if L.empty():
                    continue
                used = used | L
                base, rest = split_pattern(t)
                for s in want:
                    if base is K("/") and rest[0] is K(kval(s)[1:]):
                        base, rest = s, rest[1:]
                if base is None:
                    raise Unknown("pattern %s" % show(t, 4))
                start = [s for s in subterms(base) if s in want]
                if len(set(start)) != 1:
                    raise Unknown("pattern %s" % show(t, 4))
                roots.add(start[0])
                c.require(base.op == "res" and base.args[0] == "glob.escape",
                          e.where(), "the directory is taken literally",
                          "special characters in the path of the directory "
                          "are taken as part of the pattern", "escape")
                deep = rest[:1] == [K("**")]
                top = L & lang(r"\s*/[\s\S]*")
                if deep:
                    rest = rest[1:]
                    c.require(rec is KTRUE, e.where(), "patterns apply at "
                              "every depth", "patterns match only one level "
                              "below the directory", "depth")
                    d = top.example()
                    c.require(d is None, e.where(), "patterns with a leading "
                              "slash apply to the directory itself", "the "
                              "pattern %r applies at every depth" % d, "top")
                    name = mk("m:strip", x)
                else:
                    d = (L - top).example()
                    c.require(d is None, e.where(), "patterns without a "
                              "leading slash apply everywhere", "the pattern "
                              "%r applies only to the directory itself" % d,
                              "everywhere")
                    name = mk("m:lstrip", mk("m:strip", x), K("/"))
                if len(rest) != 1:
                    raise Unknown("pattern %s" % show(t, 4))
                d = differ(W, rest[0], name, L)
                c.require(d is None, e.where(), "the pattern is what the line "
                          "says", "the line %r is taken as another pattern"
                          % d, "pattern-text")
        except Unknown as u:
            c.note("%s: how lines are matched is not known: %s"
                   % (e.where(), u))
            return
        for s in roots:
            f = atom(mk("globm", pat, rec, M_))
            want[s] = OR(want[s], exists([x], AND(plain_tree(pc, M_), f)))
    if not c.require(want[START], EXCL_PY, "the patterns are matched",
                     "patterns are never matched", "no-glob"):
        return
    d = (PATTERNS - used).example()
    c.require(d is None, EXCL_PY, "every pattern is used",
              "the line %r is not used as a pattern" % d, "pattern-unused")
    for what, ref, start in (("matches", r.matches, THIRD),
                             ("all_matches", r.result, START),
                             ("all_matches", r.other, OTHER)):
        ps = pattern_parts(r, ref, start)
        w = "%s.%s" % (EXCL_PY, what)
        if ps is None:
            c.note("%s: the result is not known" % w)
            continue
        got = OR(*[rename_to(f, v, vs, M_) for v, vs, f in ps[0]])
        full = OR(*[rename_to(f, v, vs, M_, True) for v, vs, f in ps[1]])
        lack = AND(want[start], NOT(got))
        c.require(definite(lack) == 0, w, "every match is excluded",
                  "a file that matches a pattern is not excluded",
                  "match-lost")
        c.require(definite(AND(got, NOT(want[start]))) == 0, w, "only matches "
                  "are excluded", "a file that matches no pattern is excluded",
                  "match-more")
        if what == "matches":
            c.require(not ps[1], w, "only matches are returned",
                      "files below a match are returned as matches",
                      "match-below")
            continue
        c.require(definite(AND(want[start], NOT(full))) == 0, w,
                  "everything below a match is excluded", "what is below a "
                  "directory that matches is not excluded", "below-lost")
        c.require(definite(AND(full, NOT(want[start]))) == 0, w, "only what is "
                  "below a match is excluded", "what is below a directory that "
                  "does not match is excluded", "below-more")


def rename_to(f, v, vs, m, below=False):
    f = plain_tree(f, v if below else None)
    rest = [x for x in vs if x is not v]
    return exists(rest, bsubst(f, {v: m}))


def source_is(r, t, path):
    for l, _ in leaves(r.c(t)):
        if l.op == "res" and l.args[0] in (".readlines", ".read"):
            return source_is(r, l.args[1][0], path)
        if l.op == "m:splitlines":
            return source_is(r, l.args[0], path)
        if l.op == "res" and l.args[0] == "open" and \
                r.c(l.args[1][0]) is path:
            return True
    return False


def split_pattern(t):
    """(directory, [rest]) of a pattern."""
    if t.op == "pjoin":
        return t.args[0], list(t.args[1:])
    if t.op == "cat" and len(t.args) > 1:
        rest = []
        for p in t.args[1:]:
            if p.op == "k":
                s = str(kval(p))
                if not s.startswith("/") or not s.endswith("/"):
                    return None, None
                rest += [K(n) for n in s.split("/") if n]
            else:
                rest.append(p)
        return t.args[0], rest
    return None, None


@rule("P09", "the patterns are read again for every sync of the daemon and "
             "after a reset of the cache")
def patterns_reread(c):
    r = c.run(lambda M: pattern_run(M, True), "ProfileExcludeFile.reset")
    if r is None or r.final is None or r.final.dead():
        return
    evs = [e for e in r.events[r.mark:] if e.name == "open" and
           r.c(e.args[0]) is PF]
    f = OR(*[exists_atoms(r.pc(e), lambda a: a.op == "exc") for e in evs])
    c.require(f == 1, EXCL_PY + ".reset", "the patterns are read again after "
              "a reset", "patterns that were changed are not noticed",
              "stale-patterns")
