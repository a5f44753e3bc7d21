"""Regular languages of the values of one string term.

A condition of the interpreter about a string (regular-expression tests,
comparisons, prefix tests, conversions that fail, ...) is translated into a
deterministic automaton over a representative alphabet, so that questions such
as "is every value that validation accepts also one that int() takes" become
emptiness questions. The alphabet has all of ASCII and one or more
representatives of every kind of other character that str methods and regular
expressions tell apart (case pairs with ASCII letters, digits that are not
ASCII, white space, letters, others)."""
import re
import sys
from .terms import *
from .terms import T, _nodes, _vars
from .sql import Unknown
from .arith import difference

try:
    import re._parser as sre_parse
    import re._compiler as sre_compile
    import re._constants as sre
except ImportError:                                    # before Python 3.11
    import sre_parse
    import sre_compile
    import sre_constants as sre

ALPHA = [chr(i) for i in range(128)] + list(
    "\x85\xa0\u2028\u3000²٣५éÉßµ中ıİſ\u212a\u01c5½Ⅷ☃\ufe0f")
N = len(ALPHA)
IDX = {c: i for i, c in enumerate(ALPHA)}
ALL = frozenset(range(N))


def cls(pred):
    return frozenset(i for i, c in enumerate(ALPHA) if pred(c))


SPACE = cls(str.isspace)
DIGIT = cls(str.isdecimal)


class DFA:
    """Complete automaton; state 0 is initial; delta[q] is a list over ALPHA."""
    __slots__ = ("delta", "acc")

    def __init__(self, delta, acc):
        self.delta, self.acc = delta, acc

    def __and__(self, o):
        return product(self, o, lambda a, b: a and b)

    def __or__(self, o):
        return product(self, o, lambda a, b: a or b)

    def __sub__(self, o):
        return product(self, o, lambda a, b: a and not b)

    def __invert__(self):
        return DFA(self.delta, [not a for a in self.acc])

    def run(self, q, s):
        for c in s:
            q = self.delta[q][IDX[c] if c in IDX else IDX["☃"]]
        return q

    def has(self, s):
        return self.acc[self.run(0, s)]

    def example(self):
        """A shortest member, or None; printable characters are preferred."""
        if self.acc[0]:
            return ""
        seen = {0}
        level = [(0, "")]
        order = sorted(range(N), key=lambda i: (
            not ALPHA[i].isalnum() or i > 127, i > 127 or i < 33, i))
        while level:
            nxt = []
            for q, w in level:
                d = self.delta[q]
                for i in order:
                    p = d[i]
                    if p not in seen:
                        seen.add(p)
                        if self.acc[p]:
                            return w + ALPHA[i]
                        nxt.append((p, w + ALPHA[i]))
            level = nxt
        return None

    def empty(self):
        return self.example() is None


def build(start, step, accept, limit=4000):
    """Determinize: start is a hashable state, step(q, i) its successor."""
    ids, todo, delta, acc = {start: 0}, [start], [], []
    while todo:
        q = todo.pop(0)
        row = []
        memo = {}
        for i in range(N):
            p = step(q, i)
            k = ids.get(p)
            if k is None:
                k = ids[p] = len(ids)
                if k > limit:
                    raise Unknown("a pattern is too complex")
                todo.append(p)
            row.append(k)
        delta.append(row)
        acc.append(accept(q))
    return minimize(DFA(delta, acc))


def minimize(d):
    n = len(d.delta)
    part = [1 if a else 0 for a in d.acc]
    while True:
        sig, new = {}, [0] * n
        for q in range(n):
            s = (part[q],) + tuple(part[p] for p in d.delta[q])
            new[q] = sig.setdefault(s, len(sig))
        if len(sig) == len(set(part)):
            break
        part = new
    # renumber with the initial state first
    ren = {part[0]: 0}
    reps = [0]
    i = 0
    while i < len(reps):
        for p in d.delta[reps[i]]:
            if part[p] not in ren:
                ren[part[p]] = len(ren)
                reps.append(p)
        i += 1
    return DFA([[ren[part[p]] for p in d.delta[q]] for q in reps],
               [d.acc[q] for q in reps])


def product(a, b, f):
    return build((0, 0), lambda q, i: (a.delta[q[0]][i], b.delta[q[1]][i]),
                 lambda q: bool(f(a.acc[q[0]], b.acc[q[1]])))


ANY = DFA([[0] * N], [True])
NOTHING = DFA([[0] * N], [False])


def word(s):
    n = len(s)
    return build(0, lambda q, i: q + 1 if q < n and ALPHA[i] == s[q] else n + 1,
                 lambda q: q == n)


EMPTY = word("")


# ------------------------------------------------------------------- regexes
class Rx:
    """A compiled pattern as a nondeterministic automaton with assertions and
    group markers."""

    def __init__(self, pat, flags=0):
        if not isinstance(pat, str):
            raise Unknown("pattern is not a string")
        try:
            p = sre_parse.parse(pat, flags)
        except re.error:
            raise Unknown("invalid pattern %r" % pat)
        self.flags = p.state.flags | flags
        if self.flags & (re.MULTILINE | re.LOCALE):
            raise Unknown("pattern flags")
        self.state = p.state
        self.chars = []          # node -> [(set, target)]
        self.eps = []            # node -> [(kind, arg, target)]
        self.start = self.new()
        self.end = self.new()
        self.ngroups = p.state.groups - 1
        self.names = dict(p.state.groupdict)
        self.seq(p, self.start, self.end)

    def new(self):
        self.chars.append([])
        self.eps.append([])
        if len(self.eps) > 3000:
            raise Unknown("a pattern is too complex")
        return len(self.eps) - 1

    def seq(self, items, a, b):
        for it in items:
            n = self.new()
            self.item(it, a, n)
            a = n
        self.eps[a].append(("eps", None, b))

    def charset(self, it):
        sp = sre_parse.SubPattern(self.state, [it])
        try:
            rx = sre_compile.compile(sp, self.flags)
        except Exception as e:
            raise Unknown("pattern item: %s" % e)
        return cls(lambda c: rx.fullmatch(c) is not None)

    def item(self, it, a, b):
        op, av = it
        if op in (sre.LITERAL, sre.NOT_LITERAL, sre.IN, sre.ANY):
            self.chars[a].append((self.charset(it), b))
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or \
                op is getattr(sre, "POSSESSIVE_REPEAT", None):
            if op is getattr(sre, "POSSESSIVE_REPEAT", None):
                raise Unknown("possessive repetition")
            lo, hi, sub = av
            if lo > 200 or hi is not sre.MAXREPEAT and hi > 200:
                raise Unknown("long repetition")
            for _ in range(lo):
                n = self.new()
                self.seq(sub, a, n)
                a = n
            if hi is sre.MAXREPEAT:
                l = self.new()
                self.eps[a].append(("eps", None, l))
                n = self.new()
                self.seq(sub, l, n)
                self.eps[n].append(("eps", None, l))
                self.eps[l].append(("eps", None, b))
            else:
                for _ in range(hi - lo):
                    self.eps[a].append(("eps", None, b))
                    n = self.new()
                    self.seq(sub, a, n)
                    a = n
                self.eps[a].append(("eps", None, b))
        elif op is sre.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unknown("inline flags")
            if g is None:
                self.seq(sub, a, b)
            else:
                m, n = self.new(), self.new()
                self.eps[a].append(("open", g, m))
                self.seq(sub, m, n)
                self.eps[n].append(("close", g, b))
        elif op is sre.BRANCH:
            for sub in av[1]:
                self.seq(sub, a, b)
        elif op is sre.AT:
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                self.eps[a].append(("bos", None, b))
            elif av is sre.AT_END:
                self.eps[a].append(("eol", None, b))
            elif av is sre.AT_END_STRING:
                self.eps[a].append(("eos", None, b))
            else:
                raise Unknown("assertion in a pattern")
        else:
            raise Unknown("pattern item %s" % op)

    def language(self, how, group=None, L=None):
        """The words that match (how: search, match or fullmatch); with group,
        those that have some match in which the group's text is in L (a group
        that takes no part counts as empty)."""
        full = how == "fullmatch"
        # a configuration: (node, pending end assertion, group state)
        # group state: -1 not (yet) taken part, ("in", q), "out"

        def closure(confs, bos):
            out, todo = set(), list(confs)
            while todo:
                c = todo.pop()
                if c in out:
                    continue
                out.add(c)
                n, ob, g = c
                for kind, arg, t in self.eps[n]:
                    ob2, g2 = ob, g
                    if kind == "bos" and not bos:
                        continue
                    if kind == "eos":
                        ob2 = "end"
                    if kind == "eol" and ob == "":
                        ob2 = "nl?"
                    if kind == "open" and arg == group:
                        g2 = 0
                    if kind == "close" and arg == group:
                        if not L.acc[g]:
                            continue
                        g2 = -2
                    todo.append((t, ob2, g2))
            return frozenset(out)

        first = (self.start, "", -1)

        def accepting(c):
            n, ob, g = c
            return n == self.end and (
                group is None or g == -2 or g == -1 and L.acc[0])
        END = "END"

        def step(q, i):
            confs = q[1]
            out = set()
            for n, ob, g in confs:
                if n == END:
                    ob2 = after(ob, i)
                    if ob2 is not None and not full:
                        out.add((END, ob2, g))
                    continue
                if accepting((n, ob, g)) and not full:
                    ob2 = after(ob, i)
                    if ob2 is not None:
                        out.add((END, ob2, 0))
                ob2 = after(ob, i)
                if ob2 is None:
                    continue
                for s, t in self.chars[n]:
                    if i in s:
                        out.add((t, ob2, L.delta[g][i] if group is not None
                                 and g >= 0 else g))
            if how == "search":
                out.add(first)
            return (0, closure_(out))

        def closure_(out):
            e = {c for c in out if c[0] == END}
            if (END, "", 0) in e:
                return frozenset([(END, "", 0)])
            return closure({c for c in out if c[0] != END}, False) | e

        def after(ob, i):
            """The pending end assertion after the character i."""
            if ob == "":
                return ""
            if ob == "nl?" and ALPHA[i] == "\n":
                return "end"
            return None

        def accept(q):
            return any(c[0] == END or accepting(c) for c in q[1])
        return build((1, closure([first], True)), step, accept)


_rx = {}


def rx(pat, flags=0):
    k = pat, flags
    if k not in _rx:
        _rx[k] = Rx(pat, flags)
    return _rx[k]


_langs = {}


def lang(pat, flags=0, how="fullmatch"):
    k = pat, flags, how
    if k not in _langs:
        _langs[k] = rx(pat, flags).language(how)
    return _langs[k]


# ------------------------------------------------------- languages of conditions
def int_words():
    return lang(r"\s*[+-]?\d+(?:_\d+)*\s*")


def float_words():
    num = r"(?:\d+(?:_\d+)*)"
    return lang(r"\s*[+-]?(?:%s(?:\.%s?)?(?:e[+-]?%s)?|\.%s(?:e[+-]?%s)?|inf"
                r"(?:inity)?|nan)\s*" % (num, num, num, num, num),
                re.IGNORECASE | re.ASCII)


def numbers(name):
    return int_words() if name == "int" else float_words()


def flag_value(t):
    if t.op == "k":
        v = kval(t)
        if isinstance(v, int):
            return int(v)
    if t.op == "ext" and t.args[0].startswith("re."):
        return int(getattr(re, t.args[0][3:]))
    if t.op in ("bitor", "or", "add", "b") and t.op != "b":
        n = 0
        for a in t.args:
            n |= flag_value(a)
        return n
    raise Unknown("pattern flags %s" % show(t, 3))


class Words:
    """Translates conditions about the string term v. env: the words that can
    occur at all; other facts are decided by facts(atom) -> True/False/None."""

    def __init__(self, v, env=ANY, facts=None):
        self.v, self.env, self.facts = v, env, facts
        self.memo = {}
        self.amemo = {}

    def of(self, f):
        """The words for which the condition f can hold."""
        if f == 1:
            return self.env
        if f == 0:
            return NOTHING
        r = self.memo.get(f)
        if r is None:
            v, lo, hi = _nodes[f]
            a = self.atom(_vars[v])
            if a is True:
                r = self.of(hi)
            elif a is False:
                r = self.of(lo)
            elif a is None:                       # free: either
                r = self.of(hi) | self.of(lo)
            else:
                r = (self.of(hi) & a) | (self.of(lo) - a)
            self.memo[f] = r
        return r

    def atom(self, t):
        if t not in self.amemo:
            self.amemo[t] = self._atom(t)
        return self.amemo[t]

    def _atom(self, t):
        if self.facts is not None:
            r = self.facts(t)
            if r is not None:
                return None if r == "free" else r
        if not self.about(t):
            if t.op in ("top", "havoc"):
                raise Unknown("an unknown value")
            return None
        if t.op == "rematch":
            name, pat, s, fl = t.args
            if pat.op != "k":
                raise Unknown("pattern is not constant")
            return self.pre(s, lang(kval(pat), flag_value(fl),
                                    kval(name).split(".")[-1]))
        if t.op == "eq":
            for a, b in (t.args, t.args[::-1]):
                if a is NONE and b.op == "rematch":
                    return ~self.atom(b)
                if a.op == "k" and isinstance(kval(a), str):
                    return self.pre(b, word(kval(a)))
                if a.op == "k" and kval(a) is None:
                    return self.pre(b, NOTHING, none=True)
        if t.op in ("startswith", "endswith") and t.args[1].op == "k":
            return self.pre(t.args[0], prefixed(
                kval(t.args[1]), t.op == "startswith"))
        if t.op in ("lt", "eq"):
            return self.number_test(t)
        if t.op == "in" and t.args[0].op == "k" and isinstance(
                kval(t.args[0]), str) and self.is_str(t.args[1]):
            return self.pre(t.args[1], containing(kval(t.args[0])))
        if t.op in ("m:isdigit", "m:isalpha", "m:isspace", "m:isalnum",
                    "m:isdecimal", "m:isnumeric", "m:isupper", "m:islower"):
            f = getattr(str, t.op[2:])
            if t.op in ("m:isupper", "m:islower"):
                raise Unknown(t.op)
            cs = cls(f)
            return self.pre(t.args[0], build(
                0, lambda q, i: 2 if q == 2 or i not in cs else 1,
                lambda q: q == 1))
        if t.op == "exc" and t.args[1] in ("int", "float") and \
                isinstance(t.args[2], T):
            return ~self.pre(t.args[2], numbers(t.args[1]))
        if self.stringy(t):
            return self.pre(t, ~EMPTY)
        raise Unknown("condition %s" % show(t, 4))

    def number_test(self, t):
        """A comparison of the number that a string denotes with a constant
        that separates negative numbers, zero and positive ones."""
        d = difference(t)
        ks = [k for k in d if k is not None]
        if len(ks) != 1 or ks[0].op != "int" or not isinstance(
                ks[0].args[0], T):
            raise Unknown("condition %s" % show(t, 4))
        s, k = ks[0].args[0], d[ks[0]]
        m = -d.get(None, 0) / k          # the condition: number <, >, == m
        neg = self.pre(s, lang(r"\s*-[\d_]*[1-9][\d_]*\s*"))
        zero = self.pre(s, lang(r"\s*[+-]?[0_]+\s*"))
        ok = self.pre(s, int_words())
        if t.op == "eq":
            if m != 0:
                raise Unknown("condition %s" % show(t, 4))
            return zero & ok
        if k > 0 and -1 < m <= 0:        # number < m
            return neg & ok if m == 0 else self.no(t)
        if k > 0 and 0 < m <= 1:
            return (neg | zero) & ok
        if k < 0 and 0 <= m < 1:         # number > m
            return ok - neg - zero
        if k < 0 and -1 <= m < 0:
            return ok - neg
        raise Unknown("condition %s" % show(t, 4))

    def no(self, t):
        raise Unknown("condition %s" % show(t, 4))

    def about(self, t):
        return any(s is self.v for s in subterms(t))

    def stringy(self, t):
        if t is self.v:
            return True
        try:
            self.pre(t, ANY)
            return True
        except Unknown:
            return False

    def pre(self, t, L, none=False):
        """The words v for which the string term t is in L. none: t is None
        counts as a member."""
        if t is self.v:
            return L
        if t.op == "k":
            s = kval(t)
            return ANY if isinstance(s, str) and L.has(s) or \
                s is None and none else NOTHING
        if t.op in ("m:lower", "m:upper", "m:casefold", "m:swapcase") and \
                len(t.args) == 1:
            f = getattr(str, t.op[2:])
            m = [f(c) for c in ALPHA]
            return self.pre(t.args[0], build(
                0, lambda q, i: L.run(q, m[i]), lambda q: L.acc[q]))
        if t.op in ("m:strip", "m:lstrip", "m:rstrip"):
            cs = SPACE
            if len(t.args) > 1:
                if t.args[1].op != "k" or not isinstance(kval(t.args[1]), str):
                    raise Unknown("strip")
                cs = cls(lambda c: c in kval(t.args[1]))
            left, right = t.op != "m:rstrip", t.op != "m:lstrip"
            return self.pre(t.args[0], stripped(L, cs, left, right))
        if t.op == "ite":
            c = self.of(t.args[0])
            return (c & self.pre(t.args[1], L)) | \
                (self.pre(t.args[2], L) - c)
        g = self.group(t)
        if g is not None:
            pat, how, s, n, noneg = g
            if n == 0:
                if how != "fullmatch":
                    raise Unknown("the text of a match")
                return self.pre(s, pat.language(how) & L)
            yes = pat.language(how, n, L)
            no = pat.language(how, n, ~L)
            a, b = self.pre(s, yes), self.pre(s, no)
            if not (a & b & self.env).empty():
                raise Unknown("a group of an ambiguous pattern")
            return a
        r = self.split(t, L)
        if r is not None:
            return r
        if t.op == "slice" and t.args[1].op == "slice":
            lo, hi, st = t.args[1].args
            if st is NONE or st is K(1):
                a = kval(lo) if lo.op == "k" else "?"
                b = kval(hi) if hi.op == "k" else "?"
                return self.pre(t.args[0], sliced(L, a, b))
        if t.op == "idx" and t.args[1].op == "k" and isinstance(
                kval(t.args[1]), int) and not isinstance(
                kval(t.args[1]), bool) and self.is_str(t.args[0]):
            n = kval(t.args[1])
            one = L & lang(r"[\s\S]")
            return self.pre(t.args[0], sliced(one, n, n + 1 if n != -1 else None))
        raise Unknown("string %s" % show(t, 4))

    def split(self, t, L):
        """Parts of m:partition and m:split with a single character."""
        if t.op != "idx" or t.args[1].op != "k" or t.args[0].op not in (
                "m:partition", "m:rpartition", "m:split"):
            return None
        n, o = kval(t.args[1]), t.args[0]
        if len(o.args) < 2 or o.args[1].op != "k" or not isinstance(
                kval(o.args[1]), str) or len(kval(o.args[1])) != 1 or \
                not isinstance(n, int):
            raise Unknown("split")
        sep = IDX.get(kval(o.args[1]))
        if sep is None:
            raise Unknown("split")
        if o.op == "m:partition" or o.op == "m:split" and \
                len(o.args) > 2 and o.args[2] is K(1):
            if n < 0:
                n += 3 if o.op == "m:partition" else 2
            if o.op == "m:split" and n == 1:
                n = 2
        elif o.op == "m:split" and len(o.args) == 2 and n == 0:
            pass
        elif o.op == "m:rpartition":
            n = (n + 3 if n < 0 else n) + 10
        else:
            raise Unknown("split")
        return self.pre(o.args[0], parted(L, sep, n))

    def is_str(self, t):
        return t is self.v or t.op in (
            "m:lower", "m:upper", "m:strip", "m:lstrip", "m:rstrip", "slice") \
            or self.group(t) is not None

    def group(self, t):
        """(pattern, how, subject, group number, absent groups are None)"""
        if t.op == "idx" and t.args[1].op == "k":
            n = kval(t.args[1])
            o = t.args[0]
            if o.op == "refindall" and n == 0:
                p, how, s = self.findall(o)
                if p.ngroups > 1:
                    return None
                return p, how, s, p.ngroups, False
            if o.op == "idx" and o.args[0].op == "refindall" and \
                    o.args[1] is K(0) and isinstance(n, int):
                p, how, s = self.findall(o.args[0])
                if p.ngroups < 2 or not 0 <= n < p.ngroups:
                    return None
                return p, how, s, n + 1, False
            if o.op == "res" and o.args[0] in (".groups", ".group") and \
                    isinstance(n, int) and o.args[1][0].op == "rematch":
                if o.args[0] == ".groups" and len(o.args[1]) < 3:
                    p, how, s = self.match(o.args[1][0])
                    return p, how, s, n + 1, len(o.args[1]) == 1
                if o.args[0] == ".group" and len(o.args[1]) > 2:
                    return self.group_no(o.args[1][0], o.args[1][n + 1])
            if o.op == "rematch":
                return self.group_no(o, t.args[1])
        if t.op == "res" and t.args[0] == ".group" and \
                t.args[1][0].op == "rematch" and len(t.args[1]) <= 2:
            return self.group_no(t.args[1][0], t.args[1][1] if len(
                t.args[1]) > 1 else K(0))
        return None

    def group_no(self, m, k):
        p, how, s = self.match(m)
        n = kval(k) if k.op == "k" else None
        if isinstance(n, str):
            n = p.names.get(n)
        if not isinstance(n, int):
            return None
        return p, how, s, n, True

    def findall(self, t):
        pat, s, fl = t.args
        if pat.op != "k":
            raise Unknown("pattern is not constant")
        return rx(kval(pat), flag_value(fl)), "search", s

    def match(self, t):
        name, pat, s, fl = t.args
        if pat.op != "k":
            raise Unknown("pattern is not constant")
        return rx(kval(pat), flag_value(fl)), kval(name).split(".")[-1], s

    def absent(self, t):
        """The words for which using the string t fails because there is no
        match (or the group took no part and is None)."""
        out = NOTHING
        for s in subterms(t):
            m = None
            if s.op == "idx" and s.args[0].op == "refindall":
                p, how, x = self.findall(s.args[0])
                out = out | self.pre(x, ~p.language(how))
            elif s.op == "res" and s.args[0] in (".group", ".groups") and \
                    s.args[1][0].op == "rematch":
                p, how, x = self.match(s.args[1][0])
                out = out | self.pre(x, ~p.language(how))
            elif s.op == "idx" and s.args[0].op == "m:split" and \
                    s.args[1] is K(1) and len(s.args[0].args) == 3 and \
                    s.args[0].args[1].op == "k":
                out = out | self.pre(s.args[0].args[0], ~containing(
                    kval(s.args[0].args[1])))
        return out


_pref = {}


def prefixed(w, front):
    """The words that start (or end) with w."""
    k = w, front
    if k not in _pref:
        e = "".join(re.escape(c) for c in w)
        _pref[k] = lang(e + r"[\s\S]*" if front else r"[\s\S]*" + e)
    return _pref[k]


def containing(w):
    e = "".join(re.escape(c) for c in w)
    return lang(r"[\s\S]*" + e + r"[\s\S]*")


def parted(L, sep, n):
    """The words whose part n by partition at the character sep is in L; 10
    and more are those of rpartition."""
    if n == 0:
        return build((0, 0), lambda s, i: s if s[0] else (1, s[1]) if i == sep
                     else (0, L.delta[s[1]][i]), lambda s: L.acc[s[1]])
    if n in (1, 11):
        one = L.acc[L.delta[0][sep]]
        return build(0, lambda s, i: 1 if s or i == sep else 0,
                     lambda s: one if s else L.acc[0])
    if n == 2:
        return build((0, 0), lambda s, i: (1, L.delta[s[1]][i]) if s[0] else
                     (1, 0) if i == sep else s, lambda s: L.acc[s[1]])
    if n == 10:
        return build((0, 0), lambda s, i: (L.delta[s[0]][i], s[0] if i == sep
                                           else s[1]), lambda s: L.acc[s[1]])
    if n == 12:
        return build(0, lambda s, i: 0 if i == sep else L.delta[s][i],
                     lambda s: L.acc[s])
    raise Unknown("split")


FAMILY = None


def differ(W, a, b, env):
    """A word of env on which the string terms a and b are told apart by some
    language of a fixed family, or None."""
    global FAMILY
    if FAMILY is None:
        FAMILY = [lang(p) for p in (
            "", "a", "ab", " ", "[ab]*", r"\S*", r"\s[\s\S]*", r"[\s\S]*\s",
            r"[\s\S]*=[\s\S]*", "a=b", "a =b", "[\\s\\S]*#[\\s\\S]*",
            "[A-Z][\\s\\S]*", "[a-z][\\s\\S]*", "[\\s\\S]*[A-Z]",
            "[\\s\\S]*[a-z]", "a b", "a  b", "[^=]*=[^=]*", "=[\\s\\S]*",
            "[\\s\\S]*=", "aaa", "[0-9]+", "[\\s\\S]*\n",
            '["\'][\\s\\S]*', "-[\\s\\S]*", "~[\\s\\S]*")]
    for L in FAMILY:
        x, y = W.pre(a, L) & env, W.pre(b, L) & env
        w = ((x - y) | (y - x)).example()
        if w is not None:
            return w
    return None


def stripped(L, cs, left, right):
    """The words whose stripped form is in L."""
    # states: ("l", None) in leading space; (q, p): p is the state as of the
    # last character that is not stripped, q the one with what follows
    def step(s, i):
        if s == "lead":
            if i in cs:
                return "lead"
            q = L.delta[0][i]
            return (q, q)
        q, p = s
        q2 = L.delta[q][i]
        if right and i in cs:
            return (q2, p)
        return (q2, q2)

    def accept(s):
        if s == "lead":
            return L.acc[0]
        return L.acc[s[1]]
    return build("lead" if left else (0, 0), step, accept)


def sliced(L, a, b):
    """The words w with w[a:b] in L."""
    if a is None:
        a = 0
    if a == "?" or b == "?" or not isinstance(a, int) or abs(a) > 6 or \
            not (b is None or isinstance(b, int) and abs(b) <= 6):
        raise Unknown("slice")
    if a >= 0 and b is None:
        def step(s, i):
            n, q = s
            return (n + 1, q) if n < a else (n, L.delta[q][i])
        return build((0, 0), step, lambda s: L.acc[s[1]])
    if a >= 0 and b >= 0:
        def step(s, i):
            n, q = s
            if n >= max(a, b):
                return s
            return (n + 1, L.delta[q][i] if a <= n < b else q)
        return build((0, 0), step, lambda s: L.acc[s[1]])
    if a >= 0 and b < 0:
        k = -b

        def step(s, i):
            n, q, last = s
            if n < a:
                return (n + 1, q, last)
            last = last + (i,)
            if len(last) > k:
                q = L.delta[q][last[0]]
                last = last[1:]
            return (n, q, last)
        # the last k characters are remembered by their effect only
        sig = classes(L)

        def step2(s, i):
            n, q, last = step(s, sig[i])
            return n, q, last
        if k > 2:
            raise Unknown("slice")
        return build((0, 0, ()), step2, lambda s: L.acc[s[1]])
    if a < 0 and b is None:
        k = -a
        if k > 2:
            raise Unknown("slice")
        sig = classes(L)

        def step(s, i):
            return (s + (sig[i],))[-k:]

        def accept(s):
            q = 0
            for i in s:
                q = L.delta[q][i]
            return L.acc[q]
        return build((), step, accept)
    raise Unknown("slice")


def classes(L):
    """For each character a representative with the same transitions."""
    seen = {}
    return [seen.setdefault(tuple(row[i] for row in L.delta), i)
            for i in range(N)]


def ignoring_case(s):
    return lang("(?:" + s + ")", re.IGNORECASE | re.ASCII)
