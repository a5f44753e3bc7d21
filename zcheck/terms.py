"""Interned terms and reduced ordered BDDs over term-valued atoms.

A term is an interned tree T(op, args).  A boolean condition is a BDD node (an
int; 0 = false, 1 = true) whose variables are terms ("atoms").  Terms may hold
BDD nodes in fixed argument positions (ops 'ite', 'b', 'ex'), so substitution
and free-variable computation are mutually recursive.
"""
import sys

sys.setrecursionlimit(20000)

FALSE, TRUE = 0, 1


class T:
    __slots__ = ("op", "args", "id", "fv", "_canon")

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = len(_tab)
    if op == "var":
        t.fv = frozenset((t,))
    elif op == "ite":
        t.fv = bfv(args[0]) | args[1].fv | args[2].fv
    elif op == "b":
        t.fv = bfv(args[0])
    elif op == "ex":
        t.fv = bfv(args[1]) - frozenset(args[0])
    elif op == "part":
        t.fv = (args[1].fv | args[2].fv | args[3].fv) - frozenset(args[0])
    else:
        fv = _EMPTY
        for a in args:
            if isinstance(a, T):
                if a.fv:
                    fv = fv | a.fv
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T) and b.fv:
                        fv = fv | b.fv
        t.fv = fv
    _tab[key] = t
    return t


class _KV:
    """Constant payload compared by type and value."""
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = hash((type(v).__name__, repr(v) if isinstance(v, float) else v))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, _KV) and type(self.v) is type(o.v) and self.v == o.v


def K(v):
    return mk("k", _KV(v))


def is_k(t):
    return t.op == "k"


def kval(t):
    return t.args[0].v


NONE = K(None)
KTRUE = K(True)
KFALSE = K(False)
UNBOUND = mk("unbound")


def var(name):
    return mk("var", name)


_fresh = [0]


def fresh(prefix="x"):
    _fresh[0] += 1
    return var("%s%d" % (prefix, _fresh[0]))


# ----------------------------------------------------------------- BDD core
_vars = []          # index -> atom term
_vidx = {}          # atom term -> index
_nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
_uniq = {}
_ite_memo = {}
_sup_memo = {}
_bfv_memo = {}


def _node(v, lo, hi):
    if lo == hi:
        return lo
    key = (v, lo, hi)
    n = _uniq.get(key)
    if n is None:
        n = len(_nodes)
        _nodes.append(key)
        _uniq[key] = n
    return n


def atom(t):
    """BDD for an atom term."""
    i = _vidx.get(t)
    if i is None:
        i = len(_vars)
        _vars.append(t)
        _vidx[t] = i
    return _node(i, 0, 1)


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    key = (f, g, h)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    vf, vg, vh = _nodes[f][0], _nodes[g][0], _nodes[h][0]
    v = min(vf, vg, vh)
    f0, f1 = (_nodes[f][1], _nodes[f][2]) if vf == v else (f, f)
    g0, g1 = (_nodes[g][1], _nodes[g][2]) if vg == v else (g, g)
    h0, h1 = (_nodes[h][1], _nodes[h][2]) if vh == v else (h, h)
    r = _node(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _ite_memo[key] = r
    return r


def NOT(f):
    return ite(f, 0, 1)


def AND(*fs):
    r = 1
    for f in fs:
        r = ite(r, f, 0)
        if r == 0:
            return 0
    return r


def OR(*fs):
    r = 0
    for f in fs:
        r = ite(r, 1, f)
        if r == 1:
            return 1
    return r


def IMP(f, g):
    return ite(f, g, 1)


def implies(f, g):
    return ite(f, NOT(g), 0) == 0


def support(f):
    """Set of variable indices in f."""
    r = _sup_memo.get(f)
    if r is not None:
        return r
    if f <= 1:
        r = _EMPTY
    else:
        v, lo, hi = _nodes[f]
        r = support(lo) | support(hi) | frozenset((v,))
    _sup_memo[f] = r
    return r


def atoms(f):
    return [_vars[i] for i in sorted(support(f))]


def bfv(f):
    r = _bfv_memo.get(f)
    if r is None:
        r = _EMPTY
        for i in support(f):
            r = r | _vars[i].fv
        _bfv_memo[f] = r
    return r


_restrict_memo = {}


def restrict(f, c):
    """Coudert-Madre restrict: agrees with f wherever c holds."""
    if c == 0:
        return 0
    if c == 1 or f <= 1:
        return f
    if f == c:
        return 1
    key = (f, c)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    vf, f0, f1 = _nodes[f]
    vc, c0, c1 = _nodes[c]
    if vc < vf:
        r = restrict(f, OR(c0, c1))
    else:
        if vc > vf:
            c0 = c1 = c
        if c0 == 0:
            r = restrict(f1, c1)
        elif c1 == 0:
            r = restrict(f0, c0)
        else:
            r = _node(vf, restrict(f0, c0), restrict(f1, c1))
    _restrict_memo[key] = r
    return r


def simplify(f, c):
    """f relative to care set c, choosing the smaller result."""
    r = restrict(f, c)
    if r != f and len(support(r)) > len(support(f)):
        return f
    return r


def cofactor(f, t, val):
    """f with atom t fixed."""
    i = _vidx.get(t)
    if i is None or i not in support(f):
        return f
    memo = {}

    def go(n):
        if n <= 1:
            return n
        r = memo.get(n)
        if r is not None:
            return r
        v, lo, hi = _nodes[n]
        if v > i:
            r = n
        elif v == i:
            r = hi if val else lo
        else:
            r = _node(v, go(lo), go(hi))
        memo[n] = r
        return r
    return go(f)


def quant(f, pred, conj):
    """Quantify out every atom with pred(atom): universally if conj."""
    for i in sorted(support(f), reverse=True):
        t = _vars[i]
        if pred(t):
            a, b = cofactor(f, t, 0), cofactor(f, t, 1)
            f = AND(a, b) if conj else OR(a, b)
    return f


def exists_atoms(f, pred):
    return quant(f, pred, False)


def forall_atoms(f, pred):
    return quant(f, pred, True)


def bmap(f, fn):
    """Rebuild f replacing each atom t by the BDD fn(t)."""
    if f <= 1:
        return f
    memo = {}

    def go(n):
        if n <= 1:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = _nodes[n]
            r = ite(fn(_vars[v]), go(hi), go(lo))
            memo[n] = r
        return r
    return go(f)


def one_model(f):
    """A list of (atom, bool) satisfying f, or None."""
    if f == 0:
        return None
    out = []
    while f > 1:
        v, lo, hi = _nodes[f]
        if lo != 0:
            out.append((_vars[v], False))
            f = lo
        else:
            out.append((_vars[v], True))
            f = hi
    return out


# ------------------------------------------------------------ substitution
_rebuilders = {}


def rebuilder(op):
    def deco(fn):
        _rebuilders[op] = fn
        return fn
    return deco


def subst(t, m):
    """Replace variables (keys of m) in term t."""
    return _subst(t, m, {}, frozenset(m))


def subst_terms(t, m, memo=None):
    """Replace whole subterms (keys of m), outside of conditions."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ("var", "k", "b", "ex") or not t.args:
        return t
    if t.op == "ite":
        r = vite(t.args[0], subst_terms(t.args[1], m, memo),
                 subst_terms(t.args[2], m, memo))
    else:
        args, same = [], True
        for a in t.args:
            b = a
            if isinstance(a, T):
                b = subst_terms(a, m, memo)
            elif isinstance(a, tuple):
                b = tuple(subst_terms(x, m, memo) if isinstance(x, T) else x
                          for x in a)
            same = same and (b is a or b == a)
            args.append(b)
        r = t if same else mk(t.op, *args)
    memo[t] = r
    return r


def assign(f, m, memo=None):
    """f with terms (keys of m) replaced everywhere, folding what becomes
    constant."""
    memo = {} if memo is None else memo

    def term(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("var", "k") or not t.args:
            r = t
        elif t.op == "ite":
            r = vite(assign(t.args[0], m, memo), term(t.args[1]),
                     term(t.args[2]))
        elif t.op == "b":
            r = vbool(assign(t.args[0], m, memo))
        elif t.op == "ex":
            r = vbool(exists(t.args[0], assign(t.args[1], m, memo)))
        else:
            args = [term(a) if isinstance(a, T) else
                    tuple(term(x) if isinstance(x, T) else x for x in a)
                    if isinstance(a, tuple) else a for a in t.args]
            if all(a is b or a == b for a, b in zip(args, t.args)):
                r = t
            else:
                fn = _rebuilders.get(t.op)
                r = fn(*args) if fn else mk(t.op, *args)
        memo[t] = r
        return r
    return bmap(f, lambda a: truth_of(term(a)))


def bsubst(f, m):
    return _bsubst(f, m, {}, frozenset(m))


def _subst(t, m, memo, keys):
    if t.op == "var":
        return m.get(t, t)
    if not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        r = vite(_bsubst(t.args[0], m, memo, keys),
                 _subst(t.args[1], m, memo, keys),
                 _subst(t.args[2], m, memo, keys))
    elif t.op == "b":
        r = vbool(_bsubst(t.args[0], m, memo, keys))
    elif t.op == "ex":
        vs, body = t.args
        m2 = {k: v for k, v in m.items() if k not in vs and k in t.fv}
        if any(w in v.fv for v in m2.values() for w in vs):
            tmp = {w: fresh("#s") for w in vs}
            body = bsubst(body, tmp)
            vs = tuple(tmp[w] for w in vs)
        r = vbool(exists(vs, bsubst(body, m2)))
    elif t.op == "part":
        vs, *body = t.args
        m2 = {k: v for k, v in m.items() if k not in vs and k in t.fv}
        if any(w in v.fv for v in m2.values() for w in vs):
            tmp = {w: fresh("#s") for w in vs}
            body = [subst(b, tmp) for b in body]
            vs = tuple(tmp[w] for w in vs)
        r = mk("part", vs, *[subst(b, m2) for b in body])
    else:
        args = []
        for a in t.args:
            if isinstance(a, T):
                a = _subst(a, m, memo, keys)
            elif isinstance(a, tuple):
                a = tuple(_subst(b, m, memo, keys) if isinstance(b, T) else b
                          for b in a)
            args.append(a)
        fn = _rebuilders.get(t.op)
        r = fn(*args) if fn else mk(t.op, *args)
    memo[t] = r
    return r


def _bsubst(f, m, memo, keys):
    if f <= 1 or not (bfv(f) & keys):
        return f

    def fn(a):
        if not (a.fv & keys):
            return atom(a)
        r = _subst(a, m, memo, keys)
        return truth_of(r)
    return bmap(f, fn)


def truth_of(t):
    """BDD of a term used as a boolean (no state needed)."""
    if t.op == "k":
        return 1 if kval(t) else 0
    if t.op == "b":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], truth_of(t.args[1]), truth_of(t.args[2]))
    if t.op == "tup":
        return 1 if t.args else 0
    return atom(t)


def vbool(f):
    if f == 1:
        return KTRUE
    if f == 0:
        return KFALSE
    return mk("b", f)


def vite(c, a, b):
    if c == 1 or a is b:
        return a
    if c == 0:
        return b
    if (a.op in ("b",) or a is KTRUE or a is KFALSE) and \
            (b.op in ("b",) or b is KTRUE or b is KFALSE):
        return vbool(ite(c, truth_of(a), truth_of(b)))
    # Collapse nested choices over the same leaves.
    if a.op == "ite" and a.args[2] is b:
        return vite(AND(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return vite(OR(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return vite(AND(NOT(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[1] is b:
        return vite(OR(NOT(c), a.args[0]), b, a.args[2])
    return mk("ite", c, a, b)


def leaves(t, c=1):
    """[(leaf, condition)] of a choice term."""
    if t.op == "ite":
        g, a, b = t.args
        return leaves(a, AND(c, g)) + leaves(b, AND(c, NOT(g)))
    return [(t, c)] if c != 0 else []


# -------------------------------------------------------------- quantifiers
def narrow(t, pc):
    """The value under the condition pc, without alternatives it rules out."""
    while t.op == "ite":
        if AND(pc, t.args[0]) == 0:
            t = t.args[2]
        elif implies(pc, t.args[0]):
            t = t.args[1]
        else:
            break
    return t


def exists(vs, body):
    """BDD for: there are values of the variables vs such that body."""
    vs = [v for v in vs if v in bfv(body)]
    if not vs or body <= 1:
        return body
    # One-point rule: a necessary conjunct v == t.
    for v in vs:
        for a in atoms(body):
            if a.op == "eq" and v in a.fv and cofactor(body, a, 0) == 0:
                x, y = a.args
                other = y if x is v else (x if y is v else None)
                if other is not None and v not in other.fv:
                    rest = [w for w in vs if w is not v]
                    return exists(rest, bsubst(cofactor(body, a, 1), {v: other}))
    # Pull out conjuncts and disjuncts that do not mention vs.
    for a in atoms(body):
        if not (a.fv & set(vs)):
            b0, b1 = cofactor(body, a, 0), cofactor(body, a, 1)
            return ite(atom(a), exists(vs, b1), exists(vs, b0))
    # Canonical names for the bound variables: the height of the quantifier
    # and the position in it.
    h = 0
    for a in atoms(body):
        h = max(h, _exheight(a))
    vs = sorted(vs, key=_varkey)
    free = {w.args[0] for w in bfv(body) if w not in vs}
    while any("#%d_%d" % (h, i) in free for i in range(len(vs))):
        h += 1
    new = tuple(var("#%d_%d" % (h, i)) for i in range(len(vs)))
    ren = {v: n for v, n in zip(vs, new) if v is not n}
    if ren and any(n in vs for n in ren.values()):
        tmp = {v: var("#t%d" % i) for i, v in enumerate(vs)}
        body = bsubst(body, tmp)
        ren = {tmp[v]: n for v, n in zip(vs, new)}
    return atom(mk("ex", new, bsubst(body, ren) if ren else body))


def _varkey(v):
    n = v.args[0]
    return (n.rstrip("0123456789_"), len(n), n)


_exd = {}


def _exheight(t):
    """How deep quantifiers are nested in t."""
    r = _exd.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == "ex":
        for a in atoms(t.args[1]):
            r = max(r, _exheight(a))
        r += 1
    elif t.op in ("ite", "b"):
        for a in atoms(t.args[0]):
            r = max(r, _exheight(a))
        for a in t.args[1:]:
            r = max(r, _exheight(a))
    else:
        for a in t.args:
            if isinstance(a, T):
                r = max(r, _exheight(a))
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        r = max(r, _exheight(b))
    _exd[t] = r
    return r


def subterms(t, seen=None):
    """Every term inside t, including inside conditions."""
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    if t.op in ("ite", "b"):
        for a in atoms(t.args[0]):
            subterms(a, seen)
        for a in t.args[1:]:
            subterms(a, seen)
    elif t.op == "ex":
        for a in atoms(t.args[1]):
            subterms(a, seen)
    else:
        for a in t.args:
            if isinstance(a, T):
                subterms(a, seen)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        subterms(b, seen)
    return seen


def bsubterms(f):
    seen = set()
    for a in atoms(f):
        subterms(a, seen)
    return seen


# ------------------------------------------------------------------ equality
def eq(a, b):
    """BDD of a == b."""
    if a is b:
        return 1
    if a.op == "ite":
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == "k" and b.op == "k":
        return 1 if kval(a) == kval(b) else 0
    if a.op == "b" or b.op == "b":
        if (a.op == "b" or a in (KTRUE, KFALSE)) and \
                (b.op == "b" or b in (KTRUE, KFALSE)):
            x, y = truth_of(a), truth_of(b)
            return ite(x, y, NOT(y))
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args):
            return 0
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == "k" and y.op in ("tup", "ref", "bound", "fn", "cls", "ntup"):
            return 0
        # None is never equal to a value known to be a string or number.
        if x is NONE and y.op in _NOTNONE:
            return 0
        if x.op == "k" and kval(x) == "" and y.op in ("dirname", "basename"):
            return NOT(atom(y))
        if x.op == "k" and isinstance(kval(x), str) and y.op == "cat":
            s = kval(x)
            p = y.args[0]
            if p.op == "k" and not s.startswith(kval(p)[:len(s)] if len(kval(p)) > len(s) else kval(p)):
                return 0
            if p.op == "k" and len(kval(p)) > len(s):
                return 0
    if a.op == "ref" and b.op == "ref":
        return 0
    if a.op == "pjoin" and b.op == "pjoin":
        n = 0
        while n < len(a.args) and n < len(b.args) and a.args[n] is b.args[n]:
            n += 1
        if n:
            x, y = a.args[n:], b.args[n:]
            if not x or not y:
                rest = x or y
                if all(c.op == "k" and kval(c) not in ("", ".") for c in rest):
                    return 0
            else:
                return eq(pjoin(*x), pjoin(*y))
    if a.op == "cat" and b.op == "cat":
        n = 0
        while n < len(a.args) and n < len(b.args) and a.args[n] is b.args[n]:
            n += 1
        if n:
            return eq(cat(*a.args[n:]), cat(*b.args[n:]))
    if a.op == "ntup" and b.op == "ntup" and a.args[0] is b.args[0] \
            and len(a.args[1]) == len(b.args[1]):
        return AND(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])])
    for x, y in ((a, b), (b, a)):
        # A name with something inserted before its extension differs from it.
        if y.op == "cat" and x.op != "k":
            ops = [p.op for p in y.args if p.op in ("stem", "extn")
                   and p.args[0] is x]
            if ops == ["stem", "extn"] and any(
                    p.op == "k" and kval(p) for p in y.args):
                return 0
        if y.op == "cat" and x in y.args and any(
                p.op == "k" and kval(p) for p in y.args):
            return 0
    for x, y in ((a, b), (b, a)):
        if x.op == "commonpath" and y in x.args:
            o = x.args[0] if x.args[1] is y else x.args[1]
            return within(o, y)
    if a.id > b.id:
        a, b = b, a
    return atom(mk("eq", a, b))


def within(p, base):
    """BDD: path p is base or below it."""
    if p is base:
        return 1
    if p.op == "pjoin" and base.op == "pjoin" and \
            p.args[:len(base.args)] == base.args and not any(
                c.op == "k" and kval(c) == ".." for c in p.args):
        return 1
    return atom(mk("within", p, base))


@rebuilder("within")
def _re_within(p, b):
    return vbool(within(p, b))


def dir_prefix(t):
    """The directory d if t is d with a separator at the end."""
    if t.op == "cat" and len(t.args) == 2 and t.args[1] is K("/") and \
            t.args[0].op in ("root", "pjoin", "norm", "profdir"):
        return t.args[0]
    if t.op == "pjoin" and t.args[-1] is K("") and len(t.args) > 1:
        return pjoin(*t.args[:-1])
    return None


def startswith(p, a):
    """BDD: the text p starts with a."""
    d = dir_prefix(a)
    if d is not None:
        return AND(within(p, d), NOT(eq(p, d)))
    if a is K("/") and p.op in ("readlink", "norm", "pjoin", "ite"):
        return truth_of(mk("os.path.isabs", p)) if p.op != "ite" else ite(
            p.args[0], startswith(p.args[1], a), startswith(p.args[2], a))
    return atom(mk("startswith", p, a))


@rebuilder("startswith")
def _re_startswith(p, a):
    return vbool(startswith(p, a))


@rebuilder("commonpath")
def _re_commonpath(a, b):
    return mk("commonpath", *sorted((a, b), key=lambda t: t.id))


_NOTNONE = {"cat", "pjoin", "norm", "dirname", "basename", "relpath", "stat",
            "pdata", "add", "sub", "mul", "abspath", "expanduser", "b", "len"}


@rebuilder("eq")
def _re_eq(a, b):
    return vbool(eq(a, b))


def lt(a, b):
    if a.op == "ite":
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if a.op == "k" and b.op == "k":
        try:
            return 1 if kval(a) < kval(b) else 0
        except TypeError:
            return 0
    if a is b:
        return 0
    if a.op in ("add", "sub") or b.op in ("add", "sub"):
        return _shifted(a, b)
    return atom(mk("lt", a, b))


def _shifted(a, b):
    """a < b as x + constant < y if it is about two quantities."""
    from .arith import lin, plus
    d = plus(lin(b), lin(a), -1)
    k = d.pop(None, 0)
    if sorted(d.values()) == [-1, 1]:
        x, y = sorted(d, key=lambda t: d[t])
        if k:
            k = K(int(-k) if k == int(k) else float(-k))
            x = mk("add", *sorted((k, x), key=lambda t: t.id))
        a, b = x, y
    return atom(mk("lt", a, b))


@rebuilder("lt")
def _re_lt(a, b):
    return vbool(lt(a, b))


# ------------------------------------------------------------------- strings
def cat(*parts):
    """String concatenation, flattened, constants merged."""
    out = []
    for p in parts:
        ps = p.args if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "k" and isinstance(kval(q), str):
                if kval(q) == "":
                    continue
                if out and out[-1].op == "k" and isinstance(kval(out[-1]), str):
                    out[-1] = K(kval(out[-1]) + kval(q))
                    continue
            out.append(q)
    if not out:
        return K("")
    if len(out) == 1 and out[0].op in ("k", "cat", "pjoin"):
        return out[0]
    if len(out) > 1 and out[0].op in _PATHS and out[1].op == "k" and \
            isinstance(kval(out[1]), str) and kval(out[1])[0] == "/":
        return _spelled(out)
    return mk("cat", *out)


_PATHS = ("root", "pjoin", "norm", "profdir", "readlink")


def _spelled(parts):
    """A path put together from strings, as a join of its components."""
    comps = [[]]
    for q in parts[1:]:
        if q.op == "k" and isinstance(kval(q), str):
            bits = kval(q).split("/")
            if bits[0]:
                comps[-1].append(K(bits[0]))
            for x in bits[1:]:
                comps.append([])
                if x:
                    comps[-1].append(K(x))
        else:
            comps[-1].append(q)
    end = [] if comps[-1] else [K("/")]
    comps = [c for c in comps if c]
    if not comps:
        return mk("cat", *parts)
    t = pjoin(parts[0], *[c[0] if len(c) == 1 else mk("cat", *c)
                          for c in comps])
    return mk("cat", t, *end) if end else t


@rebuilder("cat")
def _re_cat(*parts):
    return cat(*parts)


# --------------------------------------------------------------------- paths
def pjoin(*comps):
    out = []
    for c in comps:
        if c.op == "ite":
            i = comps.index(c)
            g, a, b = c.args
            return vite(g, pjoin(*comps[:i], a, *comps[i + 1:]),
                        pjoin(*comps[:i], b, *comps[i + 1:]))
    for c in comps:
        cs = c.args if c.op == "pjoin" else (c,)
        for d in cs:
            if d.op == "k" and isinstance(kval(d), str):
                s = kval(d)
                if s.startswith("/") and out:
                    out = []
                bits = s.split("/")
                lead = "/" if s.startswith("/") else ""
                bits = [x for x in bits if x not in ("",)]
                if lead:
                    out = [K("/")]
                for x in bits:
                    out.append(K(x))
                if not bits and not lead:
                    continue
            else:
                out.append(d)
    if not out:
        return K("")
    if all(d.op == "k" for d in out):
        s = "/".join(kval(d) for d in out)
        return K(s.replace("//", "/"))
    if len(out) == 1:
        return out[0]
    return mk("pjoin", *out)


@rebuilder("pjoin")
def _re_pjoin(*comps):
    return pjoin(*comps)


def norm(t):
    """os.path.normpath on a term."""
    if t.op == "ite":
        return vite(t.args[0], norm(t.args[1]), norm(t.args[2]))
    if t.op == "k":
        import os
        return K(os.path.normpath(kval(t))) if isinstance(kval(t), str) else t
    if t.op == "norm":
        return t
    if t.op == "pjoin":
        out = []
        for c in t.args:
            if c.op == "k" and kval(c) == "." and out:
                continue
            if c.op == "k" and kval(c) == ".." and out and out[-1].op == "k" \
                    and kval(out[-1]) not in ("..", "/"):
                out.pop()
                continue
            out.append(c)
        t2 = pjoin(*out)
        if t2.op != "pjoin":
            return norm(t2)
        # Normalising distributes over an already normal base.
        if t2.args[0].op == "norm" and all(
                c.op == "k" and kval(c) not in ("..", ".") for c in t2.args[1:]):
            return t2
        return mk("norm", t2)
    return mk("norm", t)


@rebuilder("norm")
def _re_norm(t):
    return norm(t)


def strip_norm(t):
    """Remove value-preserving path wrappers around a base."""
    while t.op in ("norm", "expanduser", "abspath", "realpath", "rstripsep"):
        t = t.args[0]
    return t


def dirname(t):
    if t.op == "ite":
        return vite(t.args[0], dirname(t.args[1]), dirname(t.args[2]))
    if t.op == "k" and isinstance(kval(t), str):
        import os
        return K(os.path.dirname(kval(t)))
    if t.op == "pjoin" and t.args[-1].op == "k":
        return pjoin(*t.args[:-1])
    return mk("dirname", t)


@rebuilder("dirname")
def _re_dirname(t):
    return dirname(t)


def basename(t):
    if t.op == "ite":
        return vite(t.args[0], basename(t.args[1]), basename(t.args[2]))
    if t.op == "k" and isinstance(kval(t), str):
        import os
        return K(os.path.basename(kval(t)))
    if t.op == "pjoin":
        return basename(t.args[-1]) if t.args[-1].op != "k" else t.args[-1]
    return mk("basename", t)


@rebuilder("basename")
def _re_basename(t):
    return basename(t)


def relpath(p, start):
    if p.op == "ite":
        return vite(p.args[0], relpath(p.args[1], start), relpath(p.args[2], start))
    if start.op == "ite":
        return vite(start.args[0], relpath(p, start.args[1]), relpath(p, start.args[2]))
    a = p.args if p.op == "pjoin" else (p,)
    b = start.args if start.op == "pjoin" else (start,)
    if len(a) > len(b) and tuple(a[:len(b)]) == tuple(b):
        return pjoin(*a[len(b):])
    return mk("relpath", p, start)


@rebuilder("relpath")
def _re_relpath(p, s):
    return relpath(p, s)


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if depth <= 0:
        return "…"
    op = t.op
    if op == "k":
        return repr(kval(t))
    if op == "var":
        return t.args[0]
    if op == "ite":
        return "(%s ? %s : %s)" % (bshow(t.args[0], depth - 1),
                                   show(t.args[1], depth - 1),
                                   show(t.args[2], depth - 1))
    if op == "b":
        return "[%s]" % bshow(t.args[0], depth - 1)
    if op == "ex":
        return "∃%s.(%s)" % (",".join(v.args[0] for v in t.args[0]),
                             bshow(t.args[1], depth - 1))
    if op == "pjoin":
        return "/".join(show(a, depth - 1) for a in t.args)
    if op == "cat":
        return "+".join(show(a, depth - 1) for a in t.args)
    if op == "eq":
        return "%s==%s" % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    if op == "lt":
        return "%s<%s" % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(show(a, depth - 1))
        elif isinstance(a, tuple):
            out.append("(" + ",".join(
                show(b, depth - 1) if isinstance(b, T) else str(b) for b in a) + ")")
        else:
            out.append(str(a))
    return "%s(%s)" % (op, ",".join(out))


def bshow(f, depth=4, limit=6):
    """A short sum-of-products rendering of a BDD."""
    if f == 0:
        return "false"
    if f == 1:
        return "true"
    cubes = []

    def go(n, acc):
        if len(cubes) > limit:
            return
        if n == 0:
            return
        if n == 1:
            cubes.append(acc)
            return
        v, lo, hi = _nodes[n]
        go(hi, acc + [(v, True)])
        go(lo, acc + [(v, False)])
    go(f, [])
    s = []
    for c in cubes[:limit]:
        s.append(" & ".join(("" if pos else "!") + show(_vars[v], depth)
                            for v, pos in c) or "true")
    if len(cubes) > limit:
        s.append("…")
    return " | ".join(s)


def reset_all():
    pass


# The values a loop gives to a variable: (loop, name) -> terms, of all runs.
PHI_ALTS = {}
