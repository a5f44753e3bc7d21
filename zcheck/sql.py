"""SQL statements as formulas over the tables.

A statement is parsed and translated, without being executed, into conditions
(BDDs, see terms.py) and terms:

  nodes rows      are named by their id i:  node(i), ncol(i, column)
  closure rows    by their ends:            clo(a, d), depth(a, d)
  collisions rows by their path:            colli(p), salt(p)

so that two statements mean the same exactly if their formulas are equal (up
to the quantifier rules of terms.exists).  Anything outside of the fragment
raises Unknown."""
import re
from .terms import *


class Unknown(Exception):
    pass


TOKEN = re.compile(r"""\s*(?:--[^\n]*\n|/\*.*?\*/|
    (?P<num>\d+(?:\.\d+)?)|(?P<str>'(?:[^']|'')*')|
    (?P<par>:\w+|\?\d*|@\w+|\$\w+)|(?P<id>[A-Za-z_]\w*|"[^"]*"|`[^`]*`|\[[^\]]*\])|
    (?P<op>\|\||<=|>=|<>|!=|==|[-+*/%(),.;<>=]))""", re.X | re.S)


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            if text[i:].strip() == "":
                break
            raise Unknown("token at %r" % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        v = m.group(k)
        if k == "id":
            if v[0] in "\"`[":
                v = v[1:-1]
            else:
                k = "id"
        out.append((k, v))
    return out


class P:
    """Recursive-descent parser producing nested tuples."""

    def __init__(self, toks):
        self.t, self.i = toks, 0
        self.nq = 0

    def peek(self, *kw):
        if self.i + len(kw) > len(self.t):
            return False
        return all(self.t[self.i + j][1].upper() == k
                   and self.t[self.i + j][0] != "str"
                   for j, k in enumerate(kw))

    def take(self, *kw):
        if self.peek(*kw):
            self.i += len(kw)
            return True
        return False

    def need(self, *kw):
        if not self.take(*kw):
            raise Unknown("expected %s at %s" % (kw, self.t[self.i:self.i + 4]))

    def name(self):
        if self.i >= len(self.t) or self.t[self.i][0] != "id":
            raise Unknown("name at %s" % (self.t[self.i:self.i + 4],))
        self.i += 1
        return self.t[self.i - 1][1].lower()

    def end(self):
        return self.i >= len(self.t)

    def statements(self):
        out = []
        while not self.end():
            if self.take(";"):
                continue
            out.append(self.statement())
            if not self.end():
                self.need(";")
        return out

    def statement(self):
        if self.peek("SELECT") or self.peek("WITH"):
            return ("select", self.select())
        if self.take("INSERT") or self.peek("REPLACE"):
            orr = "replace" if self.take("REPLACE") else None
            if self.take("OR"):
                orr = self.name()
            self.need("INTO")
            t = self.name()
            cols = None
            if self.take("("):
                cols = [self.name()]
                while self.take(","):
                    cols.append(self.name())
                self.need(")")
            if self.take("VALUES"):
                rows = []
                while True:
                    self.need("(")
                    r = [self.expr()]
                    while self.take(","):
                        r.append(self.expr())
                    self.need(")")
                    rows.append(r)
                    if not self.take(","):
                        break
                src = ("values", rows)
            else:
                src = ("select", self.select())
            if self.take("ON", "CONFLICT"):
                if self.take("("):
                    while not self.take(")"):
                        self.i += 1
                self.need("DO", "NOTHING")
                orr = "ignore"
            return ("insert", orr, t, cols, src)
        if self.take("UPDATE"):
            if self.take("OR"):
                raise Unknown("UPDATE OR")
            t = self.name()
            al = self.alias(t)
            self.need("SET")
            sets = []
            while True:
                c = self.name()
                self.need("=")
                sets.append((c, self.expr()))
                if not self.take(","):
                    break
            if self.peek("FROM"):
                raise Unknown("UPDATE FROM")
            w = self.expr() if self.take("WHERE") else ("lit", 1)
            return ("update", t, al, sets, w)
        if self.take("DELETE"):
            self.need("FROM")
            t = self.name()
            al = self.alias(t)
            w = self.expr() if self.take("WHERE") else ("lit", 1)
            return ("delete", t, al, w)
        if self.take("PRAGMA"):
            n = self.name()
            v = None
            if self.take("="):
                v = self.t[self.i][1].lower()
                self.i += 1
            elif self.take("("):
                v = self.t[self.i][1].lower()
                self.i += 1
                self.need(")")
            return ("pragma", n, v)
        if self.take("CREATE"):
            if self.take("TABLE"):
                ine = self.take("IF", "NOT", "EXISTS")
                t = self.name()
                self.need("(")
                start, depth = self.i, 1
                while depth:
                    if self.end():
                        raise Unknown("CREATE TABLE")
                    o = self.t[self.i][1]
                    depth += (o == "(") - (o == ")")
                    self.i += 1
                body = self.t[start:self.i - 1]
                while not self.end() and not self.peek(";"):
                    self.i += 1
                return ("create", t, table(body))
            while not self.end() and not self.peek(";"):
                self.i += 1
            return ("create-other",)
        for w in ("BEGIN", "COMMIT", "END", "ROLLBACK", "ANALYZE", "VACUUM",
                  "DROP", "ALTER", "SAVEPOINT", "RELEASE", "ATTACH"):
            if self.take(w):
                while not self.end() and not self.peek(";"):
                    self.i += 1
                return ("other", w.lower())
        raise Unknown("statement at %s" % (self.t[self.i:self.i + 4],))

    KEY = {"WHERE", "SET", "JOIN", "ON", "UNION", "ORDER", "GROUP", "LIMIT",
           "INNER", "LEFT", "CROSS", "NATURAL", "HAVING", "EXCEPT",
           "INTERSECT", "USING", "OFFSET", "RETURNING", "INDEXED"}

    def alias(self, t):
        if self.take("AS"):
            return self.name()
        if not self.end() and self.t[self.i][0] == "id" and \
                self.t[self.i][1].upper() not in self.KEY:
            return self.name()
        return t

    def select(self):
        parts = [self.core()]
        kinds = []
        while self.peek("UNION") or self.peek("EXCEPT") or \
                self.peek("INTERSECT"):
            if not self.take("UNION"):
                raise Unknown("EXCEPT")
            kinds.append("all" if self.take("ALL") else "distinct")
            parts.append(self.core())
        order = False
        if self.take("ORDER", "BY"):
            order = True
            while True:
                self.expr()
                self.take("ASC") or self.take("DESC")
                if not self.take(","):
                    break
        limit = None
        if self.take("LIMIT"):
            limit = self.expr()
        return ("sel", parts, limit)

    def core(self):
        if self.take("("):
            raise Unknown("parenthesised select")
        self.need("SELECT")
        distinct = self.take("DISTINCT")
        self.take("ALL")
        cols = []
        while True:
            if self.take("*"):
                cols.append((("star", None), None))
            elif self.i + 2 < len(self.t) and self.t[self.i + 1][1] == "." \
                    and self.t[self.i + 2][1] == "*":
                cols.append((("star", self.name()), None))
                self.i += 2
            else:
                e = self.expr()
                a = None
                if self.take("AS"):
                    a = self.name()
                elif not self.end() and self.t[self.i][0] == "id" and \
                        self.t[self.i][1].upper() not in self.KEY | {"FROM"}:
                    a = self.name()
                cols.append((e, a))
            if not self.take(","):
                break
        src, conds = [], []
        if self.take("FROM"):
            src.append(self.source())
            while True:
                if self.take(","):
                    src.append(self.source())
                    continue
                if self.take("INNER", "JOIN") or self.take("CROSS", "JOIN") \
                        or self.take("JOIN"):
                    src.append(self.source())
                    if self.take("ON"):
                        conds.append(self.expr())
                    elif self.peek("USING"):
                        raise Unknown("USING")
                    continue
                if self.peek("LEFT") or self.peek("NATURAL"):
                    raise Unknown("JOIN")
                break
        if self.take("WHERE"):
            conds.append(self.expr())
        if self.peek("GROUP") or self.peek("HAVING"):
            raise Unknown("GROUP BY")
        w = ("lit", 1)
        for c in conds:
            w = c if w == ("lit", 1) else ("and", w, c)
        return ("core", distinct, cols, src, w)

    def source(self):
        if self.peek("("):
            raise Unknown("subquery in FROM")
        t = self.name()
        return (t, self.alias(t))

    # expressions
    def expr(self):
        e = self.conj()
        while self.take("OR"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.take("AND"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        if self.peek("NOT") and not self.peek("NOT", "EXISTS"):
            self.take("NOT")
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        e = self.add()
        while True:
            if self.take("IS", "NOT", "NULL") or self.take("NOTNULL"):
                e = ("not", ("isnull", e))
            elif self.take("IS", "NULL") or self.take("ISNULL"):
                e = ("isnull", e)
            elif self.take("IS", "NOT"):
                e = ("not", ("=", e, self.add()))
            elif self.take("IS"):
                e = ("=", e, self.add())
            elif self.take("=") or self.take("=="):
                e = ("=", e, self.add())
            elif self.take("!=") or self.take("<>"):
                e = ("not", ("=", e, self.add()))
            elif self.take("<="):
                e = ("<=", e, self.add())
            elif self.take(">="):
                e = ("<=", self.add(), e)
            elif self.take("<"):
                e = ("<", e, self.add())
            elif self.take(">"):
                e = ("<", self.add(), e)
            elif self.peek("NOT", "IN") or self.peek("IN"):
                neg = self.take("NOT")
                self.need("IN")
                self.need("(")
                if self.peek("SELECT"):
                    s = ("in", e, self.select())
                else:
                    s = ("lit", 0)
                    while True:
                        s = ("or", s, ("=", e, self.expr()))
                        if not self.take(","):
                            break
                self.need(")")
                e = ("not", s) if neg else s
            elif self.take("BETWEEN"):
                a = self.add()
                self.need("AND")
                b = self.add()
                e = ("and", ("<=", a, e), ("<=", e, b))
            elif self.peek("LIKE") or self.peek("GLOB") or \
                    self.peek("NOT", "LIKE") or self.peek("NOT", "GLOB"):
                neg = self.take("NOT")
                op = self.name()
                e = ("fn", op, [e, self.add()])
                e = ("not", e) if neg else e
            else:
                return e

    def add(self):
        e = self.mul()
        while True:
            if self.take("+"):
                e = ("+", e, self.mul())
            elif self.take("-"):
                e = ("-", e, self.mul())
            elif self.take("||"):
                e = ("||", e, self.mul())
            else:
                return e

    def mul(self):
        e = self.atom()
        while True:
            if self.take("*"):
                e = ("*", e, self.atom())
            elif self.take("/"):
                e = ("/", e, self.atom())
            elif self.take("%"):
                e = ("%", e, self.atom())
            else:
                return e

    def atom(self):
        if self.end():
            raise Unknown("end of statement")
        k, v = self.t[self.i]
        if self.take("("):
            if self.peek("SELECT"):
                e = ("scalar", self.select())
            else:
                e = self.expr()
            self.need(")")
            return e
        if self.take("-"):
            return ("-", ("lit", 0), self.atom())
        if self.take("NOT", "EXISTS"):
            self.need("(")
            e = ("not", ("exists", self.select()))
            self.need(")")
            return e
        if self.take("EXISTS"):
            self.need("(")
            e = ("exists", self.select())
            self.need(")")
            return e
        if self.take("CASE"):
            base = None if self.peek("WHEN") else self.expr()
            whens = []
            while self.take("WHEN"):
                f = self.expr()
                self.need("THEN")
                whens.append((f if base is None else ("=", base, f),
                              self.expr()))
            other = self.expr() if self.take("ELSE") else ("lit", None)
            self.need("END")
            return ("case", whens, other)
        if self.peek("CAST"):
            raise Unknown(v)
        self.i += 1
        if k == "num":
            return ("lit", float(v) if "." in v else int(v))
        if k == "str":
            return ("lit", v[1:-1].replace("''", "'"))
        if k == "par":
            if v[0] == "?":
                n = v[1:]
                if n:
                    return ("param", int(n) - 1)
                self.nq += 1
                return ("param", self.nq - 1)
            return ("param", v[1:])
        if k == "id":
            u = v.upper()
            if u == "NULL":
                return ("lit", None)
            if u in ("TRUE", "FALSE"):
                return ("lit", int(u == "TRUE"))
            if self.take("("):
                if self.take("*"):
                    args = [("lit", 1)]
                    self.need(")")
                elif self.take(")"):
                    args = []
                else:
                    self.take("DISTINCT") and self.bad("DISTINCT")
                    args = [self.expr()]
                    while self.take(","):
                        args.append(self.expr())
                    self.need(")")
                return ("fn", v.lower(), args)
            if self.take("."):
                return ("col", v.lower(), self.name())
            return ("col", None, v.lower())
        raise Unknown("expression at %s" % v)

    def bad(self, w):
        raise Unknown(w)


def table(toks):
    """What matters of a table's definition."""
    items, cur, depth = [], [], 0
    for k, v in toks:
        depth += (v == "(" and k == "op") - (v == ")" and k == "op")
        if v == "," and depth == 0:
            items.append(cur)
            cur = []
        else:
            cur.append(v.lower() if k != "str" else v)
    items.append(cur)
    d = {"cols": [], "types": {}, "pk": None, "conflict": None, "fk": {},
         "notnull": set()}

    def conflict(it):
        for i in range(len(it) - 2):
            if it[i:i + 2] == ["on", "conflict"]:
                return it[i + 2]
        return None

    def paren(it, i):
        j = it.index(")", i)
        return [x for x in it[i + 1:j] if x != ","]
    for it in items:
        if not it:
            continue
        if it[0] == "constraint":
            it = it[2:]
        if it[:2] == ["primary", "key"]:
            d["pk"] = paren(it, it.index("("))
            d["conflict"] = conflict(it)
        elif it[:2] == ["foreign", "key"]:
            c = paren(it, it.index("("))
            r = it.index("references")
            d["fk"][c[0]] = (it[r + 1], paren(it, it.index("(", r)) if "(" in
                             it[r:] else [], "cascade" in it)
        elif it[0] in ("unique", "check"):
            d.setdefault("other", []).append(it)
        else:
            d["cols"].append(it[0])
            d["types"][it[0]] = it[1] if len(it) > 1 else ""
            if "not" in it and "null" in it:
                d["notnull"].add(it[0])
            if "primary" in it:
                d["pk"] = [it[0]]
                d["conflict"] = conflict(it)
            if "references" in it:
                r = it.index("references")
                d["fk"][it[0]] = (it[r + 1], paren(it, it.index("(", r)) if "("
                                  in it[r:] else [], "cascade" in it)
    return d


_parsed = {}


def parse(text):
    r = _parsed.get(text)
    if r is None:
        try:
            r = P(tokens(text)).statements()
        except (Unknown, IndexError, ValueError) as e:
            r = Unknown(str(e))
        _parsed[text] = r
    if isinstance(r, Unknown):
        raise r
    return r


# ------------------------------------------------------------------ meaning
KEYS = {"nodes": ("id",), "closure": ("ancestor", "descendant"),
        "collisions": ("path",)}
BOOLS = ("directory", "local")
AGG = ("sum", "min", "max", "total", "count", "avg")


def kk(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v == int(v):
        v = int(v)
    return K(v)


def norm(t):
    if t.op == "k" and isinstance(kval(t), (bool, float)):
        return kk(kval(t))
    return t


class Row:
    def __init__(self, table, keys):
        if table not in KEYS:
            raise Unknown("table " + table)
        self.table, self.keys = table, keys

    @property
    def there(self):
        k = self.keys
        return atom(mk({"nodes": "node", "closure": "clo",
                        "collisions": "colli"}[self.table], *k))

    def col(self, c):
        ks = KEYS[self.table]
        if c in ks:
            return self.keys[ks.index(c)]
        if self.table == "closure":
            if c != "depth":
                raise Unknown("column " + c)
            return mk("depth", *self.keys)
        if self.table == "collisions":
            if c != "salt":
                raise Unknown("column " + c)
            return mk("salt", *self.keys)
        return mk("ncol", self.keys[0], K(c))


class Meaning:
    """Translation of one statement, with the parameters given as terms."""

    def __init__(self, params, columns=None):
        self.params = params
        self.columns = columns or {}

    def rows(self, src, env):
        e, vs = dict(env), []
        for t, al in src:
            ks = [fresh("r") for _ in KEYS.get(t, ())]
            vs += ks
            e[al] = Row(t, ks)
            e.setdefault("#order", ())
        e["#here"] = [al for _, al in src]
        e["#up"] = env
        return e, vs

    def lookup(self, env, al, c):
        if al is not None:
            while env:
                if al in env:
                    return env[al].col(c)
                env = env.get("#up")
            raise Unknown("alias " + al)
        while env:
            here = env.get("#here", [a for a in env if a[0] != "#"])
            hit = []
            for a in here:
                cs = self.columns.get(env[a].table)
                if cs is None:
                    cs = {"nodes": ("id", "path", "directory", "priority",
                                    "local", "lastsync"),
                          "closure": ("ancestor", "descendant", "depth"),
                          "collisions": ("path", "salt")}[env[a].table]
                if c in cs:
                    hit.append(env[a])
            if len(hit) == 1:
                return hit[0].col(c)
            if hit:
                raise Unknown("ambiguous " + c)
            env = env.get("#up")
        raise Unknown("column " + c)

    def term(self, e, env):
        op = e[0]
        if op == "lit":
            return kk(e[1])
        if op == "param":
            v = self.params.get(e[1])
            if v is None:
                raise Unknown("parameter %s" % (e[1],))
            return norm(v)
        if op == "col":
            return self.lookup(env, e[1], e[2])
        if op in ("+", "*"):
            a, b = self.term(e[1], env), self.term(e[2], env)
            if a.op == "k" and b.op == "k":
                return kk(kval(a) + kval(b) if op == "+"
                          else kval(a) * kval(b))
            for x, y in ((a, b), (b, a)):
                if x is K(0 if op == "+" else 1):
                    return y
            return mk("sql" + op, *sorted((a, b), key=lambda t: t.id))
        if op in ("-", "/", "%", "||"):
            return mk("sql" + op, self.term(e[1], env), self.term(e[2], env))
        if op == "scalar":
            return self.scalar(e[1], env)
        if op == "case":
            out = self.term(e[2], env)
            for f, x in reversed(e[1]):
                out = vite(self.cond(f, env), self.term(x, env), out)
            return out
        if op == "fn":
            if e[1] in ("coalesce", "ifnull"):
                a = [self.term(x, env) for x in e[2]]
                out = a[-1]
                for i in range(len(a) - 2, -1, -1):
                    n = self.null(a[i])
                    if n == 1:
                        continue
                    if n != 0 and a[i].op not in ("arg", "ite"):
                        out = mk("coalesce", a[i], *(
                            out.args if out.op == "coalesce" else (out,)))
                    else:
                        out = a[i] if n == 0 else vite(n, out, a[i])
                return out
            if e[1] == "iif" and len(e[2]) == 3:
                e = ("case", [(e[2][0], e[2][1])], e[2][2])
                return self.term(e, env)
            if e[1] in AGG:
                raise Unknown("aggregate outside of a query")
            return mk("sqlfn", K(e[1]), *[self.term(x, env) for x in e[2]])
        if op in ("and", "or", "not", "=", "<", "<=", "isnull", "in",
                  "exists"):
            return vbool(self.cond(e, env))
        raise Unknown(op)

    def cond(self, e, env):
        op = e[0]
        if op == "lit":
            return 1 if e[1] else 0
        if op == "and":
            return AND(self.cond(e[1], env), self.cond(e[2], env))
        if op == "or":
            return OR(self.cond(e[1], env), self.cond(e[2], env))
        if op == "not":
            return NOT(self.cond(e[1], env))
        if op == "isnull":
            return self.null(self.term(e[1], env))
        if op == "=":
            return self.eq(self.term(e[1], env), self.term(e[2], env))
        if op == "<":
            return lt(self.term(e[1], env), self.term(e[2], env))
        if op == "<=":
            return NOT(lt(self.term(e[2], env), self.term(e[1], env)))
        if op == "in":
            x = self.term(e[1], env)
            if e[2][2] is not None:
                raise Unknown("LIMIT")
            f = 0
            for c in e[2][1]:
                cols, en, vs, w = self.core(c, env)
                if len(cols) != 1:
                    raise Unknown("IN with several columns")
                f = OR(f, self.ex(vs, AND(w, self.eq(x, cols[0]))))
            return f
        if op == "exists":
            f = 0
            for c in e[1][1]:
                _, en, vs, w = self.core(c, env, False)
                f = OR(f, self.ex(vs, w))
            return f
        if op in ("col", "param", "fn", "scalar", "case"):
            return self.truth(self.term(e, env))
        raise Unknown(op)

    def null(self, t):
        if t.op == "k":
            return 1 if kval(t) is None else 0
        if t.op in ("ncol", "var", "pid", "depth"):
            return 0            # NOT NULL columns
        if t.op == "ite":
            return OR(AND(t.args[0], self.null(t.args[1])),
                      AND(NOT(t.args[0]), self.null(t.args[2])))
        return atom(mk("isnone", t))

    def truth(self, t):
        if t.op == "k":
            return 1 if kval(t) else 0
        if t.op == "b":
            return t.args[0]
        if t.op == "ite":
            return OR(AND(t.args[0], self.truth(t.args[1])),
                      AND(NOT(t.args[0]), self.truth(t.args[2])))
        return atom(mk("sqltrue", t))

    def isbool(self, t):
        return t.op == "b" or t.op == "ncol" and kval(t.args[1]) in BOOLS

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "ite":
                return OR(AND(x.args[0], self.eq(x.args[1], y)),
                          AND(NOT(x.args[0]), self.eq(x.args[2], y)))
        for x, y in ((a, b), (b, a)):
            if self.isbool(x):
                if y.op == "k":
                    v = kval(y)
                    if v in (0, 1):
                        return self.truth(x) if v else NOT(self.truth(x))
                    return 0
                if self.isbool(y) or y.op not in ("k",):
                    t = self.truth(y)
                    f = self.truth(x)
                    return OR(AND(f, t), AND(NOT(f), NOT(t)))
        if a.op == "k" and b.op == "k":
            return 1 if kval(a) == kval(b) else 0
        return eq(a, b)

    def simp(self, f):
        """Rows of the closure only join rows that exist."""
        for a in atoms(f):
            if a.op == "clo" and cofactor(f, a, 0) == 0:
                for x in a.args:
                    n = mk("node", x)
                    if n in atoms(f):
                        f = AND(atom(a), cofactor(f, n, 1))
        return f

    def ex(self, vs, f):
        """Exists, after eliminating what is fixed by an equation."""
        return self.simp(exists(vs, self.simp(f)))

    def core(self, c, env, need=True):
        _, distinct, cols, src, w = c
        en, vs = self.rows(src, env)
        f = self.cond(w, en)
        for _, al in src:
            f = AND(f, en[al].there)
        out = []
        if need:
            for e, a in cols:
                if e[0] == "star":
                    for _, al in src:
                        if e[1] in (None, al):
                            cs = self.columns.get(en[al].table)
                            if cs is None:
                                raise Unknown("*")
                            out += [en[al].col(x) for x in cs]
                    continue
                out.append(self.term(e, en))
        return out, en, vs, f

    def elim(self, vs, f, terms):
        """Eliminate variables fixed by equations; canonical names for the
        others."""
        vs = list(vs)
        done = False
        while not done:
            done = True
            for v in list(vs):
                for a in atoms(f):
                    if a.op == "eq" and v in a.args and \
                            cofactor(f, a, 0) == 0:
                        o = a.args[1] if a.args[0] is v else a.args[0]
                        if v in o.fv:
                            continue
                        f = self.simp(bsubst(cofactor(f, a, 1), {v: o}))
                        terms = [subst(t, {v: o}) for t in terms]
                        vs.remove(v)
                        done = False
                        break
                if not done:
                    break
        f = self.simp(f)
        used = [v for v in vs if any(v in t.fv for t in terms)]
        f = exists([v for v in vs if v not in used], f)
        m = {v: var("#q%d" % i) for i, v in enumerate(used)}
        return ([m[v] for v in used], bsubst(f, m),
                [subst(t, m) for t in terms])

    def scalar(self, sel, env):
        _, parts, limit = sel
        if len(parts) != 1 or len(parts[0][2]) != 1:
            raise Unknown("scalar query")
        _, distinct, cols, src, w = parts[0]
        if distinct or limit is not None:
            raise Unknown("DISTINCT/LIMIT")
        e = cols[0][0]
        wrap = None
        if e[0] == "fn" and e[1] in ("coalesce", "ifnull") and \
                len(e[2]) == 2 and e[2][0][0] == "fn" and \
                e[2][0][1] in AGG:
            wrap = self.term(e[2][1], env)
            e = e[2][0]
        if e[0] != "fn" or e[1] not in AGG or len(e[2]) != 1:
            raise Unknown("scalar query that is no aggregate")
        en, vs = self.rows(src, env)
        f = self.cond(w, en)
        for _, al in src:
            f = AND(f, en[al].there)
        v = self.term(e[2][0], en)
        qs, f, (v,) = self.elim(vs, f, [v])
        n = e[1]
        if n == "total":
            n, wrap = "sum", K(0)
        t = mk("agg", K(n), tuple(qs), v, vbool(f))
        return mk("coalesce", t, wrap) if wrap is not None else t

    # statements
    def effect(self, st):
        """(kind, table, key terms, free variables, condition, {column: term})
        of a data-changing statement."""
        if st[0] == "delete" or st[0] == "update":
            t, al = st[1], st[2]
            ks = [fresh("r") for _ in KEYS.get(t, ())]
            env = {al: Row(t, ks)}
            w = st[-1]
            f = AND(self.cond(w, env), env[al].there)
            sets = {}
            if st[0] == "update":
                sets = {c: self.term(e, env) for c, e in st[3]}
            return [(st[0], t, ks, ks, f, sets)]
        if st[0] == "insert":
            _, orr, t, cols, src = st
            if cols is None:
                cols = self.columns.get(t)
                if cols is None:
                    raise Unknown("INSERT without columns")
            out = []
            rows = []
            if src[0] == "values":
                rows = [([self.term(e, {}) for e in r], [], 1)
                        for r in src[1]]
            else:
                if src[1][2] is not None:
                    raise Unknown("LIMIT")
                for c in src[1][1]:
                    cs, en, vs, f = self.core(c, {})
                    rows.append((cs, vs, f))
            for vals, vs, f in rows:
                if len(vals) != len(cols):
                    raise Unknown("number of values")
                d = dict(zip(cols, vals))
                ks = [d.get(k) for k in KEYS.get(t, ())]
                if any(k is None for k in ks) or not ks:
                    raise Unknown("key not given")
                out.append(("insert", t, ks, vs, f, d))
            return out
        raise Unknown(st[0])
