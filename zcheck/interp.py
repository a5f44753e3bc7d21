"""Flow-, call-path- and element-sensitive abstract interpreter for the
zielen sources.

The source is never executed.  One abstract state per program point carries a
path condition (BDD over atoms), the environments, a heap of abstract objects
and a map "this operation has happened" -> condition.  Calls into the
repository are interpreted at the call site (so extracting a helper changes
nothing), both arms of a branch are interpreted and joined, and a loop body is
interpreted for one arbitrary element of what is iterated, with everything the
loop modifies generalised first.  Calls that leave the repository are recorded
as events.
"""
import ast
import builtins
import collections
import importlib
import os

from .terms import *
from . import terms as TM

Part = collections.namedtuple("Part", "vars key val cond")

V0 = var("$0")
VS = tuple(var("$%d" % i) for i in range(8))


class AnalysisLimit(Exception):
    pass


# Classes of which one generic object stands for all of those that a loop
# makes, as it does for the elements of a comprehension.
SINGLE = ("Profile",)


class HInst:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def same(self, o):
        return isinstance(o, HInst) and self.cls is o.cls and self.fields == o.fields


class HColl:
    """kind: list set dict gen tuple.  parts: pid -> Part."""
    __slots__ = ("kind", "parts", "meta")

    def __init__(self, kind, parts=None, meta=None):
        self.kind = kind
        self.parts = parts or {}
        self.meta = meta or {}

    def same(self, o):
        return (isinstance(o, HColl) and self.kind == o.kind
                and self.parts == o.parts and self.meta == o.meta)

    def bare(self):
        """Membership predicate over $0 of the bare parts."""
        return OR(*[p.cond for p in self.parts.values()
                    if p.key is V0 and p.vars == (V0,)])


class FuncInfo:
    def __init__(self, node, module, qual, closure, defaults, kwdefaults, owner):
        self.node = node
        self.module = module
        self.qual = qual
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner          # class name or None
        self.name = getattr(node, "name", "<lambda>")
        self.locals, self.isgen, self.nonlocals, self.globals_ = scan_locals(node)


class ClassInfo:
    def __init__(self, name, qual, module, bases, attrs, node):
        self.name = name
        self.qual = qual
        self.module = module
        self.bases = bases
        self.attrs = attrs
        self.node = node
        self.ntfields = None


class Event:
    __slots__ = ("name", "args", "kw", "pc", "ax", "key", "node", "module",
                 "stack", "loops", "done", "colls", "result", "seq", "recv",
                 "func", "handlers", "dbs")

    def arg(self, i, kwname=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if kwname and kwname in self.kw:
            return self.kw[kwname]
        return default

    def where(self):
        return "%s:%d in %s" % (self.module.relpath, self.node.lineno, self.func)

    def path(self):
        return " > ".join("%s:%d" % (q, l) for q, l in self.stack)

    def __repr__(self):
        return "<%s @%s %s>" % (self.name, self.where(),
                                ", ".join(show(a, 4) for a in self.args))


class State:
    __slots__ = ("frames", "heap", "pc", "done", "ax")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = TRUE
        self.done = {}
        self.ax = TRUE

    def copy(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.done = dict(self.done)
        s.ax = self.ax
        return s

    def assign(self, o):
        self.frames, self.heap, self.pc = o.frames, o.heap, o.pc
        self.done, self.ax = o.done, o.ax

    def dead(self):
        return self.pc == FALSE

    def kill(self):
        self.pc = FALSE

    def setvar(self, fid, name, val):
        fr = dict(self.frames.get(fid, {}))
        fr[name] = val
        self.frames[fid] = fr

    def delvar(self, fid, name):
        fr = dict(self.frames.get(fid, {}))
        fr.pop(name, None)
        self.frames[fid] = fr

    def setfield(self, ref, name, val):
        o = self.heap[ref]
        f = dict(o.fields)
        f[name] = val
        self.heap[ref] = HInst(o.cls, f)


def scan_locals(node):
    """Local names, generator flag, nonlocal and global declarations."""
    names, nonloc, glob = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in body:
        visit(n)
    return names - nonloc - glob, gen[0], nonloc, glob


class Module:
    def __init__(self, name, path, relpath, tree):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.fid = None
        self.loaded = False


_pycls = {}


def pyclass(name):
    """Real class object of an exception name such as 'sqlite3.Error'."""
    if name in _pycls:
        return _pycls[name]
    r = None
    if hasattr(builtins, name):
        r = getattr(builtins, name)
    elif "." in name:
        mod, _, attr = name.rpartition(".")
        try:
            if mod.split(".")[0] in ("shutil", "socket", "sqlite3", "json",
                                     "subprocess", "queue", "os", "re",
                                     "argparse", "struct", "select",
                                     "configparser", "tempfile", "errno",
                                     "contextlib"):
                r = getattr(importlib.import_module(mod), attr, None)
        except ImportError:
            r = None
    if not isinstance(r, type):
        r = None
    _pycls[name] = r
    return r


class Interp:
    MAX_STEPS = 4_000_000

    def __init__(self, program, prims=None):
        self.program = program
        self.prims = prims or {}
        self.funcs = {}
        self.classes = {}
        self.base = State()
        self.nextid = 1
        self.events = []
        self.backedges = []    # loop id, elements, node, state at its end
        self.sorted_by = []    # keys of sorts
        self.loopbreaks = {}   # loop id, elements: states in which it is left early
        self.loopheads = {}    # loop id, elements: state at its head, what is iterated
        self.dry = 0
        self.fid = None
        self.module = None
        self.stack = []            # (funcqual, lineno, nodeid)
        self.callstack = []        # fn ids
        self.loops = []
        self.raise_sinks = [[]]
        self.handlers = []         # list of lists of class terms
        self.return_sinks = []
        self.break_sinks = []
        self.cont_sinks = []
        self.yield_hooks = []
        self.phi_alts = {}
        self.steps = 0
        self.force = {}            # event name -> classes it always may raise
        self.made_with = {}
        self.problems = []         # static problems (unbound, arity, attr)
        self.imprecise = {}
        self.functions_seen = set()
        self.callsites = set()
        self.in_load = False
        self.module_frames = {}
        self.inject = None
        self.inst_vars = {}
        self.term_facts = {}
        self.loop_adds = {}
        self.selfcls = []
        self.extprims = {}
        self.keyerrors = []
        self.aborts = []
        self.gencms = {}
        self.cur_exc = []
        self.class_parent = {}
        self.frame_parent = {}
        from . import ext
        self.ext = ext
        self.on_event = None

    # ------------------------------------------------------------ allocation
    def newid(self):
        self.nextid += 1
        return self.nextid

    def alloc(self, st, obj):
        r = mk("ref", self.newid())
        st.heap[r] = obj
        return r

    def new_coll(self, st, kind, parts=(), **meta):
        d = {}
        for p in parts:
            d[self.newid()] = p
        return self.alloc(st, HColl(kind, d, meta))

    def note(self, why):
        self.imprecise[why] = self.imprecise.get(why, 0) + 1

    def top(self, why, *deps):
        self.note(why)
        return mk("top", why, self.newid())

    def problem(self, kind, node, text, st):
        if self.dry or self.in_load and kind == "attr":
            return
        if st.dead():
            return
        self.problems.append((kind, self.module, node, text, self.curfunc(),
                              st.pc, list(self.stack)))

    def curfunc(self):
        for i in reversed(self.callstack):
            return self.funcs[i].qual
        return "<module>"

    # --------------------------------------------------------------- loading
    def load_all(self, names=None):
        st = self.base
        for name in sorted(names or self.program.modules):
            self.load_module(name, st)
        return st

    def load_module(self, name, st):
        m = self.program.modules[name]
        if m.loaded:
            return
        m.loaded = True
        save = (self.fid, self.module, self.in_load)
        m.fid = self.newid()
        self.module_frames[m.fid] = m
        st.frames[m.fid] = {"__name__": K(name)}
        self.fid, self.module, self.in_load = m.fid, m, True
        self.raise_sinks.append([])
        self.exec_block(m.tree.body, st)
        self.raise_sinks.pop()
        if st.dead():
            st.pc = TRUE
        self.fid, self.module, self.in_load = save

    # ------------------------------------------------------------- joins
    def join_into(self, st, others):
        """st := join of the live states in others (list of State)."""
        live = [s for s in others if not s.dead()]
        if not live:
            st.kill()
            return
        acc = live[0]
        for s in live[1:]:
            acc = self.join2(acc, s)
        st.assign(acc)

    def join2(self, a, b):
        if a.dead():
            return b
        if b.dead():
            return a
        pc = OR(a.pc, b.pc)
        g = simplify(a.pc, pc)
        if AND(a.pc, b.pc) != 0:
            # Overlapping arms: keep a's value where both hold.
            g = a.pc
        s = State()
        s.pc = pc
        s.ax = a.ax if a.ax == b.ax else AND(IMP(a.pc, a.ax), IMP(b.pc, b.ax))
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is fb or fb is None:
                s.frames[fid] = fa
            elif fa is None:
                s.frames[fid] = fb
            else:
                d = {}
                for n in set(fa) | set(fb):
                    va, vb = fa.get(n, UNBOUND), fb.get(n, UNBOUND)
                    d[n] = va if va is vb else vite(g, va, vb)
                s.frames[fid] = d
        for r in set(a.heap) | set(b.heap):
            oa, ob = a.heap.get(r), b.heap.get(r)
            if oa is ob or ob is None:
                s.heap[r] = oa
            elif oa is None:
                s.heap[r] = ob
            else:
                s.heap[r] = self.join_obj(g, oa, ob)
        if a.done is b.done:
            s.done = a.done
        else:
            d = {}
            for k in set(a.done) | set(b.done):
                x, y = a.done.get(k, 0), b.done.get(k, 0)
                d[k] = x if x == y else ite(g, x, y)
            s.done = d
        return s

    def join_obj(self, g, oa, ob):
        if oa.same(ob):
            return oa
        if isinstance(oa, HInst) and isinstance(ob, HInst):
            f = {}
            for n in set(oa.fields) | set(ob.fields):
                va = oa.fields.get(n, UNBOUND)
                vb = ob.fields.get(n, UNBOUND)
                f[n] = va if va is vb else vite(g, va, vb)
            return HInst(oa.cls, f)
        if isinstance(oa, HColl) and isinstance(ob, HColl):
            return self.join_coll(g, oa, ob)
        return oa

    def join_coll(self, g, oa, ob, kind=None):
        parts = {}
        ng = NOT(g)
        pids = list(oa.parts) + [p for p in ob.parts if p not in oa.parts]
        for pid in pids:
            pa, pb = oa.parts.get(pid), ob.parts.get(pid)
            if pa is pb:
                parts[pid] = pa
            elif pa is None:
                parts[pid] = pb._replace(cond=AND(pb.cond, ng))
            elif pb is None:
                parts[pid] = pa._replace(cond=AND(pa.cond, g))
            elif pa.vars == pb.vars and pa.key is pb.key:
                parts[pid] = Part(pa.vars, pa.key,
                                  pa.val if pa.val is pb.val else
                                  (vite(g, pa.val, pb.val)
                                   if pa.val is not None and pb.val is not None
                                   else pa.val or pb.val),
                                  ite(g, pa.cond, pb.cond))
            else:
                parts[pid] = pa._replace(cond=AND(pa.cond, g))
                parts[self.newid()] = pb._replace(cond=AND(pb.cond, ng))
        parts = {k: p for k, p in parts.items() if p.cond != 0}
        meta = {}
        for k in set(oa.meta) | set(ob.meta):
            x, y = oa.meta.get(k), ob.meta.get(k)
            if x == y:
                meta[k] = x
            elif k in ("opaque", "consumed"):
                meta[k] = x or y
            elif k == "db":
                meta[k] = x if x is not None else y
        return HColl(kind or oa.kind, parts, meta)

    # -------------------------------------------------------------- events
    def event(self, st, name, args=(), kw=None, node=None, recv=None,
              excs=(), result=None, observe=False):
        """Record an event; fork exceptional states for catchable excs."""
        if st.dead():
            return None
        self.fork_excs(st, excs, node, name)
        for cname in self.force.get(name, ()):
            self.fork_class(st, cname, name)
        if st.dead():
            return None
        key = tuple(s[2] for s in self.stack) + (id(node), name)
        ev = None
        if not self.dry:
            ev = Event()
            ev.name, ev.args, ev.kw = name, tuple(args), dict(kw or {})
            ev.pc, ev.ax, ev.key, ev.node = st.pc, st.ax, key, node
            ev.module = self.module
            ev.func = self.curfunc()
            ev.stack = [(q, l) for q, l, _ in self.stack] + [
                (ev.func, getattr(node, "lineno", 0))]
            ev.loops = tuple(self.loops)
            ev.done = st.done
            ev.handlers = tuple(h for hs in self.handlers for h in hs)
            ev.recv, ev.result = recv, result
            ev.seq = len(self.events)
            ev.colls = {}
            for i, a in list(enumerate(ev.args)) + list(ev.kw.items()):
                c = self.coll_of(a, st)
                if c is not None:
                    ev.colls[i] = c
                    for p in c.parts.values():
                        for l, _ in leaves(p.val) if p.val is not None else ():
                            c2 = self.coll_of(l, st) if l.op == "ref" else None
                            if c2 is not None:
                                ev.colls[l] = c2
            ev.dbs = None
            if self.on_event is not None:
                self.on_event(ev, st)
            self.events.append(ev)
        st.done = dict(st.done)
        st.done[key] = TRUE
        return ev

    def caught(self, cname):
        """Is an exception of this class caught by an active handler?"""
        for hs in self.handlers:
            for h in hs:
                if self.exc_match(mk("ext", cname), h):
                    return True
        return False

    def fork_excs(self, st, excs, node, name):
        for cname in excs:
            if st.dead():
                return
            if not self.caught(cname):
                continue
            key = tuple(s[2] for s in self.stack) + (id(node),)
            a = atom(mk("exc", cname, name, str(hash(key)),
                        *[x for l in self.loops for x in l[1]]))
            s2 = st.copy()
            s2.pc = AND(st.pc, a)
            if not s2.dead():
                val = mk("excval", cname)
                self.raise_sinks[-1].append((mk("ext", cname), val, s2))
            st.pc = AND(st.pc, NOT(a))

    def fork_class(self, st, cname, name, *more):
        """The operation raises the package's exception class, or not."""
        for i, ci in self.classes.items():
            if ci.name == cname and not st.dead():
                a = atom(mk("exc", cname, name, *more))
                s2 = st.copy()
                s2.pc = AND(st.pc, a)
                if not s2.dead():
                    self.raise_sinks[-1].append(
                        (mk("cls", i), mk("excval", cname), s2))
                st.pc = AND(st.pc, NOT(a))

    def raise_exc(self, st, cls, val):
        if st.dead():
            return
        self.raise_sinks[-1].append((cls, val, st.copy()))
        st.kill()

    def raise_named(self, st, cname, node):
        self.raise_exc(st, mk("ext", cname), mk("excval", cname))

    def exc_match(self, cls, handler):
        """Does handler class catch exceptions of class cls?"""
        if handler.op == "tup":
            return any(self.exc_match(cls, h) for h in handler.args)
        if handler.op == "ite":
            return any(self.exc_match(cls, l) for l, _ in leaves(handler))
        if handler.op == "top" or cls.op == "top":
            return True
        if cls is handler:
            return True
        if cls.op == "cls":
            for c in self.mro(cls):
                if c is handler:
                    return True
                if c.op == "ext" and handler.op == "ext" and self.exc_match(c, handler):
                    return True
            return False
        if cls.op == "ext" and handler.op == "ext":
            a, b = pyclass(cls.args[0]), pyclass(handler.args[0])
            if a and b:
                return issubclass(a, b)
        return False

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.dead():
                return
            self.exec_stmt(s, st)

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise AnalysisLimit("step budget exhausted")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("statement " + type(s).__name__)
            return
        m(s, st)

    def x_Pass(self, s, st):
        pass

    def x_Expr(self, s, st):
        self.eval(s.value, st)

    def x_Import(self, s, st):
        for al in s.names:
            if al.name in self.program.modules:
                self.load_module(al.name, self.base if not self.in_load else st)
            top = al.name.split(".")[0]
            if al.asname:
                v = self.modval(al.name)
                st.setvar(self.fid, al.asname, v)
            else:
                st.setvar(self.fid, top, self.modval(top))

    def modval(self, name):
        if name in self.program.modules or any(
                m.startswith(name + ".") for m in self.program.modules):
            return mk("mod", name)
        return mk("ext", name)

    def x_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            parts = self.module.name.split(".")
            if not self.module.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        for al in s.names:
            v = None
            if base in self.program.modules:
                self.load_module(base, st)
                m = self.program.modules[base]
                if al.name == "*":
                    for n, x in st.frames.get(m.fid, {}).items():
                        if not n.startswith("_"):
                            st.setvar(self.fid, n, x)
                    continue
                v = st.frames.get(m.fid, {}).get(al.name)
                if v is None and base + "." + al.name in self.program.modules:
                    v = mk("mod", base + "." + al.name)
                if v is None:
                    self.problems.append((
                        "import", self.module, s,
                        "%s has no attribute %s" % (base, al.name),
                        "<module>", 1, []))
                    v = self.top("import")
            elif base + "." + al.name in self.program.modules:
                v = mk("mod", base + "." + al.name)
            else:
                v = mk("ext", self.ext.canon(base + "." + al.name))
            st.setvar(self.fid, al.asname or al.name, v)

    def make_func(self, node, st, qual, owner=None):
        defaults = [self.eval(d, st) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, st) for a, d in
               zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        fi = FuncInfo(node, self.module, qual, self.fid, defaults, kwd, owner)
        i = self.newid()
        self.funcs[i] = fi
        return mk("fn", i)

    def x_FunctionDef(self, s, st):
        owner = self.selfcls[-1] if self.selfcls and self.selfcls[-1][1] == self.fid else None
        pre = ""
        if owner:
            pre = owner[0] + "."
        elif self.callstack:
            pre = self.curfunc() + ".<locals>."
        v = self.make_func(s, st, pre + s.name, owner[0] if owner else None)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            v = self.call(dv, [v], {}, d, st)
        st.setvar(self.fid, s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st):
        bases = [self.eval(b, st) for b in s.bases]
        fid = self.newid()
        st.frames[fid] = {}
        save = self.fid
        parent = self.fid
        self.fid = fid
        self.selfcls.append((s.name, fid))
        # Class scope: names resolve here, then in the enclosing scope.
        self.class_parent = getattr(self, "class_parent", {})
        self.class_parent[fid] = parent
        self.exec_block(s.body, st)
        self.selfcls.pop()
        self.fid = save
        attrs = dict(st.frames.get(fid, {}))
        ci = ClassInfo(s.name, s.name, self.module, bases, attrs, s)
        i = self.newid()
        self.classes[i] = ci
        c = mk("cls", i)
        for b in bases:
            if b.op == "cls" and self.classes[b.args[0]].ntfields:
                ci.ntfields = self.classes[b.args[0]].ntfields
            if b is mk("ext", "typing.NamedTuple"):
                ci.ntfields = [n.target.id for n in s.body
                               if isinstance(n, ast.AnnAssign)]
        v = c
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            r = self.call(dv, [v], {}, d, st)
            if r.op == "cls":
                v = r
        st.setvar(self.fid, s.name, v)

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value else NONE
        if st.dead():
            return
        self.return_sinks[-1].append((v, st.copy()))
        st.kill()

    def x_Break(self, s, st):
        self.break_sinks[-1].append(st.copy())
        st.kill()

    def x_Continue(self, s, st):
        self.cont_sinks[-1].append(st.copy())
        st.kill()

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = self.cur_exc[-1] if getattr(self, "cur_exc", None) else None
            if cur:
                self.raise_exc(st, cur[0], cur[1])
            else:
                self.raise_named(st, "RuntimeError", s)
            return
        v = self.eval(s.exc, st)
        if s.cause is not None:
            self.eval(s.cause, st)
        if st.dead():
            return
        for lf, c in leaves(v):
            s2 = st.copy()
            s2.pc = AND(st.pc, c)
            if s2.dead():
                continue
            if lf.op in ("cls", "ext"):
                lf = self.call(lf, [], {}, s, s2)
                if s2.dead():
                    continue
            self.raise_exc(s2, self.class_of(lf, s2), lf)
        st.kill()

    def class_of(self, v, st):
        if v.op == "ref":
            o = st.heap.get(v)
            if isinstance(o, HInst):
                return o.cls
        if v.op == "excval":
            return mk("ext", v.args[0])
        if v.op == "res":
            return mk("ext", v.args[0])
        if v.op == "ntup":
            return v.args[0]
        return mk("top", "class", 0)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def x_AugAssign(self, s, st):
        load = _as_load(s.target)
        cur = self.eval(load, st)
        rhs = self.eval(s.value, st)
        if st.dead():
            return
        opn = type(s.op).__name__
        inplace = {"BitOr": "update", "Sub": "difference_update",
                   "BitAnd": "intersection_update", "Add": "extend",
                   "BitXor": "symmetric_difference_update"}.get(opn)
        lvs = [(l, c) for l, c in leaves(cur) if AND(c, st.pc) != 0]
        if inplace and lvs and all(
                l.op == "ref" and isinstance(st.heap.get(l), HColl)
                and st.heap[l].kind in ("set", "list", "dict") for l, _ in lvs):
            for l, c in lvs:
                s2 = st.copy()
                s2.pc = AND(st.pc, c)
                s1 = st.copy()
                s1.pc = AND(st.pc, NOT(c))
                self.ext.coll_method(self, l, inplace, [rhs], {}, s, s2)
                self.join_into(st, [s2, s1])
            return
        v = self.binop(opn, cur, rhs, s, st)
        self.assign(s.target, v, st)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.setvar(self.fid, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.fork(o, st, lambda l, s2: self.ext.del_item(
                    self, l, k, t, s2))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)

                def f(l, s2):
                    if l.op == "ref" and isinstance(s2.heap.get(l), HInst):
                        s2.setfield(l, t.attr, UNBOUND)
                    return NONE
                self.fork(o, st, f)

    def x_If(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        if st.dead():
            return
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        if not a.dead():
            self.exec_block(s.body, a)
        if not b.dead():
            self.exec_block(s.orelse, b)
        self.join_into(st, [a, b])

    def x_Assert(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        if not b.dead() and self.caught("AssertionError"):
            self.raise_named(b, "AssertionError", s)
        st.pc = AND(st.pc, c)

    def x_Global(self, s, st):
        pass

    x_Nonlocal = x_Global

    def x_While(self, s, st):
        lid = "w%d.%s" % (s.lineno, self.ext.site(self, s))
        const = None

        def head(state):
            c = self.truth(self.eval(s.test, state), state)
            b = state.copy()
            b.pc = AND(state.pc, NOT(c))
            state.pc = AND(state.pc, c)
            return b
        self.generic_loop(st, lid, (), TRUE, None, s, while_head=head)

    def x_For(self, s, st):
        itv = self.eval(s.iter, st)
        if st.dead():
            return
        self.for_loop(s, itv, st, lambda v, s2: self.assign(s.target, v, s2))

    x_AsyncFor = x_For

    def for_loop(self, s, itv, st, bind):
        rec = self.iter_rec(itv, st, s)
        self.event_iter(itv, rec, s, st)
        lid = "f%d.%s" % (s.lineno, self.ext.site(self, s))
        breaks = []
        items = list(rec.parts.values())
        for n, p in enumerate(items):
            if st.dead():
                break
            if p.vars == ():
                a, b = st.copy(), st.copy()
                a.pc, b.pc = AND(st.pc, p.cond), AND(st.pc, NOT(p.cond))
                if a.dead():
                    continue
                self.break_sinks.append([])
                self.cont_sinks.append([])
                bind(self.elem_val(rec, p, {}, a), a)
                self.exec_block(s.body, a)
                breaks += self.break_sinks.pop()
                self.join_into(st, [a, b] + self.cont_sinks.pop())
            else:
                breaks += self.generic_loop(
                    st, lid + ".%d" % n, p.vars, p.cond,
                    lambda m, s2, p=p: bind(self.elem_val(rec, p, m, s2), s2), s,
                    rec=rec, part=p, collect_breaks=True)
        if s.orelse and not st.dead():
            self.exec_block(s.orelse, st)
        self.join_into(st, [st.copy()] + breaks)

    def event_iter(self, itv, rec, node, st):
        pass

    def elem_val(self, rec, p, m, st=None):
        v = subst(p.key, m) if m else p.key
        return self.materialise(v, st) if st is not None else v

    def generic_loop(self, st, lid, pvars, cond, bind, s, while_head=None,
                     rec=None, part=None, collect_breaks=False):
        entry = st.copy()
        mod = {"vars": set(), "heap": set(), "done": set(), "fields": set()}
        end = exits = None
        for attempt in range(6):
            final = attempt == 5
            real = False
            for phase in (0, 1):
                # phase 0: dry run to see what changes; phase 1: real run once
                # the set of changes is stable.
                if phase == 1:
                    real = True
                saved_next = None
                m = {v: fresh("x") for v in pvars}
                s2 = entry.copy()
                self.havoc(s2, entry, mod, lid)
                if phase == 1 and not self.dry:
                    head = s2.copy()
                if phase == 0:
                    self.dry += 1
                self.break_sinks.append([])
                self.cont_sinks.append([])
                mark_r = len(self.raise_sinks[-1])
                mark_ret = len(self.return_sinks[-1]) if self.return_sinks else 0
                xs = tuple(m[v] for v in pvars)
                self.loops.append((lid, xs, s, rec))
                exits_ = []
                if while_head:
                    b = while_head(s2)
                    if not b.dead():
                        exits_.append(b)
                else:
                    s2.pc = AND(s2.pc, bsubst(cond, m))
                    # An element of what is iterated exists.
                inbody = s2.pc
                if not s2.dead():
                    if bind:
                        bind(m, s2)
                    self.exec_block(s.body if not callable(s) else s, s2)
                self.loops.pop()
                brk = self.break_sinks.pop()
                cont = self.cont_sinks.pop()
                endst = State()
                self.join_into(endst, [s2] + cont)
                if phase == 1 and not self.dry:
                    self.backedges.append((lid, xs, s, endst.copy()))
                    self.loopheads[lid, xs] = head, entry, rec, part
                    self.loopbreaks[lid, xs] = [b.copy() for b in brk]
                if phase == 0:
                    self.dry -= 1
                    del self.raise_sinks[-1][mark_r:]
                    if self.return_sinks:
                        del self.return_sinks[-1][mark_ret:]
                    new = self.diff(entry, [endst] + brk + exits_)
                    stable = all(new[k] <= mod[k] for k in mod)
                    for k in mod:
                        mod[k] |= new[k]
                    if not stable and not final:
                        break
            if real:
                break
        # Post state.
        if while_head:
            outs = list(exits_)
            for b in outs:
                pass
            self.join_into(st, outs)
            # The loop may have run zero times: values in the exit state are
            # the generalised ones, which cover that case.
            self.join_into(st, [st.copy()] + brk)
            return []
        xs = tuple(m[v] for v in pvars)
        brk_cond = 0
        for b in brk:
            brk_cond = OR(brk_cond, simplify(b.pc, entry.pc))
        brk_e = exists(xs, self.drop_loop_atoms(brk_cond, lid))
        self._loop_rec = (rec, part) if not brk else None
        out = self.close_loop(entry, endst, mod, lid, xs)
        self._loop_rec = None
        out.pc = AND(entry.pc, NOT(brk_e))
        # Exceptional and returning exits already left through their sinks:
        # if the loop ends normally, no element took one of them.
        leave = 0
        if xs and self.return_sinks:
            rets = self.return_sinks[-1]
            for i in range(mark_ret, len(rets)):
                v, b = rets[i]
                rel = self.drop_loop_atoms(simplify(b.pc, entry.pc), lid)
                if any(a.op == "exc" for a in atoms(rel)):
                    continue
                leave = OR(leave, rel)
                b = b.copy()
                e = exists(xs, rel)
                b.pc = AND(entry.pc, e)
                b.ax = AND(b.ax, IMP(e, rel))
                rets[i] = (v, b)
        if xs:
            for _, _, b in self.raise_sinks[-1][mark_r:]:
                leave = OR(leave, self.drop_loop_atoms(
                    simplify(b.pc, entry.pc), lid))
            leave = forall_atoms(leave, lambda a: a.op == "exc" or any(
                t.op in ("top", "phi", "topzip", "havoc")
                for t in subterms(a)))
            out.pc = AND(out.pc, NOT(exists(xs, leave)))
        st.assign(out)
        if not brk:
            return []
        bout = []
        for b in brk:
            b2 = b.copy()
            rel = b.pc
            b2.pc = AND(entry.pc, brk_e)
            b2.ax = AND(b2.ax, IMP(brk_e, simplify(rel, entry.pc)))
            if len(brk) > 1:
                b2.pc = AND(b2.pc, exists((), simplify(rel, entry.pc)))
            bout.append(b2)
        return bout

    def drop_loop_atoms(self, f, lid):
        """Treat 'an earlier iteration did it' as not having happened."""
        def fn(a):
            if a.op in ("loopadd", "looprm", "it") and a.args[0] == lid:
                return 0
            return atom(a)
        return bmap(f, fn)

    def diff(self, entry, ends):
        out = {"vars": set(), "heap": set(), "done": set(), "fields": set()}
        for e in ends:
            if e.dead():
                continue
            for fid, fr in entry.frames.items():
                fe = e.frames.get(fid)
                if fe is fr or fe is None:
                    continue
                for n in set(fr) | set(fe):
                    if fr.get(n) is not fe.get(n):
                        out["vars"].add((fid, n))
            for r, o in entry.heap.items():
                oe = e.heap.get(r)
                if oe is o or oe is None:
                    continue
                if not o.same(oe):
                    out["heap"].add(r)
                    if isinstance(o, HInst) and isinstance(oe, HInst):
                        for n in set(o.fields) | set(oe.fields):
                            if o.fields.get(n) is not oe.fields.get(n):
                                out["fields"].add((r, n))
            for k, v in e.done.items():
                if entry.done.get(k, 0) != v:
                    out["done"].add(k)
        return out

    def phiterm(self, lid, name):
        return mk("phi", lid, name, *[x for l in self.loops for x in l[1]])

    def phi(self, lid, name, *alts):
        t = self.phiterm(lid, name)
        cur = self.phi_alts.setdefault((lid, name), set())
        known = PHI_ALTS.setdefault((lid, name), set())
        for a in alts:
            if a is not None and a is not t and a is not UNBOUND:
                cur.add(a)
                known.add(a)
        return t

    def havoc(self, st, entry, mod, lid):
        """Generalise what the loop changes: state at an arbitrary head."""
        for fid, n in mod["vars"]:
            v = entry.frames.get(fid, {}).get(n)
            if v is None or v is UNBOUND:
                # Possibly bound by an earlier iteration.
                st.setvar(fid, n, UNBOUND)
                continue
            c = self.coll_of(v, entry)
            if c is not None and c.kind in ("set", "list", "dict"):
                h = self.havoc_coll(c, lid, "%s" % (n,))
                st.setvar(fid, n, self.alloc(st, h))
                continue
            st.setvar(fid, n, self.phi(lid, "%s.%s" % (fid, n), v))
        for r in mod["heap"]:
            o = entry.heap[r]
            if isinstance(o, HColl):
                st.heap[r] = self.havoc_coll(o, lid, "h%d" % r.args[0])
            else:
                f = dict(o.fields)
                for n in sorted(n for r2, n in mod["fields"] if r2 is r):
                    old = o.fields.get(n)
                    if old is None or old is UNBOUND:
                        continue
                    c = self.coll_of(old, entry)
                    if c is not None and c.kind in ("set", "list", "dict"):
                        f[n] = self.alloc(st, self.havoc_coll(
                            c, lid, "h%d.%s" % (r.args[0], n)))
                    else:
                        f[n] = self.phi(lid, "h%d.%s" % (r.args[0], n), old)
                st.heap[r] = HInst(o.cls, f)
        if mod["done"]:
            st.done = dict(st.done)
            for k in mod["done"]:
                st.done[k] = OR(entry.done.get(k, 0),
                                atom(mk("it", lid, str(hash(k)))))

    def havoc_coll(self, c, lid, tag):
        parts = {}
        for pid, p in c.parts.items():
            a = mk("looprm", lid, tag, str(pid), *p.vars)
            parts[pid] = p._replace(cond=AND(p.cond, NOT(atom(a))))
        val = V0 if False else None
        if c.kind == "dict":
            val = mk("loopval", lid, tag, V0)
        parts[("add", lid, tag)] = Part(
            (V0,), V0, val, atom(mk("loopadd", lid, tag, V0)))
        meta = dict(c.meta)
        meta.pop("align", None)
        return HColl(c.kind, parts, meta)

    def close_loop(self, entry, end, mod, lid, xs):
        """State after any number of iterations."""
        out = entry.copy()
        if end.dead():
            return out
        rel = simplify(end.pc, entry.pc)
        out.ax = entry.ax
        self._end_heap, self._entry_heap = end.heap, entry.heap
        for fid, n in mod["vars"]:
            a = entry.frames.get(fid, {}).get(n, UNBOUND)
            b = end.frames.get(fid, {}).get(n, UNBOUND)
            out.setvar(fid, n, self.close_value(
                a, b, rel, lid, xs, entry, end, out, "%s.%s" % (fid, n), n))
        for r in mod["heap"]:
            o, e = entry.heap[r], end.heap.get(r)
            if e is None:
                continue
            if isinstance(o, HColl):
                out.heap[r] = self.close_coll(
                    o, e, rel, lid, xs, "h%d" % r.args[0])
            else:
                f = dict(o.fields)
                for n in sorted(n for r2, n in mod["fields"] if r2 is r):
                    f[n] = self.close_value(
                        o.fields.get(n, UNBOUND), e.fields.get(n, UNBOUND),
                        rel, lid, xs, entry, end, out,
                        "h%d.%s" % (r.args[0], n), n)
                out.heap[r] = HInst(o.cls, f)
        # Objects allocated in the loop stay reachable through collections.
        for r, o in end.heap.items():
            if r not in out.heap:
                out.heap[r] = o
        for fid, fr in end.frames.items():
            if fid not in out.frames:
                out.frames[fid] = fr
        if mod["done"]:
            out.done = dict(out.done)
            for k in mod["done"]:
                d = AND(rel, self.drop_loop_atoms(end.done.get(k, 0), lid))
                out.done[k] = OR(entry.done.get(k, 0), exists(xs, d))
        return out

    def close_value(self, a, b, rel, lid, xs, entry, end, out, tag, name):
        ca = self.coll_of(a, entry) if a is not UNBOUND else None
        cb = self.coll_of(b, end) if b is not UNBOUND else None
        if a is b:
            return a
        if ca is not None and cb is not None and ca.kind in ("set", "list", "dict"):
            return self.alloc(out, self.close_coll(ca, cb, rel, lid, xs, name))
        head = self.phiterm(lid, tag)
        # value changes to constants under a condition: flags
        lvs = leaves(b)
        keep, consts, other = 0, {}, False
        for l, c in lvs:
            if l is head or l is a:
                keep = OR(keep, c)
            elif l.op in ("k", "ref", "ext", "fn") and l is not UNBOUND:
                consts[l] = OR(consts.get(l, 0), c)
            else:
                other = True
        if a is not UNBOUND and not other and len(consts) == 1:
            (l, c), = consts.items()
            c = self.drop_loop_atoms(AND(rel, c), lid)
            if not any(x.op == "phi" and x.args[0] == lid for x in bsubterms(c)):
                return vite(exists(xs, c), l, a)
        alts = [x for x, _ in lvs] + ([a] if a is not UNBOUND else [])
        p = self.phi(lid, tag, *alts)
        if a is UNBOUND:
            # Bound only if the loop ran.
            ran = exists(xs, AND(rel, NOT(self.unbound_cond(b))))
            if len(lvs) == 1 and not (lvs[0][0].fv & set(xs)):
                p = lvs[0][0]
            return vite(ran, p, UNBOUND)
        return p

    def unbound_cond(self, v):
        r = 0
        for l, c in leaves(v):
            if l is UNBOUND:
                r = OR(r, c)
        return r

    def close_coll(self, o, e, rel, lid, xs, tag):
        """Collection after the loop, from entry o and one iteration's end e."""
        parts = {}
        drop = lambda f: self.drop_loop_atoms(f, lid)
        e_parts = dict(e.parts)
        if o.kind in ("set", "dict"):
            # A collection that was rebuilt rather than changed in place.
            bare = lambda p: p.vars == (V0,) and p.key is V0
            ob = [i for i, p in o.parts.items() if bare(p) and i not in e_parts]
            eb = [i for i, q in e_parts.items() if bare(q) and i not in o.parts]
            if len(ob) == 1 and eb and (o.kind == "set" or all(
                    o.parts[ob[0]].val is e_parts[i].val for i in eb)):
                qs = [e_parts.pop(i) for i in eb]
                e_parts[ob[0]] = qs[0]._replace(cond=OR(*[q.cond for q in qs]))
        for pid, p in o.parts.items():
            q = e_parts.get(pid)
            if q is None:
                parts[pid] = p._replace(cond=AND(
                    p.cond, atom(mk("loopkeep", lid, tag, *p.vars))))
                continue
            qc = drop(q.cond)
            gone = AND(p.cond, NOT(qc), rel)
            cond = AND(p.cond, NOT(exists(xs, drop(gone))))
            val = p.val
            if q.val is not p.val and q.val is not None:
                val = self.phi(lid, "%s.%s" % (tag, pid), q.val, p.val)
            parts[pid] = Part(p.vars, p.key, val, cond)
            # Elements added in the loop that were merged with this part.
            more = AND(rel, qc, NOT(p.cond)) if q.key is p.key else 0
            if more != 0:
                parts[self.newid()] = self.close_part(q, more, xs, lid)
        aligned = None
        nadd = 0
        for pid, q in e_parts.items():
            if pid in o.parts:
                continue
            # Without what earlier iterations added.
            cond = AND(rel, drop(q.cond))
            if cond == 0:
                continue
            nadd += 1
            self.loop_adds.setdefault((lid, tag), set()).add(q.key)
            aligned = (q, cond) if q.vars == () and q.cond == 1 else None
            np = self.close_part(q, cond, xs, lid)
            parts[self.newid()] = np
        meta = dict(e.meta)
        meta.pop("align", None)
        if nadd and not o.parts and o.kind == "list" and \
                self._loop_rec is not None and self._loop_rec[0] is not None \
                and self._loop_rec[0].meta.get("order"):
            meta["order"] = self._loop_rec[0].meta["order"]
            meta["sorts"] = self._loop_rec[0].meta.get("sorts")
        if nadd == 1 and aligned and not o.parts and o.kind == "list" \
                and self._loop_rec is not None:
            rec, part = self._loop_rec
            if rec is not None and rec.meta.get("align") is not None \
                    and len(rec.parts) == 1 and part.vars == VS[:len(xs)]:
                # One element for every element of what is iterated, in the
                # same order.
                q, _ = aligned
                q = q._replace(key=self.family(q.key, xs))
                m = dict(zip(xs, part.vars))
                (pid, p0), = rec.parts.items()
                return HColl("list", {pid: Part(
                    part.vars, subst(q.key, m), None,
                    AND(part.cond, bsubst(rel, m)))},
                    dict(meta, align=rec.meta["align"]))
        r = HColl(o.kind, self.merge_bare(parts), meta)
        return r

    _loop_rec = None
    _end_heap = None
    _entry_heap = {}

    def deps(self, r, heap, seen=None):
        """The variables the object graph under r mentions."""
        seen = set() if seen is None else seen
        if r in seen or r not in heap:
            return frozenset()
        seen.add(r)
        o = heap[r]
        ts = []
        if isinstance(o, HInst):
            ts = [v for v in o.fields.values()]
        elif isinstance(o, HColl):
            for p in o.parts.values():
                ts += [p.key] + ([p.val] if p.val is not None else [])
        out = set()
        for t in ts:
            if isinstance(t, T):
                out |= t.fv
                for s in subterms(t):
                    if s.op == "ref":
                        out |= self.deps(s, heap, seen)
        return frozenset(out)

    def family(self, v, xs):
        """An object made once per iteration stands for one object per value
        of the loop variables."""
        if not isinstance(v, T) or not xs or self._end_heap is None:
            return v
        m = {}
        for s in subterms(v):
            if s.op != "ref":
                continue
            o = self._end_heap.get(s)
            if isinstance(o, HInst) and o.cls.op == "cls" and \
                    self.classes[o.cls.args[0]].name in SINGLE:
                continue
            if isinstance(o, HInst) or \
                    isinstance(o, HColl) and s not in self._entry_heap:
                d = self.deps(s, self._end_heap)
                vs = tuple(x for x in xs if x in d)
                if vs:
                    self.inst_vars[s] = vs
                    m[s] = mk("inst", s, *vs)
        return subst_terms(v, m) if m else v

    def remember(self, v, st, ref):
        """What is known of a loop's result when it is put somewhere."""
        if self.dry or not isinstance(v, T):
            return
        for t in subterms(v):
            if t.op == "phi":
                self.term_facts.setdefault(t, []).append(AND(st.pc, st.ax))

    def materialise(self, v, st):
        """Turn members of families into objects of their own."""
        if not isinstance(v, T) or not self.inst_vars:
            return v
        ms = {}
        for s in subterms(v):
            if s.op == "inst" and s.args[0] in self.inst_vars \
                    and s.args[0] in st.heap:
                vs = self.inst_vars[s.args[0]]
                ms[s] = self.clone_obj(s.args[0], dict(zip(vs, s.args[1:])),
                                       st, {})
        return subst_terms(v, ms) if ms else v

    def clone_obj(self, r, m, st, memo):
        if r in memo:
            return memo[r]
        o = st.heap.get(r)
        if o is None or not (self.deps(r, st.heap) & set(m)):
            memo[r] = r
            return r
        n = mk("ref", self.newid())
        memo[r] = n

        def go(t):
            if not isinstance(t, T):
                return t
            refs = {s: self.clone_obj(s, m, st, memo) for s in subterms(t)
                    if s.op == "ref"}
            refs = {a: b for a, b in refs.items() if a is not b}
            if refs:
                t = subst_terms(t, refs)
            return subst(t, m)
        if isinstance(o, HInst):
            st.heap[n] = HInst(o.cls, {k: go(v) for k, v in o.fields.items()})
        else:
            st.heap[n] = HColl(o.kind, {
                k: p._replace(key=go(p.key), val=go(p.val),
                              cond=bsubst(p.cond, m))
                for k, p in o.parts.items()}, dict(o.meta))
        return n

    def close_part(self, q, cond, xs, lid):
        """Close a part added in one iteration over the loop variables."""
        m = {}
        key, val = q.key, q.val
        key, val = self.family(key, xs), self.family(val, xs)
        used = [x for x in xs if x in key.fv]
        vs = list(q.vars)
        ren = {}
        taken = len(vs)
        # Loop variables the key depends on become part variables; the others
        # are quantified.
        rest = [x for x in xs if x not in used]
        if val is not None and not isinstance(val, str):
            rest2 = [x for x in rest if x in val.fv]
            used += rest2
            rest = [x for x in rest if x not in rest2]
        cond = exists(rest, cond)
        for x in used:
            nv = VS[taken] if taken < len(VS) else fresh("$y")
            taken += 1
            ren[x] = nv
            vs.append(nv)
        key = subst(key, ren)
        cond = bsubst(cond, ren)
        val = subst(val, ren) if val is not None else None
        return self.canon_part(Part(tuple(vs), key, val, cond))

    def canon_part(self, p):
        """Rename so that a bare variable key is $0 and others follow."""
        vs = list(p.vars)
        key, val, cond = p.key, p.val, p.cond
        need = key.fv | (val.fv if val is not None else frozenset())
        extra = [v for v in vs if v not in need]
        if extra:
            cond = exists(extra, cond)
            vs = [v for v in vs if v in need]
        if key.op == "var" and key in vs:
            order = [key] + [v for v in vs if v is not key]
        else:
            order = vs
        if tuple(order) != VS[:len(order)]:
            tmp = {v: fresh("t") for v in order}
            fin = {tmp[v]: VS[i] for i, v in enumerate(order)}
            key = subst(subst(key, tmp), fin)
            cond = bsubst(bsubst(cond, tmp), fin)
            val = subst(subst(val, tmp), fin) if val is not None else None
        return Part(VS[:len(order)], key, val, cond)

    def merge_bare(self, parts):
        """Merge bare parts with equal value templates into one."""
        out = {}
        seen = {}
        for pid, p in parts.items():
            if p.vars == (V0,) and p.key is V0:
                k = p.val
                if k in seen:
                    q = out[seen[k]]
                    out[seen[k]] = q._replace(cond=OR(q.cond, p.cond))
                    continue
                seen[k] = pid
            out[pid] = p
        return out

    # ----------------------------------------------------------------- try
    def x_Try(self, s, st):
        htypes = []
        for h in s.handlers:
            if h.type is None:
                htypes.append(mk("ext", "BaseException"))
            else:
                htypes.append(self.eval(h.type, st))
        outs = []              # normal exits
        fin = s.finalbody
        if fin:
            # Something not modelled may be raised anywhere in the body.
            self.run_abort(fin, st)
        if fin:
            self.raise_sinks.append([])          # outer, before finally
            marks = self.push_exit_sinks()
        self.raise_sinks.append([])
        self.handlers.append(htypes + ([mk("ext", "BaseException")] if False else []))
        self.exec_block(s.body, st)
        self.handlers.pop()
        raised = self.raise_sinks.pop()
        if fin and not st.dead():
            self.run_abort(fin, st)
        if s.orelse and not st.dead():
            self.exec_block(s.orelse, st)
        outs.append(st.copy())
        per = {}
        for cls, val, rs in raised:
            for i, h in enumerate(htypes):
                if self.exc_match(cls, h):
                    per.setdefault(i, []).append((cls, val, rs))
                    break
            else:
                self.raise_sinks[-1].append((cls, val, rs))
        for i, lst in sorted(per.items()):
            h = s.handlers[i]
            hs = State()
            self.join_into(hs, [x[2] for x in lst])
            if hs.dead():
                continue
            v = lst[0][1]
            for cls, val, rs in lst[1:]:
                if val is not v:
                    v = vite(simplify(rs.pc, hs.pc), val, v)
            if h.name:
                hs.setvar(self.fid, h.name, v)
            if not hasattr(self, "cur_exc"):
                self.cur_exc = []
            self.cur_exc.append((lst[0][0], v, lst))
            self.exec_block(h.body, hs)
            self.cur_exc.pop()
            outs.append(hs)
        self.join_into(st, outs)
        if fin:
            exits = self.pop_exit_sinks(marks)
            rs = self.raise_sinks.pop()
            if not st.dead():
                self.exec_block(fin, st)
            for cls, val, r in rs:
                self.exec_block(fin, r)
                if not r.dead():
                    self.raise_sinks[-1].append((cls, val, r))
            for sink, item in exits:
                if isinstance(item, tuple):
                    v, r = item
                    self.exec_block(fin, r)
                    if not r.dead():
                        sink.append((v, r))
                else:
                    self.exec_block(fin, item)
                    if not item.dead():
                        sink.append(item)

    x_TryStar = x_Try

    def run_abort(self, fin, st):
        """Interpret a finally block as reached by an unmodelled exception."""
        if self.dry:
            return
        a = st.copy()
        a.done = dict(a.done)
        a.done["abort"] = TRUE
        marks = self.push_exit_sinks()
        self.raise_sinks.append([])
        self.exec_block(fin, a)
        self.raise_sinks.pop()
        self.pop_exit_sinks(marks)
        self.aborts.append((fin, a))

    aborts = ()

    def push_exit_sinks(self):
        marks = []
        for sinks in (self.return_sinks, self.break_sinks, self.cont_sinks):
            if sinks:
                marks.append((sinks, sinks[-1]))
                sinks[-1] = []
            else:
                marks.append((sinks, None))
        return marks

    def pop_exit_sinks(self, marks):
        out = []
        for sinks, old in marks:
            if old is not None:
                new = sinks[-1]
                sinks[-1] = old
                out += [(old, it) for it in new]
        return out

    def x_With(self, s, st):
        self.with_items(list(s.items), s, st)

    x_AsyncWith = x_With

    def with_items(self, items, s, st):
        if not items:
            self.exec_block(s.body, st)
            return
        it = items[0]
        v = self.eval(it.context_expr, st)
        if st.dead():
            return
        rest = lambda state: self.with_items(items[1:], s, state)

        def body(val, state):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, state)
            rest(state)
        lv = [l for l, c in leaves(v) if AND(c, st.pc) != 0]
        x = lv[0] if lv else v
        if x.op == "gencm":
            self.run_gencm(x, body, s, st)
            return
        if x.op == "res" and x.args[0] == "contextlib.suppress":
            classes = mk("tup", *x.args[1])
            self.raise_sinks.append([])
            self.handlers.append([classes])
            body(NONE, st)
            self.handlers.pop()
            raised = self.raise_sinks.pop()
            outs = [st.copy()]
            for cls, val, rs in raised:
                if self.exc_match(cls, classes):
                    outs.append(rs)
                else:
                    self.raise_sinks[-1].append((cls, val, rs))
            self.join_into(st, outs)
            return
        if x.op == "ref" and isinstance(st.heap.get(x), HInst):
            ent = self.getattr_(x, "__enter__", it.context_expr, st)
            val = self.call(ent, [], {}, it.context_expr, st)
            self.raise_sinks.append([])
            marks = self.push_exit_sinks()
            body(val, st)
            exits = self.pop_exit_sinks(marks)
            raised = self.raise_sinks.pop()

            def leave(state, ev):
                f = self.getattr_(x, "__exit__", it.context_expr, state)
                return self.call(f, ev, {}, it.context_expr, state)
            if not st.dead():
                leave(st, [NONE, NONE, NONE])
            for cls, val, rs in raised:
                r = leave(rs, [cls, val, NONE])
                c = self.truth(r, rs)
                sw = rs.copy()
                sw.pc = AND(rs.pc, c)
                rs.pc = AND(rs.pc, NOT(c))
                if not sw.dead():
                    self.join_into(st, [st.copy(), sw])
                if not rs.dead():
                    self.raise_sinks[-1].append((cls, val, rs))
            for sink, item in exits:
                r = item[1] if isinstance(item, tuple) else item
                leave(r, [NONE, NONE, NONE])
                sink.append(item)
            return
        # External context manager: closed on every way out.
        tn = self.ext.typename(x)
        val = x
        self.raise_sinks.append([])
        marks = self.push_exit_sinks()
        body(val, st)
        exits = self.pop_exit_sinks(marks)
        raised = self.raise_sinks.pop()
        if not st.dead():
            self.ext.leave_with(self, x, tn, s, st, ok=True)
        for cls, ev, rs in raised:
            self.ext.leave_with(self, x, tn, s, rs, ok=False)
            self.raise_sinks[-1].append((cls, ev, rs))
        for sink, item in exits:
            r = item[1] if isinstance(item, tuple) else item
            self.ext.leave_with(self, x, tn, s, r, ok=True)
            sink.append(item)

    def run_gencm(self, x, body, s, st):
        fn, args, kw = self.gencms[x.args[0]]
        save = (self.fid, self.module, list(self.stack), list(self.callstack))
        rs, bs, cs = self.return_sinks, self.break_sinks, self.cont_sinks
        state = (self.fid, self.module)

        def hook(val, s2):
            cur = (self.fid, self.module, self.stack, self.callstack,
                   self.return_sinks, self.break_sinks, self.cont_sinks,
                   self.yield_hooks)
            self.fid, self.module = save[0], save[1]
            self.stack, self.callstack = list(save[2]), list(save[3])
            self.return_sinks, self.break_sinks, self.cont_sinks = rs, bs, cs
            self.yield_hooks = self.yield_hooks[:-1]
            body(val, s2)
            (self.fid, self.module, self.stack, self.callstack,
             self.return_sinks, self.break_sinks, self.cont_sinks,
             self.yield_hooks) = cur
        self.call_func(fn, args, kw, s, st, hook=hook)

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if st.dead():
            return
        if isinstance(t, ast.Name):
            fid = self.fid
            fi = self.funcs[self.callstack[-1]] if self.callstack else None
            if fi and self.fid not in self.module_frames:
                if t.id in fi.globals_:
                    fid = self.module.fid
                elif t.id in fi.nonlocals:
                    fid = self.find_frame(t.id, fi, st) or self.fid
            st.setvar(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.fork(o, st, lambda l, s2: self.setattr_(l, t.attr, v, t, s2))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                k = mk("slice", *[self.eval(x, st) if x else NONE for x in
                                  (t.slice.lower, t.slice.upper, t.slice.step)])
            else:
                k = self.eval(t.slice, st)
            self.fork(o, st, lambda l, s2: self.ext.set_item(
                self, l, k, v, t, s2))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def find_frame(self, name, fi, st):
        fid = fi.closure
        while fid is not None:
            if fid in self.module_frames:
                return None
            if name in st.frames.get(fid, {}):
                return fid
            fid = self.frame_parent.get(fid)
        return None

    frame_parent = {}

    def unpack(self, elts, v, st, node):
        n = len(elts)
        items = self.unpack_items(v, n, elts, st, node)
        for e, x in zip(elts, items):
            self.assign(e, x, st)

    def unpack_items(self, v, n, elts, st, node):
        if v.op == "ite":
            a = self.unpack_items(v.args[1], n, elts, st, node)
            b = self.unpack_items(v.args[2], n, elts, st, node)
            return [vite(v.args[0], x, y) for x, y in zip(a, b)]
        if any(isinstance(e, ast.Starred) for e in elts):
            return [self.ext.index(self, v, K(i), node, st)
                    if not isinstance(e, ast.Starred) else self.top("star")
                    for i, e in enumerate(elts)]
        if v.op == "tup" and len(v.args) == n:
            return list(v.args)
        if v.op == "ntup" and len(v.args[1]) == n:
            return list(v.args[1])
        c = self.coll_of(v, st)
        if c is not None:
            ps = list(c.parts.values())
            if len(ps) == n and all(p.vars == () and p.cond == 1 for p in ps):
                return [p.key for p in ps]
            if c.meta.get("regexrow"):
                return [mk("idx", v, K(i)) for i in range(n)]
        return [self.ext.index(self, v, K(i), node, st) for i in range(n)]

    # ------------------------------------------------------- forking on leaves
    def fork(self, v, st, fn):
        """Apply fn(leaf, state) to every feasible leaf and join."""
        if st.dead():
            return NONE
        if v.op != "ite":
            return fn(v, st)
        lvs = [(l, c) for l, c in leaves(v) if AND(c, st.pc) != 0]
        if len(lvs) == 1:
            return fn(lvs[0][0], st)
        # Group equal leaves.
        states, vals = [], []
        for l, c in lvs:
            s2 = st.copy()
            s2.pc = AND(st.pc, c)
            x = fn(l, s2)
            states.append((s2, x))
        live = [(s, x) for s, x in states if not s.dead()]
        if not live:
            st.kill()
            return NONE
        acc, val = live[0]
        for s, x in live[1:]:
            tot = OR(acc.pc, s.pc)
            g = simplify(acc.pc, tot) if AND(acc.pc, s.pc) == 0 else acc.pc
            val = val if val is x else vite(g, val, x)
            acc = self.join2(acc, s)
        st.assign(acc)
        return val

    # --------------------------------------------------------- expressions
    def eval(self, e, st):
        if st.dead():
            return NONE
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.top("expression " + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return K(e.value)

    def e_JoinedStr(self, e, st):
        return cat(*[self.eval(v, st) for v in e.values])

    def e_FormattedValue(self, e, st):
        v = self.eval(e.value, st)
        return self.ext.tostr(v)

    def e_Name(self, e, st):
        v = self.lookup(e.id, st)
        if v is None:
            if hasattr(builtins, e.id):
                return mk("ext", e.id)
            self.problem("name", e, "name %r is not defined" % e.id, st)
            if self.caught("NameError"):
                self.raise_named(st, "NameError", e)
                return NONE
            return self.top("name")
        if v is UNBOUND or v.op == "ite":
            bad = 0
            for l, c in leaves(v):
                if l is UNBOUND:
                    bad = OR(bad, c)
            bad = AND(bad, st.pc)
            if bad != 0:
                if not (self.fid in self.module_frames) and \
                        not self.caught("NameError"):
                    self.problems_unbound(e, bad, st)
                if self.caught("NameError"):
                    s2 = st.copy()
                    s2.pc = bad
                    self.raise_named(s2, "NameError", e)
                st.pc = AND(st.pc, NOT(bad))
                good = [(l, c) for l, c in leaves(v) if l is not UNBOUND]
                if not good:
                    return NONE
                v2 = good[-1][0]
                for l, c in good[:-1]:
                    v2 = vite(c, l, v2)
                return v2
        return v

    def problems_unbound(self, e, bad, st):
        if self.dry:
            return
        self.problems.append(("unbound", self.module, e,
                              "local variable %r may be unbound" % e.id,
                              self.curfunc(), AND(bad, st.ax), list(self.stack)))

    def lookup(self, name, st):
        fid = self.fid
        if fid in self.module_frames:
            return st.frames.get(fid, {}).get(name)
        cp = getattr(self, "class_parent", {})
        if fid in cp:
            v = st.frames.get(fid, {}).get(name)
            if v is not None:
                return v
            f = cp[fid]
            while f in cp:
                f = cp[f]
            v = st.frames.get(f, {}).get(name)
            if v is not None:
                return v
            return st.frames.get(self.module.fid, {}).get(name)
        fr = st.frames.get(fid, {})
        if name in fr:
            return fr[name]
        fi = self.funcs[self.callstack[-1]] if self.callstack else None
        if fi is not None:
            if name in fi.locals and name not in fr:
                return UNBOUND
            c = fi.closure
            while c is not None and c not in self.module_frames:
                f2 = st.frames.get(c, {})
                if name in f2:
                    return f2[name]
                c = self.frame_parent.get(c)
            if c in cp:
                pass
        return st.frames.get(self.module.fid, {}).get(name)

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        if st.dead():
            return NONE
        return self.fork(o, st, lambda l, s2: self.getattr_(l, e.attr, e, s2))

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            parts = [self.eval(x, st) if x else NONE for x in
                     (e.slice.lower, e.slice.upper, e.slice.step)]
            k = mk("slice", *parts)
        else:
            k = self.eval(e.slice, st)
        if st.dead():
            return NONE
        return self.fork(o, st, lambda l, s2: self.ext.index(
            self, l, k, e, s2))

    def e_Index(self, e, st):
        return self.eval(e.value, st)

    def e_Tuple(self, e, st):
        return self.seq_literal(e, st, "tup")

    def seq_literal(self, e, st, kind):
        items, parts, plain = [], [], True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                plain = False
                v = self.eval(x.value, st)
                c = self.iter_rec(v, st, e)
                parts += list(c.parts.values())
            else:
                v = self.eval(x, st)
                items.append(v)
                parts.append(Part((), v, None, 1))
        if kind == "tup" and plain:
            return mk("tup", *items)
        return self.new_coll(st, "list" if kind == "tup" else kind, parts)

    def e_List(self, e, st):
        return self.seq_literal(e, st, "list")

    def e_Set(self, e, st):
        return self.seq_literal(e, st, "set")

    def e_Dict(self, e, st):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.iter_rec(self.eval(v, st), st, e)
                parts += list(c.parts.values())
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            parts.append(Part((), kv, vv, 1))
        return self.new_coll(st, "dict", parts)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return vbool(NOT(self.truth(v, st)))
        if v.op == "k":
            try:
                return K({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x,
                          ast.Invert: lambda x: ~x}[type(e.op)](kval(v)))
            except Exception:
                pass
        return mk("un" + type(e.op).__name__, v)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(vals, s):
            v = self.eval(vals[0], s)
            if len(vals) == 1 or s.dead():
                return v
            c = self.truth(v, s)
            go_on = c if isand else NOT(c)
            if AND(go_on, s.pc) == 0:
                return v
            a, b = s.copy(), s.copy()
            a.pc, b.pc = AND(s.pc, go_on), AND(s.pc, NOT(go_on))
            r = go(vals[1:], a)
            if b.dead():
                s.assign(a)
                return r
            if a.dead():
                s.assign(b)
                return v
            self.join_into(s, [a, b])
            return vite(go_on, r, v)
        return go(e.values, st)

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        va = self.eval(e.body, a) if not a.dead() else NONE
        vb = self.eval(e.orelse, b) if not b.dead() else NONE
        if a.dead():
            st.assign(b)
            return vb
        if b.dead():
            st.assign(a)
            return va
        self.join_into(st, [a, b])
        return vite(c, va, vb)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        return self.make_func(e, st, self.curfunc() + ".<lambda>")

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value else NONE
        if st.dead():
            return NONE
        if self.yield_hooks and self.yield_hooks[-1]:
            self.yield_hooks[-1](v, st)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        if st.dead():
            return NONE
        hook = self.yield_hooks[-1] if self.yield_hooks else None
        if hook is None:
            return NONE
        rec = self.iter_rec(v, st, e)
        fake = _FakeLoop(e)
        self.for_loop_py(fake, rec, st, lambda x, s2: hook(x, s2))
        return NONE

    def for_loop_py(self, fake, rec, st, fn):
        """Loop over rec with a Python body."""
        lid = "y%d.%s" % (fake.lineno, self.ext.site(self, fake))
        for n, p in enumerate(list(rec.parts.values())):
            if st.dead():
                return
            if p.vars == ():
                a, b = st.copy(), st.copy()
                a.pc, b.pc = AND(st.pc, p.cond), AND(st.pc, NOT(p.cond))
                if a.dead():
                    continue
                fn(p.key, a)
                self.join_into(st, [a, b])
            else:
                holder = {}

                def bind(m, s2, p=p):
                    fn(self.elem_val(rec, p, m, s2), s2)
                self.generic_loop(st, lid + ".%d" % n, p.vars, p.cond, bind,
                                  fake, rec=rec, part=p)

    # Comprehensions ---------------------------------------------------------
    def comp(self, e, st, kind, elt, val=None):
        saved = {}
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fr = st.frames.get(self.fid, {})
        for n in names:
            saved[n] = fr.get(n)
        parts = []
        meta = {}
        entry_pc = st.pc
        order_rec = None

        def go(gi, s, vs, single):
            if gi == len(e.generators):
                k = self.eval(elt, s)
                if s.dead():
                    return
                v = self.eval(val, s) if val is not None else None
                if s.dead():
                    return
                cond = simplify(s.pc, entry_pc)
                parts.append((tuple(vs), k, v, cond))
                return
            g = e.generators[gi]
            itv = self.eval(g.iter, s)
            if s.dead():
                return
            rec = self.iter_rec(itv, s, e)
            nonlocal order_rec
            if gi == 0:
                order_rec = rec
            lid = "c%d.%s" % (gi, self.ext.site(self, e))
            for p in list(rec.parts.values()):
                m = {v: fresh("x") for v in p.vars}
                a = s.copy()
                a.pc = AND(s.pc, bsubst(p.cond, m) if m else p.cond)
                if a.dead():
                    continue
                xs = tuple(m[v] for v in p.vars)
                self.loops.append((lid, xs, e, rec))
                self.assign(g.target, self.elem_val(rec, p, m, a), a)
                for test in g.ifs:
                    if a.dead():
                        break
                    c = self.truth(self.eval(test, a), a)
                    a.pc = AND(a.pc, c)
                if not a.dead():
                    go(gi + 1, a, vs + list(xs), single and p.vars == ())
                self.loops.pop()
                # Effects inside a comprehension: keep allocations and what
                # happened.
                for r, o in a.heap.items():
                    if r not in s.heap:
                        s.heap[r] = o
                for k2, d in a.done.items():
                    if s.done.get(k2, 0) != d:
                        s.done = dict(s.done)
                        s.done[k2] = OR(s.done.get(k2, 0), exists(
                            xs, AND(simplify(a.pc, s.pc), d)))
        s0 = st.copy()
        before = dict(st.heap)
        go(0, s0, [], True)
        for r, o in s0.heap.items():
            if r not in st.heap:
                st.heap[r] = o
        for fid, f2 in s0.frames.items():
            if fid not in st.frames:
                st.frames[fid] = f2
        if s0.done is not st.done:
            st.done = s0.done
        # Mutations of existing objects inside comprehensions (rare).
        for r, o in s0.heap.items():
            if st.heap.get(r) is not o and r in st.heap:
                st.heap[r] = o
        out = {}
        self._end_heap, self._entry_heap = st.heap, before
        for vs, k, v, cond in parts:
            if kind in ("list", "set", "gen"):
                k = self.family(k, vs)
            p = self.canon_part(Part(vs, k, v, cond))
            out[self.newid()] = p
        if kind in ("list", "gen") and order_rec is not None \
                and len(e.generators) == 1:
            if not e.generators[0].ifs and order_rec.meta.get("align") is not None:
                meta["align"] = order_rec.meta["align"]
                out = {pid: p for pid, p in zip(order_rec.parts, out.values())} \
                    if len(out) == len(order_rec.parts) else out
            if order_rec.meta.get("order") is not None:
                meta["order"] = order_rec.meta["order"]
        if kind != "set" and order_rec is not None and \
                len(e.generators) == 1 and order_rec.meta.get("sorts"):
            meta["sorts"] = order_rec.meta["sorts"]
        if kind == "gen" and order_rec is not None and \
                order_rec.meta.get("inf"):
            meta["inf"] = True
        out2 = self.merge_bare(out) if kind in ("set", "dict") else out
        for n in names:
            if saved[n] is None:
                st.delvar(self.fid, n)
            else:
                st.setvar(self.fid, n, saved[n])
        if "align" not in meta:
            meta["align"] = ("a", self.newid())
        return self.alloc(st, HColl(kind, out2, meta))

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", e.elt)

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", e.elt)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen", e.elt)

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", e.key, e.value)

    # Comparisons ------------------------------------------------------------
    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            if st.dead():
                return NONE
            res = AND(res, self.compare(type(op).__name__, left, right, st, e))
            left = right
        return vbool(res)

    def compare(self, op, a, b, st, node):
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b, st)
            return r if op == "Eq" else NOT(r)
        if op in ("Is", "IsNot"):
            r = self.identical(a, b, st)
            return r if op == "Is" else NOT(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st, node)
            return r if op == "In" else NOT(r)
        ca, cb = self.coll_of(a, st), self.coll_of(b, st)
        if ca is not None and cb is not None and ca.kind != "list":
            sub = lambda x, y: NOT(self.ext.nonempty(
                self, self.ext.set_diff(self, x, y, st)))
            if op == "LtE":
                return sub(ca, cb)
            if op == "GtE":
                return sub(cb, ca)
            if op == "Lt":
                return AND(sub(ca, cb), NOT(sub(cb, ca)))
            if op == "Gt":
                return AND(sub(cb, ca), NOT(sub(ca, cb)))
        za, zb = self.len_of(a), self.len_of(b)
        if za is not None and b.op == "k" and isinstance(kval(b), (int, float)):
            n = kval(b)
            if (op, n) in (("Gt", 0), ("GtE", 1)):
                return za
            if (op, n) in (("Lt", 1), ("LtE", 0)):
                return NOT(za)
        if zb is not None and a.op == "k" and isinstance(kval(a), (int, float)):
            n = kval(a)
            if (op, n) in (("Lt", 0), ("LtE", 1)):
                return zb
            if (op, n) in (("Gt", 1), ("GtE", 0)):
                return NOT(zb)
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "LtE":
            return NOT(lt(b, a))
        return NOT(lt(a, b))

    def len_of(self, t):
        if t.op == "len":
            return truth_of(t.args[0])
        return None

    def identical(self, a, b, st):
        if a.op == "ite":
            return ite(a.args[0], self.identical(a.args[1], b, st),
                       self.identical(a.args[2], b, st))
        if b.op == "ite":
            return ite(b.args[0], self.identical(a, b.args[1], st),
                       self.identical(a, b.args[2], st))
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            return self.is_none(x, st)
        return self.equal(a, b, st)

    def is_none(self, x, st):
        if x is NONE:
            return 1
        if x.op == "ite":
            return ite(x.args[0], self.is_none(x.args[1], st),
                       self.is_none(x.args[2], st))
        if x.op in ("k", "ref", "fn", "cls", "bound", "tup", "ntup", "mod",
                    "ext", "b", "excval") or x.op in TM._NOTNONE:
            return 0
        if x.op == "res" and x.args[0] in self.ext.NEVER_NONE:
            return 0
        return eq(x, NONE)

    def equal(self, a, b, st):
        if a.op == "ite":
            return ite(a.args[0], self.equal(a.args[1], b, st),
                       self.equal(a.args[2], b, st))
        if b.op == "ite":
            return ite(b.args[0], self.equal(a, b.args[1], st),
                       self.equal(a, b.args[2], st))
        za, zb = self.len_of(a), self.len_of(b)
        if za is not None and b is K(0):
            return NOT(za)
        if zb is not None and a is K(0):
            return NOT(zb)
        if a is NONE or b is NONE:
            return self.is_none(a if b is NONE else b, st)
        ca, cb = self.coll_of(a, st), self.coll_of(b, st)
        if ca is not None and cb is not None:
            if a is b:
                return 1
            ne = lambda x: self.ext.nonempty(self, x)
            if not ca.parts:
                return NOT(ne(cb))
            if not cb.parts:
                return NOT(ne(ca))
            if ca.kind == cb.kind and ca.kind in ("set", "dict"):
                d1 = self.ext.set_diff(self, ca, cb, st)
                d2 = self.ext.set_diff(self, cb, ca, st)
                return AND(NOT(ne(d1)), NOT(ne(d2)))
            return atom(mk("eq", *sorted(
                (self.snap(a, st), self.snap(b, st)), key=lambda t: t.id)))
        return eq(self.snap(a, st), self.snap(b, st))

    def snap(self, v, st):
        """Immutable snapshot term of a value."""
        if v.op == "ref":
            o = st.heap.get(v)
            if isinstance(o, HColl):
                return collterm(o)
        return v

    def contains(self, cont, x, st, node):
        if cont.op == "ite":
            return ite(cont.args[0], self.contains(cont.args[1], x, st, node),
                       self.contains(cont.args[2], x, st, node))
        if x.op == "ite":
            return ite(x.args[0], self.contains(cont, x.args[1], st, node),
                       self.contains(cont, x.args[2], st, node))
        if cont.op == "tup":
            return OR(*[self.equal(x, y, st) for y in cont.args])
        if cont.op == "ntup":
            return OR(*[self.equal(x, y, st) for y in cont.args[1]])
        c = self.coll_of(cont, st)
        if c is not None:
            return self.ext.member(self, c, x, st)
        if cont.op == "k" and x.op == "k":
            try:
                return 1 if kval(x) in kval(cont) else 0
            except TypeError:
                pass
        if cont.op == "ref" and isinstance(st.heap.get(cont), HInst):
            f = self.find_attr(st.heap[cont].cls, "__contains__")
            if f is not None:
                r = self.call(mk("bound", f, cont), [x], {}, node, st)
                return self.truth(r, st)
        return atom(mk("in", x, cont))

    def truth(self, v, st):
        if v.op == "k":
            return 1 if kval(v) else 0
        if v.op == "b":
            return v.args[0]
        if v.op == "ite":
            return ite(v.args[0], self.truth(v.args[1], st),
                       self.truth(v.args[2], st))
        if v.op == "tup":
            return 1 if v.args else 0
        if v.op in ("fn", "cls", "bound", "mod", "ext", "ntup", "excval",
                    "super", "pjoin", "norm", "pdata", "stat", "dirent",
                    "gencm", "prop"):
            return 1
        if v.op == "cat":
            if any(p.op == "k" for p in v.args):
                return 1
        if v.op == "len":
            return truth_of(v.args[0])
        if v.op == "ref":
            o = st.heap.get(v)
            if isinstance(o, HColl):
                return self.ext.nonempty(self, o)
            if isinstance(o, HInst):
                f = self.find_attr(o.cls, "__bool__") or self.find_attr(o.cls, "__len__")
                if f is not None:
                    r = self.call(mk("bound", f, v), [], {}, self.program.dummy, st)
                    return self.truth(r, st)
                return 1
        if v is UNBOUND:
            return atom(v)
        if v.op == "res" and v.args[0] in self.ext.NEVER_NONE:
            return 1
        return atom(v)

    # Binary operators ---------------------------------------------------------
    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        if st.dead():
            return NONE
        return self.binop(type(e.op).__name__, a, b, e, st)

    def binop(self, op, a, b, node, st):
        if a.op == "ite" or b.op == "ite":
            # Distribute over choices of scalars; collections are merged.
            if self.coll_of(a, st) is None or self.coll_of(b, st) is None:
                if a.op == "ite":
                    return vite(a.args[0],
                                self.binop(op, a.args[1], b, node, st),
                                self.binop(op, a.args[2], b, node, st))
                return vite(b.args[0], self.binop(op, a, b.args[1], node, st),
                            self.binop(op, a, b.args[2], node, st))
        ca, cb = self.coll_of(a, st), self.coll_of(b, st)
        if ca is not None and cb is not None:
            E = self.ext
            if op == "BitOr":
                return self.alloc(st, E.set_union(self, ca, cb, st))
            if op == "BitAnd":
                return self.alloc(st, E.set_inter(self, ca, cb, st))
            if op == "Sub":
                return self.alloc(st, E.set_diff(self, ca, cb, st))
            if op == "BitXor":
                x = E.set_diff(self, ca, cb, st)
                y = E.set_diff(self, cb, ca, st)
                return self.alloc(st, E.set_union(self, x, y, st))
            if op == "Add":
                d = dict(ca.parts)
                for p in cb.parts.values():
                    d[self.newid()] = p
                return self.alloc(st, HColl(ca.kind, d, {}))
        if a.op == "ref" and isinstance(st.heap.get(a), HInst):
            dn = {"BitOr": "__or__", "Add": "__add__", "Sub": "__sub__",
                  "BitAnd": "__and__"}.get(op)
            f = dn and self.find_attr(st.heap[a].cls, dn)
            if f is not None:
                return self.call(mk("bound", f, a), [b], {}, node, st)
        if op == "Mod" and a.op == "k" and isinstance(kval(a), str):
            return self.ext.percent_format(self, a, b)
        if a.op == "k" and b.op == "k":
            try:
                x, y = kval(a), kval(b)
                r = {"Add": lambda: x + y, "Sub": lambda: x - y,
                     "Mult": lambda: x * y, "Div": lambda: x / y,
                     "FloorDiv": lambda: x // y, "Mod": lambda: x % y,
                     "Pow": lambda: x ** y if abs(y) < 64 else None,
                     "BitOr": lambda: x | y, "BitAnd": lambda: x & y,
                     "LShift": lambda: x << y}[op]()
                if isinstance(r, (int, float, str, bytes)) and not (
                        isinstance(r, (str, bytes)) and len(r) > 10000):
                    return K(r)
            except Exception:
                pass
        if op == "Add":
            if self.ext.stringy(a) or self.ext.stringy(b):
                return cat(a, b)
            x, y = (a, b) if a.id <= b.id else (b, a)
            return mk("add", x, y)
        if op == "Mult":
            x, y = (a, b) if a.id <= b.id else (b, a)
            return mk("mul", x, y)
        if op in ("BitOr", "BitAnd") and (a.op == "b" or a in (KTRUE, KFALSE)) \
                and (b.op == "b" or b in (KTRUE, KFALSE)):
            x, y = truth_of(a), truth_of(b)
            return vbool(OR(x, y) if op == "BitOr" else AND(x, y))
        if op == "Div" or op == "FloorDiv" or op == "Mod":
            if not (b.op == "k" and kval(b)) and not b.op in ("cat",):
                if not self.ext.stringy(a):
                    self.div_event(a, b, node, st)
                    if st.dead():
                        return NONE
        return mk({"Sub": "sub", "Div": "div"}.get(op, op.lower()), a, b)

    def div_event(self, a, b, node, st):
        self.fork_excs(st, ("ZeroDivisionError",), node, "div")
        if not st.dead() and not self.dry and not self.caught("ZeroDivisionError"):
            self.problems.append(("div", self.module, node, b, self.curfunc(),
                                  st.pc, list(self.stack)))

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            if c.op == "cls":
                for b in self.classes[c.args[0]].bases:
                    go(b)
        go(cls)
        return out

    def find_attr(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if not seen:
                if c is after:
                    seen = True
                continue
            if c.op == "cls":
                v = self.classes[c.args[0]].attrs.get(name)
                if v is not None and v is not UNBOUND:
                    return v
        return None

    def has_ext_base(self, cls):
        return any(c.op != "cls" and not (
            c.op == "ext" and c.args[0] in ("abc.ABC", "object"))
            for c in self.mro(cls))

    def is_subclass(self, cls, name):
        return any(c.op == "cls" and self.classes[c.args[0]].name == name
                   for c in self.mro(cls))

    def getattr_(self, o, name, node, st):
        if st.dead():
            return NONE
        if o.op == "inst":
            o = self.materialise(o, st)
        if o.op == "ref":
            h = st.heap.get(o)
            if isinstance(h, HInst):
                v = h.fields.get(name)
                if v is not None and v is not UNBOUND:
                    if v.op == "ite" and any(l is UNBOUND for l, _ in leaves(v)):
                        bad = AND(st.pc, self.unbound_cond(v))
                        if bad != 0:
                            self.missing_attr(o, name, node, st, bad)
                            st.pc = AND(st.pc, NOT(bad))
                            good = [(l, c) for l, c in leaves(v) if l is not UNBOUND]
                            if not good or st.dead():
                                return NONE
                            v2 = good[-1][0]
                            for l, c in good[:-1]:
                                v2 = vite(c, l, v2)
                            return v2
                    return v
                a = self.find_attr(h.cls, name)
                if a is not None:
                    return self.bind_attr(a, o, h.cls, node, st)
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return self.top("__dict__")
                if self.has_ext_base(h.cls):
                    return mk("extmeth", name, o)
                ga = self.find_attr(h.cls, "__getattr__")
                if ga is not None:
                    return self.call(mk("bound", ga, o), [K(name)], {}, node, st)
                self.missing_attr(o, name, node, st, st.pc)
                st.kill() if self.caught("AttributeError") else None
                if st.dead():
                    return NONE
                return self.top("attribute")
            return mk("cmeth", name, o)
        if o.op == "cls":
            ci = self.classes[o.args[0]]
            a = self.find_attr(o, name)
            if a is not None:
                if a.op == "static":
                    return a.args[0]
                if a.op == "clsm":
                    return mk("bound", a.args[0], o)
                return a
            if name in ("__name__", "__qualname__"):
                return K(ci.name)
            if name == "_make" or name == "_fields":
                return self.top("ntattr")
            return mk("attr", name, o)
        if o.op == "super":
            cls, self_ = o.args
            scls = self.class_of(self_, st)
            a = self.find_attr(scls, name, after=cls)
            if a is not None:
                return self.bind_attr(a, self_, scls, node, st)
            return mk("extmeth", name, self_)
        if o.op == "mod":
            full = o.args[0] + "." + name
            if full in self.program.modules:
                self.load_module(full, self.base)
                return mk("mod", full)
            m = self.program.modules.get(o.args[0])
            if m is not None:
                v = st.frames.get(m.fid, {}).get(name)
                if v is not None:
                    return v
            if any(x.startswith(full + ".") for x in self.program.modules):
                return mk("mod", full)
            self.problem("attr", node, "module %s has no attribute %s" % (
                o.args[0], name), st)
            return self.top("modattr")
        if o.op == "ext":
            return self.ext.ext_attr(self, o, name)
        if o.op == "ntup":
            cls, items = o.args
            fields = self.classes[cls.args[0]].ntfields if cls.op == "cls" else []
            if name in fields:
                return items[fields.index(name)]
            a = self.find_attr(cls, name)
            if a is not None:
                return self.bind_attr(a, o, cls, node, st)
            return mk("cmeth", name, o)
        if o.op == "prop":
            return mk("propdeco", name, o)
        if o is NONE:
            self.missing_attr(o, name, node, st, st.pc)
            if self.caught("AttributeError"):
                st.kill()
                return NONE
            # A dereference of None ends this path.
            st.kill()
            return NONE
        return self.ext.term_attr(self, o, name, node, st)

    def missing_attr(self, o, name, node, st, bad):
        what = "None"
        if o.op == "ref" and isinstance(st.heap.get(o), HInst):
            c = st.heap[o].cls
            what = self.classes[c.args[0]].name if c.op == "cls" else "object"
        if not self.caught("AttributeError") and not self.dry:
            self.problems.append((
                "noneattr" if o is NONE else "attr", self.module, node,
                "%s has no attribute %r" % (what, name), self.curfunc(),
                AND(bad, st.ax), list(self.stack)))
        if self.caught("AttributeError"):
            s2 = st.copy()
            s2.pc = bad
            self.raise_named(s2, "AttributeError", node)

    def bind_attr(self, a, o, cls, node, st):
        if a.op == "fn":
            return mk("bound", a, o)
        if a.op == "static":
            return a.args[0]
        if a.op == "clsm":
            return mk("bound", a.args[0], cls)
        if a.op == "prop":
            return self.call(a.args[0], [o], {}, node, st)
        if a.op == "ctxm":
            return mk("bound", a, o)
        if a.op == "ref" and isinstance(st.heap.get(a), HInst):
            g = self.find_attr(st.heap[a].cls, "__get__")
            if g is not None:
                return self.call(mk("bound", g, a), [o, cls], {}, node, st)
        return a

    def setattr_(self, o, name, v, node, st):
        if st.dead():
            return NONE
        if o.op == "ref" and isinstance(st.heap.get(o), HInst):
            h = st.heap[o]
            a = self.find_attr(h.cls, name)
            if a is not None and a.op == "prop":
                if a.args[1] is not NONE:
                    self.call(a.args[1], [o, v], {}, node, st)
                else:
                    self.problem("attr", node, "property %s has no setter" % name, st)
                return NONE
            st.setfield(o, name, v)
            if not self.dry:
                self.event(st, "setattr", (o, K(name), v), node=node)
            return NONE
        if o.op == "mod":
            m = self.program.modules.get(o.args[0])
            if m:
                st.setvar(m.fid, name, v)
            return NONE
        self.event(st, "setattr", (o, K(name), v), node=node)
        return NONE

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super() needs the enclosing class.
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fi = self.funcs[self.callstack[-1]] if self.callstack else None
            selfv = None
            if fi is not None and fi.node.args.args:
                selfv = self.lookup(fi.node.args.args[0].arg, st)
            if selfv is not None:
                scls = self.class_of(selfv, st)
                for c in self.mro(scls):
                    if c.op == "cls" and fi.owner == self.classes[c.args[0]].name:
                        return mk("super", c, selfv)
            return self.top("super")
        f = self.eval(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if v.op == "ite":
                    args.append(mk("starite", v))
                else:
                    args += self.starred(v, st)
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                c = self.coll_of(v, st)
                if c is not None and all(p.vars == () and p.key.op == "k"
                                         for p in c.parts.values()):
                    for p in c.parts.values():
                        kw[kval(p.key)] = p.val
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        if st.dead():
            return NONE

        def go(done, rest, s):
            for i, a in enumerate(rest):
                if a.op == "starite":
                    return self.fork(a.args[0], s, lambda l, s2: go(
                        done + rest[:i] + self.starred(l, s2),
                        rest[i + 1:], s2))
            return self.fork(f, s, lambda l, s2: self.call(
                l, done + rest, kw, e, s2))
        return go([], args, st)

    def starred(self, v, st):
        if v.op == "tup":
            return list(v.args)
        c = self.coll_of(v, st)
        if c is not None and all(p.vars == () and p.cond == 1
                                 for p in c.parts.values()):
            return [p.key for p in c.parts.values()]
        return [mk("star", self.snap(v, st))]

    def call(self, f, args, kw, node, st):
        if st.dead():
            return NONE
        op = f.op
        if op == "ite":
            return self.fork(f, st, lambda l, s2: self.call(l, args, kw, node, s2))
        self.callsites.add((self.module.name, getattr(node, "lineno", 0),
                            getattr(node, "col_offset", 0)))
        if op == "fn":
            return self.call_func(f, args, kw, node, st)
        if op == "bound":
            fn, slf = f.args
            if fn.op == "ctxm":
                return self.make_gencm(fn.args[0], [slf] + list(args), kw)
            return self.call(fn, [slf] + list(args), kw, node, st)
        if op == "cls":
            return self.instantiate(f, args, kw, node, st)
        if op == "static":
            return self.call(f.args[0], args, kw, node, st)
        if op == "ctxm":
            return self.make_gencm(f.args[0], args, kw)
        if op == "ext":
            return self.ext.call_ext(self, f.args[0], args, kw, node, st)
        if op == "cmeth":
            return self.ext.coll_method(self, f.args[1], f.args[0], args, kw, node, st)
        if op == "tmeth":
            return self.ext.term_method(self, f.args[1], f.args[0], args, kw, node, st)
        if op == "extmeth":
            return self.ext.ext_method(self, f.args[1], f.args[0], args, kw, node, st)
        if op == "propdeco":
            name, prop = f.args
            if name == "setter":
                return mk("prop", prop.args[0], args[0])
            if name == "getter":
                return mk("prop", args[0], prop.args[1])
            return prop
        if op == "partial":
            return self.call(f.args[0], list(f.args[1]) + list(args),
                             {**dict(f.args[2]), **kw}, node, st)
        if op == "ref":
            h = st.heap.get(f)
            if isinstance(h, HInst):
                c = self.find_attr(h.cls, "__call__")
                if c is not None:
                    return self.call(mk("bound", c, f), args, kw, node, st)
        if op == "identity":
            return args[0] if args else NONE
        self.event(st, "call?", (f,) + tuple(args), kw, node)
        return self.top("call of unknown value")

    def make_gencm(self, fn, args, kw):
        if not hasattr(self, "gencms"):
            self.gencms = {}
        i = self.newid()
        self.gencms[i] = (fn, list(args), dict(kw))
        return mk("gencm", i)

    def bind_args(self, fi, args, kw, node, st):
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        star = None
        args = list(args)
        for i, v in enumerate(args):
            if v.op == "star":
                star = v
                args = args[:i]
                break
        kw = dict(kw)
        dstar = kw.pop("**", None)
        for p, v in zip(params, args):
            out[p] = v
        extra = args[len(params):]
        ok = True
        if extra and not a.vararg:
            self.problem("arity", node, "%s() takes %d positional arguments, %d given"
                         % (fi.qual, len(params), len(args)), st)
            ok = False
        if a.vararg:
            out[a.vararg.arg] = mk("tup", *extra) if star is None else \
                mk("starargs", star)
        kws = {}
        for k, v in kw.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.problem("arity", node, "%s() got multiple values for %s"
                                 % (fi.qual, k), st)
                out[k] = v
            elif a.kwarg:
                kws[k] = v
            else:
                self.problem("arity", node, "%s() got an unexpected keyword argument %r"
                             % (fi.qual, k), st)
        if a.kwarg:
            out[a.kwarg.arg] = self.new_coll(st, "dict", [
                Part((), K(k), v, 1) for k, v in kws.items()])
        nd = len(fi.defaults)
        for i, p in enumerate(params):
            if p not in out:
                j = i - (len(params) - nd)
                if j >= 0:
                    out[p] = fi.defaults[j]
                elif star is not None or dstar is not None:
                    out[p] = mk("argof", p, star if star is not None else dstar)
                else:
                    self.problem("arity", node, "%s() missing argument %r"
                                 % (fi.qual, p), st)
                    out[p] = self.top("missing argument")
        for x in a.kwonlyargs:
            if x.arg not in out:
                out[x.arg] = fi.kwdefaults.get(x.arg) or self.top("missing kwonly")
        return out

    def call_func(self, f, args, kw, node, st, hook=None):
        fid_ = f.args[0]
        fi = self.funcs[fid_]
        bound = self.bind_args(fi, args, kw, node, st)
        prim = self.find_prim(fi, bound, st)
        if prim is not None:
            return prim(self, st, node, bound, fi)
        self.functions_seen.add((fi.module.name, fi.qual))
        if self.callstack.count(fid_) >= 2 or len(self.callstack) > 60:
            self.event(st, "recursion", tuple(bound.values()), node=node)
            return self.top("recursion")
        frame = self.newid()
        self.frame_parent = dict(self.frame_parent)
        self.frame_parent[frame] = fi.closure
        st.frames[frame] = dict(bound)
        save = (self.fid, self.module)
        self.stack.append((self.curfunc(), getattr(node, "lineno", 0), id(node)))
        self.callstack.append(fid_)
        self.fid, self.module = frame, fi.module
        self.return_sinks.append([])
        saved_b, saved_c = self.break_sinks, self.cont_sinks
        self.break_sinks, self.cont_sinks = [], []
        gen_parts = None
        if isinstance(fi.node, ast.Lambda):
            self.yield_hooks.append(None)
            v = self.eval(fi.node.body, st)
            rets = []
            if not st.dead():
                rets = [(v, st.copy())]
        else:
            if fi.isgen and hook is None:
                entry_pc = st.pc
                depth = len(self.loops)
                gref = self.alloc(st, HColl("gen", {}, {"gen": fi.qual}))
                meta = {"gen": fi.qual}

                def hook2(val, s2):
                    o = s2.heap[gref]
                    d = dict(o.parts)
                    d[self.newid()] = Part((), val, None, 1)
                    s2.heap[gref] = HColl("gen", d, o.meta)
                self.yield_hooks.append(hook2)
            else:
                self.yield_hooks.append(hook)
            self.exec_block(fi.node.body, st)
            rets = list(self.return_sinks[-1])
            if not st.dead():
                rets.append((NONE, st.copy()))
            if fi.isgen and hook is None:
                rets = [(gref, s) for _, s in rets]
        self.yield_hooks.pop()
        self.return_sinks.pop()
        self.break_sinks, self.cont_sinks = saved_b, saved_c
        self.fid, self.module = save
        self.callstack.pop()
        self.stack.pop()
        live = [(narrow(v, s.pc), s) for v, s in rets if not s.dead()]
        if not live:
            st.kill()
            return NONE
        val, acc = live[0]
        for v, s in live[1:]:
            tot = OR(acc.pc, s.pc)
            g = simplify(acc.pc, tot) if AND(acc.pc, s.pc) == 0 else acc.pc
            val = val if v is val else vite(g, val, v)
            acc = self.join2(acc, s)
        st.assign(acc)
        return narrow(val, acc.pc)

    def find_prim(self, fi, bound, st):
        if not self.prims:
            return None
        k = (fi.owner, fi.name)
        p = self.prims.get(k)
        if p is not None:
            return p
        if fi.owner:
            slf = bound.get("self")
            if slf is not None and slf.op == "ref":
                h = st.heap.get(slf)
                if isinstance(h, HInst) and h.cls.op == "cls":
                    for base in ("SyncDBFile",):
                        if (base + ".*", fi.name) in self.prims and \
                                self.is_subclass(h.cls, base):
                            return self.prims[(base + ".*", fi.name)]
        return None

    def instantiate(self, c, args, kw, node, st):
        ci = self.classes[c.args[0]]
        if ci.ntfields is not None:
            vals = list(args)
            for f in ci.ntfields[len(vals):]:
                vals.append(kw.get(f, NONE))
            if len(args) > len(ci.ntfields):
                self.problem("arity", node, "%s() takes %d arguments" % (
                    ci.name, len(ci.ntfields)), st)
            if args and args[0].op == "star":
                src = args[0].args[0]
                n = len(ci.ntfields) - len(args) + 1
                vals = [self.ext.tidx(src, K(i)) for i in range(n)] + \
                    list(args[1:])
            return mk("ntup", c, tuple(vals))
        r = self.alloc(st, HInst(c, {}))
        bases = {b.args[0] for b in self.mro(c) if b.op == "ext"}
        if bases & DICTLIKE:
            st.setfield(r, "__store", self.new_coll(st, "dict"))
            fac = bool(args) and "collections.defaultdict" in bases
            st.setfield(r, "default_factory", args[0] if fac else NONE)
        init = self.find_attr(c, "__init__")
        if init is not None:
            self.call(init, [r] + list(args), kw, node, st)
        elif args or kw:
            if self.has_ext_base(c):
                st.setfield(r, "args", mk("tup", *args))
            else:
                self.problem("arity", node, "%s() takes no arguments" % ci.name, st)
        if not st.dead() and self.has_ext_base(c) and init is None:
            st.setfield(r, "args", mk("tup", *args))
            self.made_with[r] = kw
        return r

    # ------------------------------------------------------------ collections
    def coll_of(self, v, st):
        """HColl for a value, merging choices; None if not a collection."""
        if v.op == "inst":
            v = self.materialise(v, st)
        if v.op == "ref":
            o = st.heap.get(v)
            if isinstance(o, HInst):
                s = o.fields.get("__store")
                o = st.heap.get(s) if s is not None else None
            return o if isinstance(o, HColl) else None
        if v.op == "ite":
            a = self.coll_of(v.args[1], st)
            b = self.coll_of(v.args[2], st)
            if a is None or b is None:
                return None
            return self.join_coll(v.args[0], a, b)
        return None

    def iter_rec(self, v, st, node):
        """HColl describing what iterating over v yields (keys for dicts)."""
        if v.op == "inst":
            v = self.materialise(v, st)
        if v.op == "ite":
            a = self.iter_rec(v.args[1], st, node)
            b = self.iter_rec(v.args[2], st, node)
            return self.join_coll(v.args[0], a, b, kind="list")
        if v.op == "tup":
            return HColl("list", {("t", i): Part((), x, None, 1)
                                  for i, x in enumerate(v.args)})
        if v.op == "ntup":
            return HColl("list", {("t", i): Part((), x, None, 1)
                                  for i, x in enumerate(v.args[1])})
        if v.op == "ref":
            o = st.heap.get(v)
            if isinstance(o, HColl):
                if o.kind == "gen":
                    n = o.meta.get("consumed", 0)
                    if n and not self.dry:
                        self.problems.append((
                            "oneshot", self.module, node,
                            "one-shot iterator is iterated again",
                            self.curfunc(), st.pc, list(self.stack)))
                    if n:
                        return HColl("list", {})
                    m = dict(o.meta)
                    m["consumed"] = 1
                    st.heap[v] = HColl(o.kind, o.parts, m)
                return o
            if isinstance(o, HInst):
                store = o.fields.get("__store")
                it = self.find_attr(o.cls, "__iter__")
                if it is None and store is not None:
                    return self.iter_rec(store, st, node)
                if it is not None:
                    r = self.call(mk("bound", it, v), [], {}, node, st)
                    if r is not v:
                        return self.iter_rec(r, st, node)
        if v.op == "k" and isinstance(kval(v), (str, bytes)) and len(kval(v)) <= 64:
            return HColl("list", {("s", i): Part((), K(x), None, 1)
                                  for i, x in enumerate(kval(v))})
        return self.ext.iter_term(self, v, st, node)


DICTLIKE = {"dict", "collections.defaultdict", "collections.OrderedDict",
            "collections.UserDict"}


class _FakeLoop:
    def __init__(self, e):
        self.lineno = e.lineno
        self.col_offset = e.col_offset
        self.body = []
        self.orelse = []


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


_collterms = {}


_height_memo = {}


def bound_height(t):
    """Above the names bound in collections inside t."""
    r = _height_memo.get(t)
    if r is None:
        r = 0
        for x in subterms(t):
            if x.op == "part" and x is not t:
                for v in x.args[0]:
                    n = v.args[0]
                    if n.startswith("#c"):
                        r = max(r, int(n[2:].partition("_")[0]) + 1)
        _height_memo[t] = r
    return r


def collterm(o):
    ps = []
    for p in o.parts.values():
        b = [p.key, p.val if p.val is not None else NONE, vbool(p.cond)]
        vs = tuple(p.vars)
        if vs:
            # The variables are bound: they get names of their own.
            h = max(map(bound_height, b))
            new = tuple(var("#c%d_%d" % (h, i)) for i in range(len(vs)))
            m = dict(zip(vs, new))
            b, vs = [subst(x, m) for x in b], new
        ps.append(mk("part", vs, *b))
    return mk("coll", o.kind, tuple(ps))
