"""Loads the package sources (syntax trees only; nothing is executed)."""
import ast
import os

from .interp import Module


class Program:
    def __init__(self, root, package="zielen"):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    with open(p, encoding="utf-8") as fh:
                        tree = ast.parse(fh.read(), p)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.modules[name] = Module(name, p, rel, tree)
        self.dummy = ast.parse("None").body[0].value

    def clone(self):
        """The same sources, not yet loaded by an interpreter."""
        p = Program.__new__(Program)
        p.root, p.errors, p.dummy = self.root, self.errors, self.dummy
        p.modules = {n: Module(m.name, m.path, m.relpath, m.tree)
                     for n, m in self.modules.items()}
        return p

    def functions(self):
        """(module, qualname, node) of every function."""
        for m in self.modules.values():
            def go(nodes, pre):
                for n in nodes:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + n.name, n
                        yield from go(n.body, pre + n.name + ".<locals>.")
                    elif isinstance(n, ast.ClassDef):
                        yield from go(n.body, pre + n.name + ".")
                    else:
                        for c in ast.iter_child_nodes(n):
                            if isinstance(c, ast.stmt) or isinstance(
                                    c, ast.ExceptHandler):
                                yield from go([c], pre)
            yield from go(m.tree.body, "")
