"""Loads the real source text of backy; nothing is rewritten or copied."""
import ast
import os

REPO = os.environ.get("BACKY_REPO", "/repo")
ROOT = os.path.join(REPO, "src", "backy")


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        if parent:
            self.qual = parent.qual + "." + self.name
        elif cls:
            self.qual = cls.qual + "." + self.name
        else:
            self.qual = mod.short + ":" + self.name
        self.is_gen = _has_yield(node)
        self.is_async = isinstance(node, ast.AsyncFunctionDef)


def _has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, mod, node, qualname=None):
        self.mod, self.node = mod, node
        self.name = node.name
        self.qual = mod.short + ":" + (qualname or node.name)
        self.attrs = {}
        self.funcs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(mod, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.attrs[st.target.id] = st.value

    def annotations(self):
        return [st for st in self.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        # backy.rbd.chunked.file -> rbd.chunked.file
        self.short = name.split(".", 1)[1] if "." in name else name
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.globals = {}  # name -> ('func',F)|('class',C)|('import',mod,attr)|('expr',node)
        self.values = {}
        self._collect(self.tree.body)

    def _rel(self, level, module):
        if level == 0:
            return module
        base = self.name.split(".")
        if not self.is_pkg:
            base = base[:-1]
        if level > 1:
            base = base[: -(level - 1)]
        return ".".join(base + ([module] if module else []))

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.globals[st.name] = ("func", Func(self, st))
            elif isinstance(st, ast.ClassDef):
                self.globals[st.name] = ("class", Class(self, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.globals[a.asname] = ("module", a.name)
                    else:
                        top = a.name.split(".")[0]
                        self.globals[top] = ("module", top)
            elif isinstance(st, ast.ImportFrom):
                m = self._rel(st.level, st.module)
                for a in st.names:
                    self.globals[a.asname or a.name] = ("import", m, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.globals[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                    continue
                self._collect(st.orelse)
                self._collect(st.body)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)


class Repo:
    def __init__(self, root=ROOT):
        self.root = root
        self.modules = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name != "backy" and not name.startswith("backy."):
            return None
        rel = name.split(".")[1:]
        p = os.path.join(self.root, *rel)
        for cand in (os.path.join(p, "__init__.py"), p + ".py"):
            if os.path.exists(cand):
                m = Module(name, cand)
                self.modules[name] = m
                return m
        return None

    def find(self, qual):
        """'schedule:Schedule.expire' -> Func"""
        mod, _, path = qual.partition(":")
        m = self.module("backy" if mod == "backy" else "backy." + mod)
        if m is None:
            return None
        parts = path.split(".")
        g = m.globals.get(parts[0])
        if g is None:
            return None
        if len(parts) == 1:
            return g[1] if g[0] == "func" else None
        if g[0] != "class":
            return None
        return g[1].funcs.get(parts[1])
