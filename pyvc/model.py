"""What the verifier knows about classes, state and the outside world."""
import ast
import os

from . import lib
from .interp import ExcClass, Unsupported, builtin_exc
from .repo import Class, Repo
from .ty import *  # noqa


class Model:
    def __init__(self, repo):
        self.repo = repo
        self.fields, self.ghosts = {}, {"clock": TReal}
        self.scratch = set()  # ghosts of one function only: any call may change them
        self.stubs, self.ext, self.extclasses = {}, dict(lib.EXT), set()
        self.builtins = dict(lib.BUILTINS)
        self.ctors, self.methods, self.props = {}, {}, {}
        self.opaque_attrs = {"log", "logger"}
        self.lazy, self.on_write = {}, {}
        self.field_defaults = {}
        self.known_missing, self.empty_types = set(), {}
        self.local_types = {}
        # variables first assigned in a loop and read behind it: (function, name) -> type
        self.late = {}
        # functions whose list comprehensions are executed as loops
        self.unroll = set()
        # functions whose asyncio.gather is executed one coroutine after the other
        self.in_turn = set()
        # name of an opaque type -> f(it, value): the term for a value built by the program
        self.encoders = {}
        self.isinstance_hook = None
        self.on_print = None
        self.opq_methods, self.str_methods = {}, {}
        self.extbases = {}
        self._classes = None
        self._mro = {}
        self._enums = {}
        self.assumptions = []
        self.repo_exc = _RepoExc(self)

    # ----------------------------------------------------------- classes
    def classes(self):
        if self._classes is None:
            self._classes = {}
            for dp, dn, fn in os.walk(self.repo.root):
                dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
                for f in sorted(fn):
                    if not f.endswith(".py") or f == "conftest.py":
                        continue
                    rel = os.path.relpath(os.path.join(dp, f), self.repo.root)[:-3].replace(os.sep, ".")
                    if rel.endswith("__init__"):
                        rel = rel[:-9]
                    m = self.repo.module("backy" + ("." + rel if rel else ""))
                    if m is None:
                        continue
                    for n, g in m.globals.items():
                        if g[0] == "class":
                            self._classes.setdefault(n, g[1])
        return self._classes

    def repo_class(self, name):
        return self.classes().get(name)

    def bases(self, c):
        out = []
        for b in c.node.bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if isinstance(b, ast.Subscript):
                continue
            if n:
                out.append(n)
        return out

    def class_mro(self, c):
        return [self.repo_class(n) if n != c.name else c for n in self.mro(c.name) if n == c.name or self.repo_class(n)]

    def mro(self, name):
        if name in self._mro:
            return self._mro[name]
        c = self.repo_class(name)
        out = [name]
        if c is not None:
            for b in self.bases(c):
                if b == name:
                    continue
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        else:
            e = builtin_exc(name)
            if e is not None:
                out = list(e.mro)
            else:
                out += self.extbases.get(name, [])
        self._mro[name] = out
        return out

    def exc_of_class(self, c):
        m = self.mro(c.name)
        if "BaseException" in m:
            return ExcClass(c.name, m)
        return None

    def exc_class(self, name):
        return ExcClass(name, self.mro(name))

    def enum_of(self, c):
        if c.name not in self._enums:
            en = None
            if "Enum" in self.bases(c):
                ms = [(n, v.value) for n, v in c.attrs.items() if isinstance(v, ast.Constant)]
                en = TEnum(c.name, ms)
            self._enums[c.name] = en
        return self._enums[c.name]

    def enum(self, name):
        c = self.repo_class(name)
        return self.enum_of(c) if c else None

    def enum_term(self, cls, member):
        en = self.enum(cls)
        for i, (n, _) in enumerate(en.members):
            if n == member:
                return z3.IntVal(i)
        raise Unsupported(f"enum {cls}.{member}")

    def unknown_attr(self, it, o, name):
        raise Unsupported(f"attribute {o.cls}.{name} is not modelled")


class _RepoExc:
    def __init__(self, model):
        self.m = model

    def get(self, name):
        c = self.m.repo_class(name)
        if c is not None and "BaseException" in self.m.mro(name):
            return c
        return None
