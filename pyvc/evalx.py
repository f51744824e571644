"""Expressions and statements."""
import ast
import builtins as _b
import z3

from .interp import *  # noqa
from .interp import EmptyTy, z3str
from .repo import Class, Func
from .ty import *  # noqa
from .quant import FORALL


def posl(node):
    return f"{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"


CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}


class Evaluator(Interp):
    # ------------------------------------------------------------- names
    def new_frame(self, func, parent=None, mod=None):
        fid = self.count("fr:" + self.label() + ":" + (func.qual if func else "mod"))
        self.st.frames[fid] = {}
        return Frame(fid, func, parent, mod)

    def getvar(self, fr, name):
        f = fr
        while f:
            d = self.st.frames.get(f.fid)
            if d is not None and name in d:
                v = d[name]
                if v is MISSING:
                    raise self.exc("UnboundLocalError", name)
                return v
            f = f.parent
        return self.global_name(fr.mod, name)

    def setvar(self, fr, name, v):
        f = fr
        nl = self.nonlocals.get(id(fr.func.node), ()) if fr.func else ()
        if name in nl:
            f = fr.parent
            while f and name not in self.st.frames[f.fid]:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
        self.record(("var", f.fid, name))
        if isinstance(v, Box) and f.func is not None:
            lt = self.model.local_types.get((f.func.qual, name))
            if lt is not None:
                c = self.st.boxes[v.id]
                if not isinstance(c, (LocField, LocElem, SV)) and not c.v:
                    self.set_content(v, SV(lt, self.empty_term(lt), getattr(c, "default", None)))
        self.st.frames[f.fid][name] = v

    def empty_term(self, ty):
        if isinstance(ty, TList):
            return ty.mk(z3.IntVal(0), self.default_arr(z3.IntSort(), ty.el))
        if isinstance(ty, TSet):
            return ty.empty()
        if isinstance(ty, TDict):
            return ty.mk(z3.K(ty.k.sort(), z3.BoolVal(False)), self.default_arr(ty.k.sort(), ty.v))
        if isinstance(ty, TRec):
            return self.encode_content(HD({}), ty)
        raise Unsupported("empty " + ty.name)

    nonlocals = {}

    def global_name(self, mod, name):
        stub = self.model.stubs.get(f"{mod.short}:{name}")
        if stub is not None:
            return Builtin(f"{mod.short}:{name}", stub)
        g = mod.globals.get(name)
        if g is None:
            return self.builtin_name(name)
        return self.global_value(mod, name, g)

    def global_value(self, mod, name, g):
        kind = g[0]
        if kind == "func":
            return self.func_value(g[1], None)
        if kind == "class":
            return self.class_value(g[1])
        if kind == "module":
            return self.module_value(g[1])
        if kind == "import":
            return self.import_value(g[1], g[2])
        key = (mod.name, name)
        if key not in self.modval_cache:
            fr = self.new_frame(None, None, mod)
            self.modval_cache[key] = self.eval(g[1], fr)
        return self.modval_cache[key]

    def class_value(self, c):
        ex = self.model.exc_of_class(c)
        if ex is not None:
            return ex
        return ClassVal(c)

    def module_value(self, name):
        m = self.repo.module(name)
        if m is not None:
            return RepoModule(m)
        return ExtModule(name)

    def import_value(self, modname, attr):
        m = self.repo.module(modname) if modname else None
        if m is not None:
            sub = self.repo.module(modname + "." + attr)
            if attr in m.globals or (m.short + ":" + attr) in self.model.stubs:
                return self.global_name(m, attr)
            if sub is not None:
                return RepoModule(sub)
            raise Unsupported(f"import {modname}.{attr}")
        return self.ext_attr(modname or "", attr)

    def ext_attr(self, modname, attr):
        full = f"{modname}.{attr}" if modname else attr
        e = builtin_exc(full) or builtin_exc(attr)
        if e is not None and full not in self.model.ext:
            return e
        if full in self.model.ext:
            v = self.model.ext[full]
            if callable(v) and not isinstance(v, (ExtClass, ExcClass)):
                return Builtin(full, v)
            return v
        if full in self.model.extclasses or attr in self.model.extclasses:
            return ExtClass(attr)
        return ExtModule(full)

    def builtin_name(self, name):
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if name in self.model.builtins:
            v = self.model.builtins[name]
            if isinstance(v, (ExtClass,)):
                return v
            return Builtin(name, v)
        e = builtin_exc(name)
        if e is not None:
            return e
        if name == "__name__":
            return "backy"
        raise Unsupported(f"name {name}")

    # ---------------------------------------------------------- functions
    def func_value(self, f, frame):
        """apply the decorators of a function or method"""
        if f.node and f.qual in self.model.stubs:
            return Builtin(f.qual, self.model.stubs[f.qual])
        key = ("fv", f.qual)
        v = FuncVal(f, frame)
        wrappers = []
        for d in reversed(getattr(f.node, "decorator_list", [])):
            v = self.apply_decorator(d, v, f, frame)
        c = self.contracts.get(f.qual)
        if c is not None and frame is None and c.usable(self):
            if isinstance(v, PropertyVal):
                v = PropertyVal(ContractFn(c, v.fn), v.cached)
            elif isinstance(v, StaticVal):
                v = StaticVal(ContractFn(c, v.fn))
            elif isinstance(v, ClassMethodVal):
                v = ClassMethodVal(ContractFn(c, v.fn))
            else:
                v = ContractFn(c, v)
        return v

    def apply_decorator(self, d, v, f, frame):
        name = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if name == "property":
            return PropertyVal(v)
        if name == "cached_property":
            return PropertyVal(v, True)
        if name == "staticmethod":
            return StaticVal(v)
        if name == "classmethod":
            return ClassMethodVal(v)
        if name in ("abstractmethod", "middleware", "overload", "dataclass"):
            return v
        if name == "contextmanager":
            return CMFunc(v)
        if name == "report_status":
            return ReportStatus(v)
        fr = frame or self.new_frame(None, None, f.mod)
        if f.cls is not None and isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in f.cls.funcs:
            # a decorator defined in the class itself
            g = self.func_value(f.cls.funcs[d.func.id], None)
            g = g.fn if isinstance(g, StaticVal) else g
            dv = self.call(g, [self.eval(x, fr) for x in d.args], {k.arg: self.eval(k.value, fr) for k in d.keywords})
            return self.call(dv, [v], {})
        dv = self.eval(d, fr)
        return self.call(dv, [v], {})

    def class_attr(self, cls, name, bind=None, clsval=None):
        """attribute of a repository class, following the bases"""
        for c in self.model.class_mro(cls):
            if name in c.funcs:
                fv = self.func_value(c.funcs[name], None)
                return self.bind(fv, bind, clsval or ClassVal(c))
            if name in c.attrs:
                stubname = f"{c.qual}.{name}"
                if stubname in self.model.stubs:
                    return self.bind(Builtin(stubname, self.model.stubs[stubname]), bind, clsval)
                en = self.model.enum_of(c)
                if en is not None:
                    for i, (n, _) in enumerate(en.members):
                        if n == name:
                            return Sym(en, z3.IntVal(i))
                key = (c.qual, name)
                if key not in self.modval_cache:
                    self.modval_cache[key] = self.eval(c.attrs[name], self.new_frame(None, None, c.mod))
                return self.modval_cache[key]
        for c in self.model.class_mro(cls):
            x = self.model.stubs.get(f"{c.qual}.{name}")
            if isinstance(x, Opaque):
                return x
        return MISSING

    def bind(self, fv, obj, clsval):
        if isinstance(fv, StaticVal):
            return fv.fn
        if isinstance(fv, ClassMethodVal):
            # contracts of class methods do not mention the class
            return fv.fn if isinstance(fv.fn, ContractFn) else Bound(fv.fn, clsval)
        if isinstance(fv, PropertyVal):
            if obj is None:
                return fv
            return self.call(fv.fn, [obj], {})
        if obj is None:
            return fv
        return Bound(fv, obj)

    def call(self, f, args, kwargs):
        if isinstance(f, Sym) and isinstance(f.ty, TOpt):
            f = self.force(f)
        if isinstance(f, ContractFn):
            return self.vc.call_contract(self, f, args, kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, NTClass):
            vals = list(args) + [None] * (len(f.fields) - len(args))
            if len(args) + len(kwargs) != len(f.fields) or any(k not in f.fields[len(args):] for k in kwargs):
                raise self.exc("TypeError", "fields")
            for k, x in kwargs.items():
                vals[f.fields.index(k)] = x
            return NTVal(f, vals)
        if isinstance(f, CMFunc):
            g = self.call(f.fn, args, kwargs)
            assert isinstance(g, GenVal)
            return CMVal(g.gen)
        if isinstance(f, ReportStatus):
            return self.call_report_status(f, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f.cls, args, kwargs)
        if isinstance(f, ExcClass):
            rc = self.model.repo_exc.get(f.name)
            e = ExcVal(f, args, dict(kwargs))
            if rc is not None and "__init__" in rc.funcs:
                ps = [a.arg for a in rc.funcs["__init__"].node.args.args][1:]
                for p, a in zip(ps, args):
                    e.attrs[p] = a
            return e
        if isinstance(f, ExtClass):
            ctor = self.model.ctors.get(f.name)
            if ctor is None:
                raise Unsupported(f"constructor {f.name}")
            return ctor(self, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if isinstance(f, Obj):
            m = self.getattr(f, "__call__")
            return self.call(m, args, kwargs)
        if isinstance(f, StaticVal):
            return self.call(f.fn, args, kwargs)
        if f is None:
            raise self.exc("TypeError", "not callable")
        if isinstance(f, ExtModule):
            raise Unsupported(f"call of {f.name}")
        raise Unsupported(f"call of {f!r}")

    def call_report_status(self, f, args, kwargs):
        """@report_status drives a generator: first value is the number of
        steps, values up to END are progress, the next one is the result.
        (The decorator itself is checked separately, on concrete generators.)"""
        g = self.call(f.fn, args, kwargs)
        assert isinstance(g, GenVal)
        fn = f.fn.fn if isinstance(f.fn, Bound) else f.fn
        end = self.global_name(fn.func.mod, "END")
        first, ended = True, False
        try:
            for v in g.gen:
                if first:
                    first = False
                    continue
                if ended:
                    return v
                if v is end:
                    ended = True
        finally:
            g.gen.close()
        raise self.exc("StopIteration")

    def call_func(self, fv, args, kwargs):
        f = fv.func
        if len(self.callstack) > self.max_depth:
            raise Unsupported("recursion too deep")
        if fv.frame is None and f.qual in self.model.stubs:
            return self.model.stubs[f.qual](self, args, kwargs)
        self.inlined.add(f.qual)
        # frames are labelled by the call position, for stable identities
        self.callstack.append(f"{f.name}@{getattr(self, 'pos', '')}")
        try:
            fr = self.new_frame(f, fv.frame)
            if f.cls is not None:
                fr.selfcls = f.cls
            elif fv.frame is not None:
                fr.selfcls = fv.frame.selfcls
            self.bind_args(f, fr, args, kwargs)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if f.is_gen:
                r = self.simple_gen(f, fr)
                if r is not None:
                    return r
                return GenVal(self.gen_body(f, fr, list(self.callstack)))
            if f.is_async:
                return CoroVal(lambda: self.run_body(f, fr))
            return self.run_body(f, fr)
        finally:
            self.callstack.pop()

    def simple_gen(self, f, fr):
        """for x in s: yield e, where s has any number of elements: the
        elements are evaluated when the generator is created (an assumption)"""
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
        if len(body) != 1 or not isinstance(body[0], ast.For) or body[0].orelse:
            return None
        inner, ifs = list(body[0].body), []
        while True:
            if inner and isinstance(inner[0], ast.Pass):
                inner = inner[1:]
            elif len(inner) == 1 and isinstance(inner[0], ast.If) and not inner[0].orelse:
                ifs.append(inner[0].test)
                inner = list(inner[0].body)
            elif len(inner) > 1 and isinstance(inner[0], ast.If) and not inner[0].orelse and len(inner[0].body) == 1 and isinstance(inner[0].body[0], ast.Continue):
                ifs.append(ast.copy_location(ast.UnaryOp(ast.Not(), inner[0].test), inner[0].test))
                inner = inner[1:]
            else:
                break
        if len(inner) != 1 or not isinstance(inner[0], ast.Expr) or not isinstance(inner[0].value, ast.Yield) or inner[0].value.value is None:
            return None
        v = self.eval(body[0].iter, fr)
        name = ast.copy_location(ast.Name("%gen", ast.Load()), body[0])
        self.setvar(fr, "%gen", v)
        if self.seq(v) is None:
            def run():
                for x in self.host_iter(v):
                    self.bind_target(body[0].target, x, fr)
                    if all(self.test(self.eval(c, fr)) for c in ifs):
                        yield self.eval(inner[0].value.value, fr)
            return GenVal(run())
        self.pos = posl(body[0])
        return self.comp(inner[0].value.value, [ast.comprehension(body[0].target, name, ifs, 0)], fr, "gen", posl(body[0]))

    def run_body(self, f, fr):
        try:
            for _ in self.block(f.node.body, fr):
                raise Unsupported("yield outside of a generator")
        except PyReturn as r:
            return r.value
        return None

    def gen_body(self, f, fr, stack):
        try:
            yield from self.block(f.node.body, fr)
        except PyReturn:
            return

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        d = self.st.frames[fr.fid]
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        for i, n in enumerate(names):
            if args:
                d[n] = args.pop(0)
                if n in kwargs:
                    raise self.exc("TypeError", "multiple values for " + n)
            elif n in kwargs:
                d[n] = kwargs.pop(n)
            else:
                j = i - (len(names) - len(a.defaults))
                if j < 0:
                    raise self.exc("TypeError", "missing argument " + n)
                d[n] = self.eval(a.defaults[j], self.defframe(f, fr))
        if args:
            if not a.vararg:
                raise self.exc("TypeError", "too many arguments")
        if a.vararg:
            d[a.vararg.arg] = tuple(args)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                d[x.arg] = kwargs.pop(x.arg)
            elif dv is not None:
                d[x.arg] = self.eval(dv, self.defframe(f, fr))
            else:
                raise self.exc("TypeError", "missing argument " + x.arg)
        if a.kwarg:
            d[a.kwarg.arg] = self.new_box(HD(kwargs))
        elif kwargs:
            raise self.exc("TypeError", "unexpected keyword argument " + ",".join(map(str, kwargs)))

    def defframe(self, f, fr):
        return fr.parent or self.new_frame(None, None, f.mod)

    def instantiate(self, cls, args, kwargs):
        name = cls.name
        st = self.model.ctors.get(name)
        if st is not None:
            return st(self, args, kwargs)
        en = self.model.enum_of(cls)
        if en is not None:
            return self.enum_lookup(en, args[0])
        o = self.alloc(name)
        for c in reversed(self.model.class_mro(cls)):
            for an, node in c.attrs.items():
                ft = self.model.fields.get((c.name, an))
                if ft is not None:
                    v = self.eval(node, self.new_frame(None, None, c.mod))
                    self.heap_set(c.name, an, o.ref, self.encode(v, ft))
        init = self.class_attr(cls, "__init__", o)
        if init is not MISSING:
            self.call(init, args, kwargs)
        elif any(isinstance(d, (ast.Name, ast.Call)) and "dataclass" in ast.dump(d) for d in cls.node.decorator_list):
            anns = []
            for c in reversed(self.model.class_mro(cls)):
                anns += c.annotations()
            args = list(args)
            for st_ in anns:
                n = st_.target.id
                if args:
                    self.setattr(o, n, args.pop(0))
                elif n in kwargs:
                    self.setattr(o, n, kwargs[n])
                elif st_.value is not None:
                    self.setattr(o, n, self.eval(st_.value, self.new_frame(None, None, cls.mod)))
                else:
                    raise self.exc("TypeError", "missing " + n)
        return o

    def enum_lookup(self, en, v):
        v = self.force(v)
        if isinstance(v, Sym) and v.ty == en:
            return v
        for i, (n, val) in enumerate(en.members):
            if self.branch(self.eq(v, val)):
                return Sym(en, z3.IntVal(i))
        raise self.exc("ValueError", v)

    # --------------------------------------------------------- attributes
    def getattr(self, v, name):
        if isinstance(v, Sym) and isinstance(v.ty, TOpt):
            v = self.force(v)
        if v is None:
            raise self.exc("AttributeError", f"'NoneType' object has no attribute '{name}'")
        if isinstance(v, Opaque):
            return Opaque(f"{v.name}.{name}")
        if isinstance(v, RepoModule):
            m = v.mod
            if name in m.globals or f"{m.short}:{name}" in self.model.stubs:
                return self.global_name(m, name)
            sub = self.repo.module(m.name + "." + name)
            if sub is not None:
                return RepoModule(sub)
            raise self.exc("AttributeError", name)
        if isinstance(v, ExtModule):
            return self.ext_attr(v.name, name)
        if isinstance(v, Obj):
            r = self.obj_attr(v, name)
            if r is MISSING:
                raise self.exc("AttributeError", f"{v.cls}.{name}")
            return r
        if isinstance(v, Super):
            mro = self.model.class_mro(v.cls)
            for c in mro[1:]:
                if name in c.funcs:
                    return self.bind(self.func_value(c.funcs[name], None), v.obj, None)
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: None)
            raise self.exc("AttributeError", name)
        if isinstance(v, ClassVal):
            if name in ("__name__",):
                return v.cls.name
            r = self.class_attr(v.cls, name, None, v)
            if r is MISSING:
                raise self.exc("AttributeError", name)
            return r
        if isinstance(v, ExtClass):
            full = f"{v.name}.{name}"
            if full in self.model.ext:
                x = self.model.ext[full]
                return Builtin(full, x) if callable(x) and not isinstance(x, ExtClass) else x
            raise Unsupported("attribute " + full)
        if isinstance(v, Sym) and isinstance(v.ty, TEnum):
            if name == "value":
                if z3.is_int_value(v.t):
                    return v.ty.members[v.t.as_long()][1]
                t = z3.StringVal(v.ty.members[-1][1])
                for i, (_, val) in reversed(list(enumerate(v.ty.members[:-1]))):
                    t = z3.If(v.t == i, z3.StringVal(val), t)
                return Sym(TStr, t)
            if name == "name":
                t = z3.StringVal(v.ty.members[-1][0])
                for i, (n, _) in reversed(list(enumerate(v.ty.members[:-1]))):
                    t = z3.If(v.t == i, z3.StringVal(n), t)
                return Sym(TStr, t)
            cl = self.model.repo_class(v.ty.cls)
            r = self.class_attr(cl, name, v)
            if r is not MISSING:
                return r
        if isinstance(v, ExcVal):
            if name in v.attrs:
                return v.attrs[name]
            if name == "args":
                return tuple(v.args)
            if name == "errno":
                v.attrs[name] = self.fresh_val("errno", TOpt(TInt)) if v.isa("OSError") else None
                return v.attrs[name]
            x = self.fresh_val("excattr_" + name, TInt) if name in ("returncode", "status", "status_code") else Opaque("exc." + name)
            v.attrs[name] = x
            return x
        if isinstance(v, ExcClass) and f"{v.name}.{name}" in self.model.ext:
            return self.model.ext[f"{v.name}.{name}"]
        if isinstance(v, FuncVal):
            if name == "__name__":
                return v.attrs.get("__name__", v.func.name)
            if name == "__qualname__":
                return v.func.qual.split(":")[1]
        if isinstance(v, (ReportStatus, CMFunc, ContractFn)) and name in ("__name__", "__qualname__"):
            return "wrapped"
        if isinstance(v, Builtin):
            full = f"{v.name}.{name}"
            if full in self.model.ext:
                x = self.model.ext[full]
                return Builtin(full, x) if callable(x) and not isinstance(x, ExtClass) else x
        if isinstance(v, NTVal):
            if name not in v.cls.fields:
                raise self.exc("AttributeError", name)
            return v.values[v.cls.fields.index(name)]
        if isinstance(v, GenVal) and name == "close":
            return Builtin("gen.close", lambda it, a, k: v.gen.close())
        return self.method(v, name)

    def method(self, v, name):
        """methods of built-in values"""
        from . import lib
        fn = lib.find_method(self, v, name)
        if fn is None:
            if isinstance(v, (str, int, float, bytes, tuple)) and not hasattr(v, name):
                raise self.exc("AttributeError", name)
            raise Unsupported(f"method {name} of {v!r}")
        return fn

    def obj_attr(self, o, name):
        ft = self.field_ty(o.cls, name)
        if ft is not None:
            cls, ty = ft
            if self.model.lazy.get((cls, name)):
                self.model.lazy[(cls, name)](self, o)
            t = z3.simplify(z3.Select(self.heap_arr(cls, name), o.ref))
            if isinstance(ty, (TList, TSet, TDict, TRec)):
                key = f"loc:{cls}.{name}:{o.ref.get_id()}"
                self.keep.append(o.ref)
                if key not in self.st.boxes:
                    self.st.boxes[key] = LocField(cls, name, o.ref, ty)
                if isinstance(ty, TList) and not self.pure:
                    self.assume(ty.len(t) >= 0)
                return Box(key)
            return self.decode(t, ty)
        hk = (o.ref.get_id(), name)
        if hk in self.st.hf:
            return self.st.hf[hk]
        m = self.model.methods.get((o.cls, name))
        for c in self.model.mro(o.cls):
            m = self.model.methods.get((c, name))
            if m is not None:
                return Bound(Builtin(f"{c}.{name}", m), o)
            p = self.model.props.get((c, name))
            if p is not None:
                return p(self, o)
        if name in self.model.opaque_attrs:
            return Opaque(name)
        cl = self.model.repo_class(o.cls)
        if cl is not None:
            r = self.class_attr(cl, name, o)
            if r is not MISSING:
                return r
            # attribute not in the model
            if name == "__class__":
                return ClassVal(cl)
            if self.model.unknown_attr(self, o, name):
                return self.obj_attr(o, name)
        return MISSING

    def setattr(self, v, name, val):
        v = self.force(v) if isinstance(v, Sym) else v
        if isinstance(v, Obj):
            ft = self.field_ty(v.cls, name)
            if ft is not None:
                cls, ty = ft
                w = self.model.on_write.get((cls, name))
                if w:
                    w(self, v, val)
                t = self.encode(val, ty)
                self.heap_set(cls, name, v.ref, t)
                if isinstance(val, Box) and not isinstance(self.st.boxes[val.id], (LocField, LocElem)) and isinstance(ty, (TList, TSet, TDict, TRec)):
                    # later mutations through the local name hit the field
                    self.record(("box", val.id))
                    self.st.boxes[val.id] = LocField(cls, name, v.ref, ty)
                return
            self.record(("hf", v.ref.get_id(), name))
            self.keep.append(v.ref)
            self.st.hf[(v.ref.get_id(), name)] = val
            return
        if isinstance(v, FuncVal):
            v.attrs[name] = val
            return
        if isinstance(v, (Opaque, ReportStatus, CMFunc, ContractFn)):
            return
        if isinstance(v, ExcVal):
            v.attrs[name] = val
            return
        raise Unsupported(f"assignment to {v!r}.{name}")

    # -------------------------------------------------------- expressions
    def eval(self, node, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__} at {posl(node)}")
        return m(node, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.getvar(fr, n.id)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.setvar(fr, n.target.id, v)
        return v

    def e_Attribute(self, n, fr):
        v = self.eval(n.value, fr)
        self.pos = posl(n)
        return self.getattr(v, n.attr)

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.host_list(self.eval(e.value, fr))
            else:
                out.append(self.eval(e, fr))
        return tuple(out)

    def e_List(self, n, fr):
        r = self.e_Tuple(n, fr)
        self.pos = posl(n)
        return self.new_box(HL(r))

    def e_Set(self, n, fr):
        r = self.e_Tuple(n, fr)
        self.pos = posl(n)
        b = self.new_box(HS([]))
        for x in r:
            self.set_add(b, x)
        return b

    def e_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpacking")
            items.append((self.eval(k, fr), self.eval(v, fr)))
        self.pos = posl(n)
        return self.make_dict(items)

    def make_dict(self, items):
        if all(isinstance(k, (str, int, bool)) for k, _ in items):
            return self.new_box(HD({k: v for k, v in items}))
        b = self.new_box(HD({}))
        for k, v in items:
            self.setitem(b, k, v)
        return b

    def e_JoinedStr(self, n, fr):
        r = ""
        for p in n.values:
            if isinstance(p, ast.Constant):
                x = p.value
            else:
                x = self.to_str(self.eval(p.value, fr), p.format_spec, fr, p.conversion)
            r = self.add(r, x)
        return r

    def to_str(self, v, spec=None, fr=None, conv=-1):
        if spec is not None:
            s = self.eval(spec, fr)
            if isinstance(v, (int, float, str)) and isinstance(s, str):
                return format(v, s)
            return Sym(TStr, self.fresh("fmt", z3.StringSort()))
        if conv != -1:
            return Sym(TStr, self.fresh("repr", z3.StringSort()))
        if isinstance(v, Sym) and isinstance(v.ty, TOpt):
            v = self.force(v)
        if isinstance(v, str):
            return v
        if isinstance(v, (int, float, bool)) or v is None:
            return str(v)
        if isinstance(v, Sym):
            if v.ty == TStr:
                return v
            if v.ty == TInt:
                return Sym(TStr, z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))))
            f = self.const_fn("str_of_" + v.ty.name, [v.ty.sort()], z3.StringSort())
            return Sym(TStr, f(v.t))
        if isinstance(v, Obj):
            m = self.model.methods.get((v.cls, "__str__"))
            if m is not None:
                return m(self, [v], {})
        return Sym(TStr, self.fresh("str", z3.StringSort()))

    def const_fn(self, name, dom, ran):
        return z3.Function(name, *dom, ran)

    def e_BoolOp(self, n, fr):
        last = None
        for i, e in enumerate(n.values):
            last = self.eval(e, fr)
            if i == len(n.values) - 1:
                return last
            t = self.test(last)
            if isinstance(n.op, ast.And) and not t:
                if isinstance(last, Sym) and last.ty == TBool:
                    return False
                if isinstance(last, Sym) and isinstance(last.ty, TOpt):
                    return last if not self.branch(last.ty.is_none(last.t)) else None
                return last
            if isinstance(n.op, ast.Or) and t:
                if isinstance(last, Sym) and last.ty == TBool:
                    return True
                if isinstance(last, Sym) and isinstance(last.ty, TOpt):
                    return self.force(last)
                return last
        return last

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.decode(z3.Not(t), TBool)
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            ty, t = self.num(v)
            return self.decode(-t, ty)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_IfExp(self, n, fr):
        if self.test(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_Lambda(self, n, fr):
        return FuncVal(Func(fr.mod, n, None), fr)

    def e_Await(self, n, fr):
        v = self.eval(n.value, fr)
        return self.await_(v)

    def await_(self, v):
        if isinstance(v, CoroVal):
            return v.thunk()
        return v

    def e_Starred(self, n, fr):
        raise Unsupported("starred")

    def e_Call(self, n, fr):
        # super().__init__(...)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            names = fr.func.node.args.args
            return Super(self.getvar(fr, names[0].arg), fr.selfcls)
        f = self.eval(n.func, fr)
        if isinstance(f, Opaque):
            # logging and other calls without modelled effect; arguments are
            # evaluated as far as they can be
            for a in list(n.args) + [k.value for k in n.keywords]:
                try:
                    self.eval(a.value if isinstance(a, ast.Starred) else a, fr)
                except Unsupported:
                    pass
            return Opaque(f.name + "()")
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                m = self.star_map(a.value, fr) if getattr(f, "name", None) == "asyncio.gather" else None
                args += self.host_list(self.eval(a.value, fr)) if m is None else [m]
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                c = self.content(d) if isinstance(d, Box) else None
                if isinstance(c, HD):
                    kwargs.update(c.v)
                else:
                    raise Unsupported("**kwargs")
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.pos = posl(n)
        return self.call(f, args, kwargs)

    def star_map(self, n, fr):
        """*[f(x) for x in xs] with an unknown number of elements"""
        if not isinstance(n, ast.ListComp) or len(n.generators) != 1 or n.generators[0].ifs:
            return None
        g = n.generators[0]
        if not isinstance(g.iter, ast.Name):
            return None
        s = self.seq(self.eval(g.iter, fr))
        if s is None:
            return None

        def get(i):
            sub = self.new_frame(fr.func, fr)
            sub.mod, sub.selfcls = fr.mod, fr.selfcls
            self.bind_target(g.target, s.get(i), sub)
            return self.eval(n.elt, sub)

        return SeqV(s.n, get, "star")

    def host_list(self, v):
        """elements of an iterable of known length"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, HL):
                return list(c.v)
            if isinstance(c, (HD, HS)):
                return list(c.v)
        if isinstance(v, GenVal):
            return list(v.gen)
        raise Unsupported(f"iterable of unknown length {v!r}")

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, fr)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return self.mkbool(r)
            if not self.branch(r):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        return self.order(CMP[type(op)], a, b)

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, Sym) and isinstance(x.ty, TOpt):
                return x.ty.is_none(x.t)
            return False
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.name == b.name
        if isinstance(a, (Opaque, Obj)) or isinstance(b, (Opaque, Obj)) or isinstance(a, (bool, Sym)):
            return self.eq(a, b)
        return self.eq(a, b)

    def order(self, op, a, b):
        a, b = self.force(a), self.force(b)
        host = (int, float, str, bool)
        if isinstance(a, host) and isinstance(b, host) and isinstance(a, str) == isinstance(b, str):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if not a or not b:
                raise Unsupported("tuple order")
            strict = {"lt": "lt", "le": "lt", "gt": "gt", "ge": "gt"}[op]
            if len(a) == 1 and len(b) == 1:
                return self.order(op, a[0], b[0])
            first = self.order(strict, a[0], b[0])
            rest = self.order(op, a[1:], b[1:])
            return self.disj([first, self.conj([self.eq(a[0], b[0]), rest])])
        ta, tb = self.ty_of(a), self.ty_of(b)
        if isinstance(a, Box) and isinstance(b, Box) and isinstance(ta, TSet):
            x, y = self.encode(a, ta), self.encode(b, ta)
            if op == "le":
                return z3.IsSubset(x, y)
            if op == "ge":
                return z3.IsSubset(y, x)
            raise Unsupported("set order")
        if ta == TStr and tb == TStr:
            x, y = self.encode(a, TStr), self.encode(b, TStr)
            return {"lt": x < y, "le": x <= y, "gt": y < x, "ge": y <= x}[op]
        if ta.name in ("Int", "Real", "Bool") and tb.name in ("Int", "Real", "Bool"):
            j = self.join_ty(ta, tb)
            if j == TBool:
                j = TInt
            x, y = self.encode(a, j), self.encode(b, j)
        elif ta == tb and ta in (TDate, TDelta):
            x, y = a.t, b.t
        elif a is None or b is None:
            raise self.exc("TypeError", "unorderable")
        else:
            raise self.exc("TypeError", f"'<' not supported between {ta} and {tb}")
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]

    def contains(self, c, x):
        if isinstance(c, Sym) and isinstance(c.ty, TOpt):
            c = self.force(c)
        if c is None:
            raise self.exc("TypeError", "argument of type 'NoneType' is not iterable")
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (str, Sym)) and self.ty_of(c) == TStr:
            if self.ty_of(x) != TStr:
                raise Unsupported("in str")
            return z3.Contains(self.encode(c, TStr), self.encode(x, TStr))
        if isinstance(c, tuple):
            return self.disj([self.eq(x, y) for y in c])
        if isinstance(c, SeqV):
            k = self.fresh("ck", z3.IntSort())
            outs = self.sub_explore(lambda: self.mkbool(self.eq(c.get(k), x)))
            t = self.bool_of_outs(outs)
            return z3.Exists([k], z3.And(0 <= k, k < c.n, t))
        if isinstance(c, Box):
            cc = self.content(c)
            if isinstance(cc, HD):
                return self.disj([self.eq(x, y) for y in cc.v])
            if isinstance(cc, (HL, HS)):
                return self.disj([self.eq(x, y) for y in cc.v])
            ty = cc.ty
            if isinstance(ty, TSet):
                if not self.key_ok(x, ty.el):
                    return False
                return z3.Select(cc.t, self.encode(x, ty.el))
            if isinstance(ty, TDict):
                if not self.key_ok(x, ty.k):
                    return False
                return z3.Select(ty.dom(cc.t), self.encode(x, ty.k))
            if isinstance(ty, TRec):
                if isinstance(x, str):
                    return ty.has(cc.t, x) if x in ty.fields else False
                raise Unsupported("symbolic key")
            if isinstance(ty, TList):
                if not self.key_ok(x, ty.el):
                    return False
                k = z3.Int("ck")
                return z3.Exists([k], z3.And(0 <= k, k < ty.len(cc.t), z3.Select(ty.arr(cc.t), k) == self.encode(x, ty.el)))
        if isinstance(c, Obj):
            m = self.getattr(c, "__contains__")
            return self.truth(self.call(m, [x], {}))
        if isinstance(c, Opaque):
            return self.fresh("in", z3.BoolSort())
        raise Unsupported(f"in {c!r}")

    def key_ok(self, x, ty):
        try:
            t = self.ty_of(x)
            if t == ty or isinstance(ty, TOpt) or isinstance(t, TOpt):
                return True
            if isinstance(t, TObj) and isinstance(ty, TObj):
                return True
            if {t.name, ty.name} <= {"Int", "Real", "Bool"}:
                return True
            if isinstance(t, TTup) and isinstance(ty, TTup):
                return len(t.items) == len(ty.items)
            return False
        except Unsupported:
            return False

    def bool_of_outs(self, outs):
        cs = []
        for c, k, v, _ in outs:
            if k == "exc":
                raise Unsupported("exception in a predicate over all elements")
            t = self.truth(v)
            if t is True:
                cs.append(c)
            elif t is not False:
                cs.append(z3.And(c, t))
        return z3.simplify(z3.Or(cs)) if cs else z3.BoolVal(False)

    # arithmetic ------------------------------------------------------------
    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        self.pos = posl(n)
        return self.binop(type(n.op), a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        host = (int, float, str, bytes, bool, tuple)
        if isinstance(a, host) and isinstance(b, host) and not isinstance(a, tuple) and not isinstance(b, tuple):
            try:
                r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                     ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                     ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b, ast.LShift: lambda: a << b}[op]()
                if not (isinstance(r, bytes) and len(r) > 64):
                    return r
            except KeyError:
                raise Unsupported("operator")
            except (TypeError, ZeroDivisionError, ValueError) as e:
                raise self.exc(type(e).__name__, str(e))
        if op is ast.Add:
            return self.add(a, b)
        if isinstance(a, Box) or isinstance(b, Box) or isinstance(a, SeqV) or isinstance(b, SeqV):
            return self.box_binop(op, a, b)
        if a is None or b is None:
            raise self.exc("TypeError", "unsupported operand type")
        if isinstance(a, Obj):
            m = self.model.methods.get((a.cls, {ast.Div: "__truediv__"}.get(op, "?")))
            if m:
                return m(self, [a, b], {})
        if isinstance(a, Sym) and isinstance(a.ty, TOpq):
            m = self.model.opq_methods.get((a.ty.name, {ast.Div: "__truediv__"}.get(op, "?")))
            if m:
                return m(self, a, [b], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        ta, x = self.num(a)
        tb, y = self.num(b)
        if op is ast.Mult and isinstance(a, (bytes,)) or op is ast.Mult and isinstance(b, bytes):
            bs, cnt = (a, y) if isinstance(a, bytes) else (b, x)
            if len(bs) == 1:
                n = z3.If(cnt > 0, cnt, z3.IntVal(0))
                if bs == b"\0":
                    arr = z3.K(z3.IntSort(), z3.IntVal(0))
                else:
                    i = z3.Int("mi")
                    arr = z3.Lambda([i], z3.If(z3.And(0 <= i, i < n), z3.IntVal(bs[0]), z3.IntVal(0)))
                return self.decode(TBytes.sort().mkbytes(n, arr), TBytes)
            raise Unsupported("bytes repetition")
        if ta is None or tb is None:
            if ta is None and isinstance(a, str) or tb is None and isinstance(b, str):
                if op is ast.Mod:
                    return Sym(TStr, self.fresh("fmt", z3.StringSort()))
                raise self.exc("TypeError", "operand")
            raise Unsupported(f"operator on {a!r} and {b!r}")
        N = ("Int", "Real", "Bool")
        if ta.name in N and tb.name in N:
            if op is ast.Div:
                self.raise_if(y == 0, "ZeroDivisionError")
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
                return self.decode(self.real_div(x, y), TReal)
            if op in (ast.FloorDiv, ast.Mod):
                self.raise_if(y == 0, "ZeroDivisionError")
                if ta == TInt and tb == TInt:
                    if z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() > 0:
                        q = x / y
                    else:
                        q = z3.If(y > 0, x / y, -(x / -y) if False else z3.If(x % y == 0, x / y, x / y - 1))
                        if not self.branch(y > 0):
                            raise Unsupported("division by a negative number")
                        q = x / y
                    return self.decode(q if op is ast.FloorDiv else x - y * q, TInt)
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
                q = z3.ToReal(self.floor(self.real_div(x, y)))
                return self.decode(q if op is ast.FloorDiv else x - y * q, TReal)
            if ta != tb:
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
                ty = TReal
            else:
                ty = ta
            if op is ast.Sub:
                return self.decode(x - y, ty)
            if op is ast.Mult:
                return self.decode(x * y, ty)
            if op is ast.Pow:
                if isinstance(a, int) and a == 2 and ty == TInt:
                    f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
                    self.pow2_axioms(f)
                    return self.decode(f(y), TInt)
                raise Unsupported("power")
            raise Unsupported("int operator")
        D = (TDate, TDelta)
        if op is ast.Sub and ta == TDate and tb == TDate:
            return self.decode(x - y, TDelta)
        if op is ast.Sub and ta == TDate and tb == TDelta:
            return self.decode(x - y, TDate)
        if op is ast.Sub and ta == TDelta and tb == TDelta:
            return self.decode(x - y, TDelta)
        if op is ast.Mult and ta == TDelta and tb.name in N:
            return self.decode(x * (z3.ToReal(y) if y.is_int() else y), TDelta)
        if op is ast.Mult and tb == TDelta and ta.name in N:
            return self.decode((z3.ToReal(x) if x.is_int() else x) * y, TDelta)
        if op is ast.Div and ta == TDelta and tb == TDelta:
            self.raise_if(y == 0, "ZeroDivisionError")
            return self.decode(self.real_div(x, y), TReal)
        if op is ast.Div and ta == TDelta and tb.name in N:
            self.raise_if(y == 0, "ZeroDivisionError")
            return self.decode(self.real_div(x, z3.ToReal(y) if y.is_int() else y), TDelta)
        if ta in D or tb in D:
            raise self.exc("TypeError", "unsupported operand type")
        raise Unsupported(f"operator on {ta} and {tb}")

    def pow2_axioms(self, f):
        if "pow2" in self.host_ids:
            return
        self.host_ids["pow2"] = True
        k = z3.Int("pk")
        for i in range(0, 12):
            self.assume(f(i) == 2 ** i)
        self.assume(FORALL([k], z3.Implies(k >= 0, z3.And(f(k + 1) == 2 * f(k), f(k) >= 1)), patterns=[f(k)]))
        self.assume(FORALL([k], z3.Implies(k >= 9, f(k) >= 512), patterns=[f(k)]))

    def real_div(self, x, y):
        ys = z3.simplify(y)
        if z3.is_rational_value(ys):
            return x / ys
        key = ("div", x.get_id(), ys.get_id())
        if key in self.const_cache:
            return self.const_cache[key][0]
        q = self.fresh("quot", z3.RealSort())
        self.assume(q * ys == x)
        self.const_cache[key] = (q, x, ys)
        return q

    def floor(self, x):
        xs = z3.simplify(x)
        return z3.ToInt(xs)

    def add(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Box) or isinstance(b, Box):
            return self.list_concat(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        if a is None or b is None:
            raise self.exc("TypeError", "unsupported operand type")
        ta, tb = self.ty_of(a), self.ty_of(b)
        if ta == TStr and tb == TStr:
            return self.decode(z3.Concat(self.encode(a, TStr), self.encode(b, TStr)), TStr)
        if ta == TBytes and tb == TBytes:
            return self.bytes_concat(a, b)
        N = ("Int", "Real", "Bool")
        if ta.name in N and tb.name in N:
            j = self.join_ty(ta, tb)
            j = TInt if j == TBool else j
            return self.decode(self.encode(a, j) + self.encode(b, j), j)
        if (ta, tb) in ((TDate, TDelta), (TDelta, TDate)):
            return self.decode(a.t + b.t, TDate)
        if ta == TDelta and tb == TDelta:
            return self.decode(a.t + b.t, TDelta)
        raise self.exc("TypeError", f"unsupported operand types {ta} {tb}")

    def bytes_concat(self, a, b):
        B = TBytes.sort()
        x, y = self.encode(a, TBytes), self.encode(b, TBytes)
        if isinstance(a, bytes) and not a:
            return b
        if isinstance(b, bytes) and not b:
            return a
        la = B.blen(x)
        return self.named_bytes("cat", la + B.blen(y), lambda i: z3.If(i < la, z3.Select(B.barr(x), i), z3.Select(B.barr(y), i - la)))

    def named_bytes(self, name, n, at, pats=lambda i: []):
        """a value of n bytes, byte i being at(i) within the length"""
        B = TBytes.sort()
        i = z3.Int("bi")
        n = z3.simplify(n)
        body = z3.simplify(z3.If(z3.And(0 <= i, i < n), at(i), z3.IntVal(0)))
        if self.pure:
            return self.decode(B.mkbytes(n, z3.Lambda([i], body)), TBytes)
        if z3.is_int_value(n) and n.as_long() == 0:
            return b""
        key = ("bytes", name, n.get_id(), body.get_id())
        if key not in self.const_cache:
            b = self.fresh(name, B)
            self.keep += [n, body]
            self.const_cache[key] = (b, body)
        b = self.const_cache[key][0]
        self.assume(z3.And(ISB(b), B.blen(b) == n, n >= 0))
        self.assume(FORALL([i], z3.Select(B.barr(b), i) == body, patterns=[z3.Select(B.barr(b), i)] + pats(i)))
        return Sym(TBytes, b)

    def bytes_slice(self, v, lo, hi):
        """lo, hi: z3 Ints already clamped to 0 <= lo <= hi <= len"""
        B = TBytes.sort()
        x = self.encode(v, TBytes)
        if z3.simplify(z3.And(lo == 0, hi == B.blen(x))) is True or z3.is_true(z3.simplify(z3.And(lo == 0, hi == B.blen(x)))):
            return v
        return self.named_bytes("slice", hi - lo, lambda i: z3.Select(B.barr(x), i + lo))

    # -------------------------------------------------------- subscripting
    def e_Subscript(self, n, fr):
        v = self.eval(n.value, fr)
        if isinstance(v, (ExtClass, ClassVal)):
            return v  # generic alias
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower, fr) if n.slice.lower else None
            hi = self.eval(n.slice.upper, fr) if n.slice.upper else None
            st = self.eval(n.slice.step, fr) if n.slice.step else None
            self.pos = posl(n)
            return self.getslice(v, lo, hi, st)
        k = self.eval(n.slice, fr)
        self.pos = posl(n)
        return self.getitem(v, k)

    def clamp(self, x, n, default):
        """Python slice bound as z3 Int in [0, n]"""
        if x is None:
            return default
        x = self.force(x)
        if x is None:
            return default
        t = self.encode(x, TInt)
        t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        return z3.simplify(t)

    def getslice(self, v, lo, hi, step):
        v = self.force(v)
        if isinstance(v, (str, bytes, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return v[lo:hi:step]
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, HL) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                return self.new_box(HL(c.v[lo:hi:step]))
            ty = self.content_ty(c)
            if isinstance(ty, EmptyTy):
                return self.new_box(HL([]))
            t = self.encode_content(c, ty)
            n = ty.len(t)
            if step == -1 and hi is None and (lo is None or lo == -1):
                k = z3.Int("sk")
                return self.new_box(SV(ty, ty.mk(n, z3.Lambda([k], z3.Select(ty.arr(t), n - 1 - k)))))
            if step is not None and step != 1:
                raise Unsupported("slice step")
            a = self.clamp(lo, n, z3.IntVal(0))
            b = self.clamp(hi, n, n)
            ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            if z3.is_int_value(a) and a.as_long() == 0:
                arr = ty.arr(t)
            elif self.pure or z3.is_quantifier(ty.arr(t)):
                k = z3.Int("sk")
                arr = z3.Lambda([k], z3.Select(ty.arr(t), k + a))
            else:
                k = z3.Int("sk")
                src = ty.arr(t)
                arr = self.fresh("slice", src.sort())
                self.assume(FORALL([k], z3.Select(arr, k) == z3.Select(src, k + a), patterns=[z3.Select(arr, k)]))
                self.assume(FORALL([k], z3.Select(arr, k - a) == z3.Select(src, k), patterns=[z3.Select(src, k)]))
            return self.new_box(SV(ty, ty.mk(ln, arr)))
        if step is not None:
            raise Unsupported("slice step")
        ty = self.ty_of(v)
        if ty == TBytes:
            B = TBytes.sort()
            x = self.encode(v, TBytes)
            n = B.blen(x)
            a, b = self.clamp(lo, n, z3.IntVal(0)), self.clamp(hi, n, n)
            b = z3.simplify(z3.If(b < a, a, b))
            return self.bytes_slice(v, a, b)
        if ty == TStr:
            x = self.encode(v, TStr)
            n = z3.Length(x)
            a, b = self.clamp(lo, n, z3.IntVal(0)), self.clamp(hi, n, n)
            return self.decode(z3.SubString(x, a, z3.If(b > a, b - a, z3.IntVal(0))), TStr)
        if isinstance(v, SeqV):
            return self.getslice(self.seq_to_list(v), lo, hi, step)
        raise Unsupported(f"slice of {v!r}")

    def getitem(self, v, k):
        v = self.force(v)
        if v is None:
            raise self.exc("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(k, Sym) and isinstance(k.ty, TOpt) and not (isinstance(v, Box)):
            k = self.force(k)
        if isinstance(v, (str, bytes, tuple)) and isinstance(k, int):
            try:
                return v[k]
            except IndexError:
                raise self.exc("IndexError", "index out of range")
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, HL):
                if isinstance(k, int):
                    try:
                        return c.v[k]
                    except IndexError:
                        raise self.exc("IndexError", "list index out of range")
                ty = self.content_ty(c)
                c = SV(ty, self.encode_content(c, ty))
            if isinstance(c, HD):
                for kk in c.v:
                    e = self.eq(k, kk)
                    if self.branch(e):
                        return c.v[kk]
                if c.default is not None:
                    dv = self.call(c.default, [], {})
                    self.setitem(v, k, dv)
                    return self.getitem(v, k)
                raise self.exc("KeyError", k)
            ty = c.ty
            if isinstance(ty, TList):
                i = self.encode(self.force(k), TInt)
                n = ty.len(c.t)
                i = z3.simplify(z3.If(i < 0, i + n, i)) if not (z3.is_int_value(i) and i.as_long() >= 0) else i
                self.raise_if(z3.Not(z3.And(0 <= i, i < n)), "IndexError", "list index out of range")
                return self.elem(v, i, ty.el, z3.Select(ty.arr(c.t), i))
            if isinstance(ty, TDict):
                if not self.key_ok(k, ty.k):
                    raise self.exc("KeyError", k)
                kt = self.encode(k, ty.k)
                present = z3.Select(ty.dom(c.t), kt)
                if self.pure and c.default is not None and not isinstance(ty.v, (TList, TSet, TDict, TRec)):
                    # (the entry made by reading is the default value)
                    d = self.encode(self.call(c.default, [], {}), ty.v)
                    return self.decode(z3.If(present, z3.Select(ty.val(c.t), kt), d), ty.v, assume=False)
                if not self.branch(present):
                    if c.default is not None:
                        dv = self.call(c.default, [], {})
                        self.setitem(v, k, dv)
                        return self.getitem(v, k)
                    raise self.exc("KeyError", k)
                return self.elem(v, kt, ty.v, z3.Select(ty.val(c.t), kt))
            if isinstance(ty, TRec):
                if not isinstance(k, str):
                    raise Unsupported("symbolic record key")
                if k not in ty.fields:
                    if k in self.model.known_missing:
                        raise self.exc("KeyError", k)
                    raise Unsupported(f"record key {k}")
                self.raise_if(z3.Not(ty.has(c.t, k)), "KeyError", k)
                return self.elem(v, k, ty.fields[k], ty.val(c.t, k))
        if isinstance(v, SeqV):
            i = self.encode(self.force(k), TInt)
            i = z3.simplify(z3.If(i < 0, i + v.n, i))
            self.raise_if(z3.Not(z3.And(0 <= i, i < v.n)), "IndexError")
            return v.get(i)
        if isinstance(v, Obj):
            m = self.getattr(v, "__getitem__")
            return self.call(m, [k], {})
        if isinstance(v, Opaque):
            return Opaque(v.name + "[]")
        if isinstance(v, Sym) and v.ty == TBytes:
            B = TBytes.sort()
            i = self.encode(k, TInt)
            n = B.blen(v.t)
            i = z3.simplify(z3.If(i < 0, i + n, i))
            self.raise_if(z3.Not(z3.And(0 <= i, i < n)), "IndexError")
            return self.decode(z3.Select(B.barr(v.t), i), TInt)
        if isinstance(v, Sym) and v.ty == TStr:
            i = self.encode(k, TInt)
            n = z3.Length(v.t)
            i = z3.simplify(z3.If(i < 0, i + n, i))
            self.raise_if(z3.Not(z3.And(0 <= i, i < n)), "IndexError")
            return self.decode(z3.SubString(v.t, i, 1), TStr)
        if isinstance(v, Sym) and (v.ty.name, "__getitem__") in self.model.opq_methods:
            return self.model.opq_methods[v.ty.name, "__getitem__"](self, v, [k], {})
        raise Unsupported(f"subscript of {v!r}")

    def elem(self, box, key, ty, term):
        if isinstance(ty, (TList, TSet, TDict, TRec)):
            kid = key if isinstance(key, str) else key.get_id()
            if not isinstance(key, str):
                self.keep.append(key)
            bid = f"elem:{box.id}:{kid}"
            self.st.boxes[bid] = LocElem(box, key, ty)
            return Box(bid)
        return self.decode(term, ty)

    def setitem(self, v, k, x):
        v = self.force(v)
        if isinstance(v, Obj):
            m = self.getattr(v, "__setitem__")
            self.call(m, [k, x], {})
            return
        if isinstance(v, Opaque):
            return
        if isinstance(v, Sym) and (v.ty.name, "__setitem__") in self.model.opq_methods:
            self.model.opq_methods[v.ty.name, "__setitem__"](self, v, [k, x], {})
            return
        if not isinstance(v, Box):
            raise Unsupported(f"item assignment to {v!r}")
        c = self.content(v)
        if isinstance(c, HL) and isinstance(k, int):
            l = list(c.v)
            try:
                l[k] = x
            except IndexError:
                raise self.exc("IndexError")
            self.set_content(v, HL(l))
            return
        if isinstance(c, HD):
            if isinstance(k, (str, int, bool)) and all(isinstance(y, (str, int, bool)) for y in c.v):
                d = dict(c.v)
                d[k] = x
                self.set_content(v, HD(d, c.default))
                return
            kt, vt = self.ty_of(k), self.ty_of(x)
            if c.v:
                t0 = self.content_ty(c)
                kt, vt = self.join_ty(kt, t0.k), self.join_ty(vt, t0.v)
            if isinstance(vt, EmptyTy):
                vt = self.model.empty_types.get(vt.name)
                if vt is None:
                    raise Unsupported("untyped empty container as value")
            ty = TDict(kt, vt)
            c = SV(ty, self.encode_content(HD(c.v), ty) if c.v else ty.mk(z3.K(kt.sort(), z3.BoolVal(False)), self.default_arr(kt.sort(), vt)), c.default)
        ty = c.ty
        if isinstance(ty, TDict):
            kt = self.encode(k, ty.k)
            xt = self.encode(x, ty.v)
            self.set_content(v, SV(ty, ty.mk(z3.Store(ty.dom(c.t), kt, True), z3.Store(ty.val(c.t), kt, xt)), c.default))
            return
        if isinstance(ty, TRec):
            if not isinstance(k, str):
                raise Unsupported("symbolic record key")
            if k not in ty.fields:
                self.notes.add(f"store to key {k!r} outside the model of {ty.name} ignored")
                return
            self.set_content(v, SV(ty, ty.set(c.t, k, z3.BoolVal(True), self.encode(x, ty.fields[k]))))
            return
        if isinstance(ty, TList):
            i = self.encode(self.force(k), TInt)
            n = ty.len(c.t)
            i = z3.simplify(z3.If(i < 0, i + n, i))
            self.raise_if(z3.Not(z3.And(0 <= i, i < n)), "IndexError")
            self.set_content(v, SV(ty, ty.mk(n, z3.Store(ty.arr(c.t), i, self.encode(x, ty.el)))))
            return
        raise Unsupported("item assignment")

    def delitem(self, v, k):
        v = self.force(v)
        if isinstance(v, Obj):
            m = self.getattr(v, "__delitem__")
            self.call(m, [k], {})
            return
        c = self.content(v)
        if isinstance(c, HD):
            for kk in c.v:
                if self.branch(self.eq(k, kk)):
                    d = dict(c.v)
                    del d[kk]
                    self.set_content(v, HD(d, c.default))
                    return
            raise self.exc("KeyError", k)
        if isinstance(c, HL) and isinstance(k, int):
            l = list(c.v)
            del l[k]
            self.set_content(v, HL(l))
            return
        ty = c.ty
        if isinstance(ty, TDict):
            kt = self.encode(k, ty.k)
            self.raise_if(z3.Not(z3.Select(ty.dom(c.t), kt)), "KeyError", k)
            self.set_content(v, SV(ty, ty.mk(z3.Store(ty.dom(c.t), kt, False), ty.val(c.t)), c.default))
            return
        if isinstance(ty, TRec) and isinstance(k, str) and k in ty.fields:
            self.raise_if(z3.Not(ty.has(c.t, k)), "KeyError", k)
            self.set_content(v, SV(ty, ty.set(c.t, k, z3.BoolVal(False), None)))
            return
        raise Unsupported("del item")

    # containers --------------------------------------------------------
    def list_concat(self, a, b):
        if isinstance(a, SeqV):
            a = self.seq_to_list(a)
        if isinstance(b, SeqV):
            b = self.seq_to_list(b)
        if not (isinstance(a, Box) and isinstance(b, Box)):
            raise self.exc("TypeError", "can only concatenate list")
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, HL) and isinstance(cb, HL):
            return self.new_box(HL(ca.v + cb.v))
        ty = self.join_ty(self.content_ty(ca), self.content_ty(cb))
        if not isinstance(ty, TList):
            raise Unsupported("concatenation")
        x, y = [self.encode_content(c, ty) if not (isinstance(c, HL) and not c.v) else ty.mk(z3.IntVal(0), self.default_arr(z3.IntSort(), ty.el)) for c in (ca, cb)]
        k = z3.Int("sk")
        la = ty.len(x)
        if isinstance(ca, SV) and isinstance(cb, SV) and not self.pure:
            arr = self.fresh("cat", z3.ArraySort(z3.IntSort(), ty.el.sort()))
            Se, ax, ay, lb = z3.Select, ty.arr(x), ty.arr(y), ty.len(y)
            self.assume(FORALL([k], z3.Implies(z3.And(0 <= k, k < la), Se(arr, k) == Se(ax, k)), patterns=[Se(arr, k)] + ([] if z3.is_quantifier(ax) else [Se(ax, k)])))
            self.assume(FORALL([k], z3.Implies(z3.And(la <= k, k < la + lb), Se(arr, k) == Se(ay, k - la)), patterns=[Se(arr, k)]))
            if not z3.is_quantifier(ay):
                self.assume(FORALL([k], z3.Implies(z3.And(0 <= k, k < lb), Se(arr, la + k) == Se(ay, k)), patterns=[Se(ay, k)]))
            return self.new_box(SV(ty, ty.mk(z3.simplify(la + lb), arr)))
        arr = z3.Lambda([k], z3.If(k < la, z3.Select(ty.arr(x), k), z3.Select(ty.arr(y), k - la)))
        return self.new_box(SV(ty, ty.mk(z3.simplify(la + ty.len(y)), arr)))

    def as_set(self, v):
        """(ty, term) of a set-like value or None"""
        if isinstance(v, SeqV):
            if v.kind == "keys":
                return TSet(v.ty), v.dom
            v = self.to_set(v)
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, SV) and isinstance(c.ty, TSet):
                return c.ty, c.t
            if isinstance(c, HS):
                ty = self.content_ty(c)
                if isinstance(ty, EmptyTy):
                    return ty, None
                return ty, self.encode_content(c, ty)
            if isinstance(c, HD):
                return self.as_set(self.new_box(HS(list(c.v))))
        return None

    def box_binop(self, op, a, b):
        if op is ast.BitOr and isinstance(a, Box) and isinstance(b, Box):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, HD) and isinstance(cb, HD):
                d = dict(ca.v)
                d.update(cb.v)
                return self.new_box(HD(d))
        sa, sb = self.as_set(a), self.as_set(b)
        if sa and sb and op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            ta, tb = sa[0], sb[0]
            if isinstance(ta, EmptyTy) and isinstance(tb, EmptyTy):
                return self.new_box(HS([]))
            ty = self.join_ty(ta, tb)
            x = sa[1] if sa[1] is not None else ty.empty()
            y = sb[1] if sb[1] is not None else ty.empty()
            if op is ast.BitOr:
                r = z3.SetUnion(x, y)
            elif op is ast.BitAnd:
                r = z3.SetIntersect(x, y)
            elif op is ast.Sub:
                r = z3.SetDifference(x, y)
            else:
                r = z3.SetDifference(z3.SetUnion(x, y), z3.SetIntersect(x, y))
            return self.new_box(SV(ty, r))
        if op is ast.Mult:
            x, n = (a, b) if isinstance(a, Box) else (b, a)
            c = self.content(x)
            if isinstance(c, HL) and isinstance(n, int):
                return self.new_box(HL(c.v * n))
        raise Unsupported(f"operator on containers")

    def set_add(self, box, x):
        c = self.content(box)
        if isinstance(c, HS):
            if isinstance(x, (str, int, bool, float)) and all(isinstance(y, (str, int, bool, float)) for y in c.v):
                if x not in c.v:
                    self.set_content(box, HS(c.v + [x]))
                return
            ty = TSet(self.ty_of(x))
            if c.v:
                ty = self.join_ty(ty, self.content_ty(c))
            c = SV(ty, self.encode_content(c, ty))
        ty = c.ty
        self.set_content(box, SV(ty, z3.Store(c.t, self.encode(x, ty.el), True)))

    # iteration ---------------------------------------------------------
    def seq(self, v):
        """SeqV of an iterable, or None if it has to be iterated otherwise"""
        v = self.force(v)
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, SV):
                if isinstance(c.ty, TList):
                    ty, t = c.ty, c.t
                    r = SeqV(ty.len(t), lambda k: self.decode(z3.Select(ty.arr(t), k), ty.el), "list", ty.el)
                    r.raw = lambda k: z3.Select(ty.arr(t), k)
                    return r
                if isinstance(c.ty, TSet):
                    return self.enum_set(c.ty.el, c.t)
                if isinstance(c.ty, TDict):
                    return self.enum_set(c.ty.k, c.ty.dom(c.t))
        if isinstance(v, Obj):
            m = self.model.methods.get((v.cls, "__iter__"))
            if m is not None:
                return self.seq(m(self, [v], {}))
            cl = self.model.repo_class(v.cls)
            if cl is not None and "__iter__" in cl.funcs:
                r = self.call(self.getattr(v, "__iter__"), [], {})
                return self.seq(r)
        return None

    def enum_set(self, el, dom):
        """an arbitrary enumeration without repetitions of a finite set"""
        key = ("enum", dom.get_id())
        if key not in self.enum_cache:
            n = self.fresh("setn", z3.IntSort())
            arr = self.fresh("setl", z3.ArraySort(z3.IntSort(), el.sort()))
            self.fresh_n += 1
            idx = z3.Function(f"setidx!{self.fresh_n}", el.sort(), z3.IntSort())
            k = z3.Int("sk")
            x = z3.Const("sx_" + el.name, el.sort())
            self.assume(n >= 0)
            self.assume(FORALL([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(dom, z3.Select(arr, k)), idx(z3.Select(arr, k)) == k)), patterns=[z3.Select(arr, k)]))
            self.assume(FORALL([x], z3.Implies(z3.Select(dom, x), z3.And(0 <= idx(x), idx(x) < n, z3.Select(arr, idx(x)) == x)), patterns=[idx(x), z3.Select(dom, x)] if z3.is_app(dom) and not z3.is_quantifier(dom) and dom.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_SELECT) else [idx(x)]))
            self.enum_cache[key] = (n, arr, idx, dom)
        n, arr, idx, _ = self.enum_cache[key]
        s = SeqV(n, lambda k: self.decode(z3.Select(arr, k), el), "keys", el)
        s.dom, s.idx, s.arr = dom, idx, arr
        return s

    def seq_to_list(self, s):
        k = self.fresh("lk", z3.IntSort())
        outs = self.sub_explore(lambda: s.get(k))
        v = self.merge_frozen(outs)
        ty = self.ty_of(v)
        t = self.encode(v, ty)
        lt = TList(ty)
        arr = self.lam(k, t)
        if z3.is_quantifier(arr) and not self.pure:
            arr = self.fresh("lst", z3.ArraySort(z3.IntSort(), ty.sort()))
            self.assume(FORALL([k], z3.Implies(z3.And(0 <= k, k < s.n), z3.Select(arr, k) == t), patterns=[z3.Select(arr, k)] + _selects_at(t, k)))
        return self.new_box(SV(lt, lt.mk(s.n, arr)))

    def lam(self, k, t):
        """Lambda k. t, eta-reduced where possible"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(k) and not _occurs(t.arg(0), k):
            return t.arg(0)
        return z3.Lambda([k], t)

    def merge_frozen(self, outs):
        vals = [(c, v) for c, kd, v, f in outs if kd == "val"]
        if any(kd == "exc" for _, kd, _, _ in outs):
            raise Unsupported("exception while mapping over all elements")
        first = vals[0][1]
        if all(self.host_same(first, v) for _, v in vals[1:]):
            return first
        ty = None
        for _, v in vals:
            t = self.ty_of(v)
            ty = t if ty is None else self.join_ty(ty, t)
        t = self.encode(vals[-1][1], ty)
        for c, v in reversed(vals[:-1]):
            t = z3.If(c, self.encode(v, ty), t)
        return Sym(ty, t) if not isinstance(ty, TObj) else Obj(ty.cls, t)

    def e_ListComp(self, n, fr):
        return self.comp(n.elt, n.generators, fr, "list", posl(n))

    def e_SetComp(self, n, fr):
        return self.comp(n.elt, n.generators, fr, "set", posl(n))

    def e_GeneratorExp(self, n, fr):
        # lazily: kept as a description, consumed by list/set/any/all/...
        return self.comp(n.elt, n.generators, fr, "gen", posl(n))

    def e_DictComp(self, n, fr):
        return self.comp((n.key, n.value), n.generators, fr, "dict", posl(n))

    def comp(self, elt, gens, fr, kind, pos):
        sub = self.new_frame(fr.func, fr)
        sub.mod = fr.mod
        sub.selfcls = fr.selfcls

        def ev():
            if kind == "dict":
                return (self.eval(elt[0], sub), self.eval(elt[1], sub))
            return self.eval(elt, sub)

        g = gens[0]
        it = self.eval(g.iter, fr)
        s = self.seq(it)
        if s is None or len(gens) > 1:
            out = []
            self.host_comp(gens, 0, sub, ev, out, it)
            self.pos = pos
            if kind == "dict":
                return self.make_dict(out)
            if kind == "set":
                b = self.new_box(HS([]))
                for x in out:
                    self.set_add(b, x)
                return b
            return self.new_box(HL(out)) if kind == "list" else tuple(out)
        # symbolic: element and condition for a generic index
        k = z3.Int(f"ci_{pos}")
        # the index variable must not occur in the path condition
        def cond():
            self.bind_target(g.target, s.get(k), sub)
            r = True
            for c in g.ifs:
                t = self.truth(self.eval(c, sub))
                if t is False:
                    return False
                if t is not True:
                    r = t if r is True else z3.And(r, t)
                    # later conditions and the element may rely on this one
                    self.solver.add(t)
            return r if isinstance(r, bool) else Sym(TBool, r)

        inr = z3.And(0 <= k, k < s.n)
        self.solver.push()
        self.solver.add(inr)
        try:
            couts = self.sub_explore(cond)
            ct = self.or_outs(couts)
            exc_c = [(c, v) for c, kd, v, _ in couts if kd == "exc"]

            def elt_():
                if not z3.is_true(ct):
                    self.assume(ct, "ctx")
                self.bind_target(g.target, s.get(k), sub)
                return ev()

            eouts = self.sub_explore(elt_)
            exc_e = [(z3.And(ct, c), v) for c, kd, v, _ in eouts if kd == "exc"]
        finally:
            self.solver.pop()
        for c, v in exc_c + exc_e:
            ex = z3.Exists([k], z3.And(inr, c))
            if self.branch(ex):
                raise PyRaise(v)
        eouts = [o for o in eouts if o[1] == "val"]
        self.pos = pos
        filtered = not z3.is_true(ct)
        if not eouts:
            # no element can satisfy the condition
            self.assume(FORALL([k], z3.Not(z3.And(inr, ct))))
            return {"list": lambda: self.new_box(HL([])), "set": lambda: self.new_box(HS([])), "gen": lambda: (), "dict": lambda: self.new_box(HD({}))}[kind]()
        if kind == "dict":
            return self.dict_comp(k, s, ct, eouts)
        elem = self.merge_frozen(eouts)
        ety = self.ty_of(elem)
        et = self.encode(elem, ety)
        if kind == "set":
            return self.comp_set(k, s, ct, ety, et)
        if not filtered:
            lt = TList(ety)
            if kind == "gen":
                r = SeqV(s.n, lambda j: self.decode(z3.substitute(et, (k, j)), ety), "gen", ety)
                r.comp = (k, s, ct, ety, et)
                return r
            return self.new_box(SV(lt, lt.mk(s.n, self.lam(k, et))))
        n, arr = self.filter_list(k, s, ct, ety, et)
        if kind == "gen":
            r = SeqV(n, lambda j: self.decode(z3.Select(arr, j), ety), "gen", ety)
            r.comp = (k, s, ct, ety, et)
            return r
        lt = TList(ety)
        return self.new_box(SV(lt, lt.mk(n, arr)))

    def or_outs(self, outs):
        cs = []
        for c, kd, v, _ in outs:
            if kd == "exc":
                continue
            t = self.truth(v)
            if t is True:
                cs.append(c)
            elif t is not False:
                cs.append(z3.And(c, t))
        return z3.simplify(z3.Or(cs)) if cs else z3.BoolVal(False)

    def filter_list(self, k, s, ct, ety, et):
        """[et(k) for k in range(s.n) if ct(k)] with the usual axioms"""
        j = z3.Int("fj")
        key = ("flt", z3.simplify(s.n).get_id(), self.lam(k, ct).get_id(), self.lam(k, et).get_id())
        if key in self.filter_cache:
            return self.filter_cache[key][:2]
        self.fresh_n += 1
        u = self.fresh_n
        n = z3.Int(f"fltn!{u}")
        arr = z3.Const(f"flt!{u}", z3.ArraySort(z3.IntSort(), ety.sort()))
        e = z3.Function(f"flte!{u}", z3.IntSort(), z3.IntSort())
        inv = z3.Function(f"flti!{u}", z3.IntSort(), z3.IntSort())
        N = s.n
        sub = lambda t, x: z3.substitute(t, (k, x))
        i = z3.Int("fi")
        self.assume(z3.And(n >= 0, n <= N))
        self.assume(FORALL([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= e(i), e(i) < N, sub(ct, e(i)), z3.Select(arr, i) == sub(et, e(i)), inv(e(i)) == i)), patterns=[z3.Select(arr, i), e(i)]))
        self.assume(FORALL([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), e(i) < e(j)), patterns=[z3.MultiPattern(e(i), e(j))]))
        pats = [inv(j)]
        etj = sub(et, j)
        if etj.decl().kind() == z3.Z3_OP_SELECT and not z3.is_quantifier(etj.arg(0)):
            pats.append(etj)
        else:
            pats += [sub(t, j) for t in _selects_at(ct, k)][:2]
        self.assume(FORALL([j], z3.Implies(z3.And(0 <= j, j < N, sub(ct, j)), z3.And(0 <= inv(j), inv(j) < n, e(inv(j)) == j)), patterns=pats))
        self.filter_cache[key] = (n, arr, e, inv, s, ct, et)
        return n, arr

    def comp_set(self, k, s, ct, ety, et):
        st = TSet(ety)
        # subset of a set: {x for x in S if P(x)}
        if getattr(s, "dom", None) is not None and et.decl().kind() == z3.Z3_OP_SELECT and et.arg(0).eq(s.arr) and et.arg(1).eq(k):
            x = z3.Const("cx_" + ety.name, ety.sort())
            c2 = z3.substitute(ct, (et, x))
            if not _occurs(c2, k):
                return self.new_box(SV(st, z3.Lambda([x], z3.And(z3.Select(s.dom, x), c2))))
        x = z3.Const("cx_" + ety.name, ety.sort())
        self.fresh_n += 1
        u = self.fresh_n
        S = z3.Const(f"cset!{u}", st.sort())
        w = z3.Function(f"csetw!{u}", ety.sort(), z3.IntSort())
        sub = lambda t, y: z3.substitute(t, (k, y))
        i = z3.Int("fi")
        eti = sub(et, i)
        pats = [eti] if eti.decl().kind() == z3.Z3_OP_SELECT and _occurs(eti, i) and not _has_ite(eti) else []
        body = z3.Implies(z3.And(0 <= i, i < s.n, sub(ct, i)), z3.Select(S, eti))
        base = getattr(s, "base_pats", None)
        self.assume(FORALL([i], body, patterns=pats) if pats else FORALL([i], body))
        self.assume(FORALL([x], z3.Implies(z3.Select(S, x), z3.And(0 <= w(x), w(x) < s.n, sub(ct, w(x)), sub(et, w(x)) == x)), patterns=[z3.Select(S, x)]))
        return self.new_box(SV(st, S))

    def dict_comp(self, k, s, ct, eouts):
        # {int(k): v for k, v in d.items()} and the like; later entries win
        v = [o[2] for o in eouts]
        if len(v) != 1:
            raise Unsupported("dict comprehension")
        kv, vv = v[0]
        kty, vty = self.ty_of(kv), self.ty_of(vv)
        kt, vt = self.encode(kv, kty), self.encode(vv, vty)
        self.fresh_n += 1
        u = self.fresh_n
        dt = TDict(kty, vty)
        D = z3.Const(f"cdict!{u}", dt.sort())
        w = z3.Function(f"cdictw!{u}", kty.sort(), z3.IntSort())
        sub = lambda t, y: z3.substitute(t, (k, y))
        i, j = z3.Ints("fi fj")
        x = z3.Const("cx_" + kty.name, kty.sort())
        self.assume(FORALL([i], z3.Implies(z3.And(0 <= i, i < s.n, sub(ct, i)), z3.And(z3.Select(dt.dom(D), sub(kt, i)), w(sub(kt, i)) >= i)), patterns=_selects_at(sub(kt, i), i) or None))
        self.assume(FORALL([x], z3.Implies(z3.Select(dt.dom(D), x), z3.And(0 <= w(x), w(x) < s.n, sub(ct, w(x)), sub(kt, w(x)) == x, z3.Select(dt.val(D), x) == sub(vt, w(x)))), patterns=[z3.Select(dt.dom(D), x), w(x)]))
        return self.new_box(SV(dt, D))

    def host_comp(self, gens, i, fr, ev, out, it=None):
        if i == len(gens):
            out.append(ev())
            return
        g = gens[i]
        if it is None:
            it = self.eval(g.iter, fr)
        for x in self.host_iter(it):
            self.bind_target(g.target, x, fr)
            if all(self.test(self.eval(c, fr)) for c in g.ifs):
                self.host_comp(gens, i + 1, fr, ev, out)

    def host_iter(self, v):
        if isinstance(v, GenVal):
            return v.gen
        return self.host_list(v)

    # targets ---------------------------------------------------------------
    def bind_target(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if isinstance(v, Box):
                c = self.content(v)
                if isinstance(c, SV) and isinstance(c.ty, TList):
                    n = c.ty.len(c.t)
                    self.raise_if(n != len(t.elts), "ValueError", "unpack")
                    v = tuple(self.decode(z3.Select(c.ty.arr(c.t), i), c.ty.el) for i in range(len(t.elts)))
                else:
                    v = tuple(self.host_list(v))
            elif isinstance(v, SeqV):
                self.raise_if(v.n != len(t.elts), "ValueError", "unpack")
                v = tuple(v.get(z3.IntVal(i)) for i in range(len(t.elts)))
            elif isinstance(v, GenVal):
                v = tuple(v.gen)
            if isinstance(v, Opaque):
                v = tuple(Opaque(v.name) for _ in t.elts)
            if not isinstance(v, tuple):
                raise Unsupported(f"unpacking of {v!r}")
            if len(v) != len(t.elts):
                raise self.exc("ValueError", "unpack")
            for e, x in zip(t.elts, v):
                self.bind_target(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.pos = posl(t)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            k = self.eval(t.slice, fr)
            self.pos = posl(t)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assignment target")

    # ---------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.vc.tick()
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(s).__name__} at {posl(s)}")
            self.pos = posl(s)
            r = m(s, fr)
            if r is not None:
                yield from r

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported("global")

    def s_Nonlocal(self, s, fr):
        raise Unsupported("nonlocal")

    def s_Import(self, s, fr):
        for a in s.names:
            self.setvar(fr, a.asname or a.name.split(".")[0], self.module_value(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        m = fr.mod._rel(s.level, s.module)
        for a in s.names:
            self.setvar(fr, a.asname or a.name, self.import_value(m, a.name))

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, fr)
        if isinstance(s.value, ast.YieldFrom):
            return self.do_yield_from(s.value, fr)
        self.eval(s.value, fr)

    def do_yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value else None
        yield v

    def do_yield_from(self, n, fr):
        v = self.eval(n.value, fr)
        if isinstance(v, GenVal):
            for x in v.gen:
                yield x
            return
        s = self.seq(v)
        if s is None:
            for x in self.host_list(v):
                yield x
            return
        raise Unsupported("yield from a symbolic sequence")

    def s_Assign(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self.assign_yield(s, fr)
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.bind_target(t, v, fr)

    def assign_yield(self, s, fr):
        yield self.eval(s.value.value, fr) if s.value.value else None
        for t in s.targets:
            self.bind_target(t, None, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind_target(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(fr, t.id)
            x = self.eval(s.value, fr)
            r = self.aug(type(s.op), cur, x)
            self.setvar(fr, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            x = self.eval(s.value, fr)
            r = self.aug(type(s.op), cur, x)
            if not (isinstance(r, Box) and isinstance(cur, Box) and r.id == cur.id):
                self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            x = self.eval(s.value, fr)
            r = self.aug(type(s.op), cur, x)
            if not (isinstance(r, Box) and isinstance(cur, Box) and r.id == cur.id):
                self.setitem(o, k, r)
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, x):
        cur = self.force(cur)
        if isinstance(cur, Box):
            c = self.content(cur)
            if op is ast.Add:
                from . import lib
                lib.list_extend(self, cur, x)
                return cur
            r = self.box_binop(op, cur, x)
            self.set_content(cur, self.content(r))
            return cur
        return self.binop(op, cur, x)

    def s_Return(self, s, fr):
        raise PyReturn(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise PyBreak()

    def s_Continue(self, s, fr):
        raise PyContinue()

    def s_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            raise self.exc("AssertionError")

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                raise self.exc("RuntimeError", "no active exception")
            raise PyRaise(self.exc_stack[-1])
        e = self.eval(s.exc, fr)
        if isinstance(e, ExcClass):
            e = self.call(e, [], {})
        if not isinstance(e, ExcVal):
            raise Unsupported("raise")
        raise PyRaise(e)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(fr, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported("del")

    def s_FunctionDef(self, s, fr):
        f = Func(fr.mod, s, None, fr.func)
        for n in ast.walk(s):
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.setdefault(id(s), set()).update(n.names)
        f.name = s.name
        v = FuncVal(f, fr)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, f, fr)
        self.setvar(fr, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, fr):
        c = Class(fr.mod, s)
        self.setvar(fr, s.name, Opaque("class " + s.name))

    def s_If(self, s, fr):
        if self.test(self.eval(s.test, fr)):
            yield from self.block(s.body, fr)
        else:
            yield from self.block(s.orelse, fr)

    def s_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.test(self.eval(c.guard, fr))):
                yield from self.block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.setvar(fr, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.is_(v, p.value))
        raise Unsupported("match pattern")

    # try -----------------------------------------------------------------
    def s_Try(self, s, fr):
        sig = None
        pid = self.path_id
        try:
            try:
                yield from self.block(s.body, fr)
            except PyRaise as e:
                handled = False
                for h in s.handlers:
                    if self.exc_match(h, e.exc, fr):
                        handled = True
                        if h.name:
                            self.setvar(fr, h.name, e.exc)
                        self.exc_stack.append(e.exc)
                        try:
                            yield from self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                        break
                if not handled:
                    raise
            else:
                yield from self.block(s.orelse, fr)
        except (PyRaise, PyReturn, PyBreak, PyContinue) as e:
            sig = e
        except GeneratorExit:
            if pid != self.path_id:
                raise
            for _ in self.block(s.finalbody, fr):
                raise Unsupported("yield in finally of a closed generator")
            raise
        if s.finalbody:
            yield from self.block(s.finalbody, fr)
        if sig is not None:
            raise sig

    def exc_match(self, h, exc, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, fr)
        ts = list(t) if isinstance(t, tuple) else [t]
        for x in ts:
            if isinstance(x, ExcClass) and exc.isa(x.name):
                return True
            if not isinstance(x, ExcClass):
                n = getattr(x, "name", None)
                if n in exc.cls.mro:
                    return True
                if n is None or n not in ("lzo.error", "json.decoder.JSONDecodeError"):
                    raise Unsupported(f"except {x!r}")
        return False

    # with ------------------------------------------------------------------
    def s_With(self, s, fr):
        yield from self.with_items(s, 0, fr, False)

    def s_AsyncWith(self, s, fr):
        yield from self.with_items(s, 0, fr, True)

    def with_items(self, s, i, fr, is_async):
        if i == len(s.items):
            yield from self.block(s.body, fr)
            return
        it = s.items[i]
        pid = self.path_id
        cm = self.force(self.eval(it.context_expr, fr))
        self.pos = posl(it.context_expr)
        stack = list(self.callstack)
        if isinstance(cm, CMVal):
            v = None
            try:
                v = next(cm.gen)
            except StopIteration:
                raise self.exc("RuntimeError", "generator didn't yield")
            exit_ = None
        elif isinstance(cm, Opaque):
            v, exit_ = Opaque(cm.name), Builtin("exit", lambda it, a, k: None)
        else:
            pre = "__a" if is_async else "__"
            exit_ = self.getattr(cm, pre + "exit__")
            v = self.await_(self.call(self.getattr(cm, pre + "enter__"), [], {}))
        sig = None
        try:
            if it.optional_vars is not None:
                self.bind_target(it.optional_vars, v, fr)
            yield from self.with_items(s, i + 1, fr, is_async)
        except (PyRaise, PyReturn, PyBreak, PyContinue) as e:
            sig = e
        except GeneratorExit:
            if pid != self.path_id:
                raise
            if isinstance(cm, CMVal):
                try:
                    next(cm.gen)
                except StopIteration:
                    pass
            else:
                self.await_(self.call(exit_, [None, None, None], {}))
            raise
        self.pos = posl(it.context_expr)
        if isinstance(cm, CMVal):
            try:
                if isinstance(sig, PyRaise):
                    cm.gen.throw(sig)
                else:
                    next(cm.gen)
                raise self.exc("RuntimeError", "generator didn't stop")
            except StopIteration:
                if isinstance(sig, PyRaise):
                    return  # suppressed
        else:
            if isinstance(sig, PyRaise):
                r = self.await_(self.call(exit_, [sig.exc.cls, sig.exc, Opaque("tb")], {}))
                if self.test(r):
                    return
            else:
                self.await_(self.call(exit_, [None, None, None], {}))
        if sig is not None:
            raise sig

    # loops -----------------------------------------------------------------
    def s_While(self, s, fr):
        # a loop whose condition and exit stay concrete is unrolled
        yield from self.cut_loop(s, fr, None)

    def s_For(self, s, fr):
        it = self.force(self.eval(s.iter, fr))
        if it is None:
            raise self.exc("TypeError", "'NoneType' object is not iterable")
        self.pos = posl(s)
        if isinstance(it, GenVal):
            yield from self.gen_loop(s, fr, it)
            return
        if isinstance(it, Opaque):
            raise Unsupported("iteration over an unknown value")
        if self.seq(it) is not None:
            yield from self.cut_loop(s, fr, it)
            return
        if isinstance(it, Box) and isinstance(self.content(it), HL):
            i = 0
            while True:
                c = self.content(it)
                if isinstance(c, SV):
                    raise Unsupported("list changes its representation during iteration")
                if i >= len(c.v):
                    break
                self.bind_target(s.target, c.v[i], fr)
                i += 1
                try:
                    yield from self.block(s.body, fr)
                except PyContinue:
                    continue
                except PyBreak:
                    return
            yield from self.block(s.orelse, fr)
            return
        for x in self.host_list(it):
            self.bind_target(s.target, x, fr)
            try:
                yield from self.block(s.body, fr)
            except PyContinue:
                continue
            except PyBreak:
                return
        yield from self.block(s.orelse, fr)

    s_AsyncFor = s_For

    def gen_loop(self, s, fr, it):
        try:
            for x in it.gen:
                self.bind_target(s.target, x, fr)
                try:
                    yield from self.block(s.body, fr)
                except PyContinue:
                    continue
                except PyBreak:
                    return
        finally:
            it.gen.close()
        yield from self.block(s.orelse, fr)

    def cut_loop(self, s, fr, it):
        """loop cut by an invariant; the frame (what the loop changes) is
        inferred by re-execution until it is stable"""
        key = "loop:" + self.label() + "@" + posl(s) + ":" + (fr.func.qual if fr.func else "")
        info = self.loops.setdefault(key, LoopInfo())
        spec = self.vc.loop_spec(self, s, fr)
        # host unrolling of small loops on request
        L = self.vc.loop_ctx(self, s, fr, it, spec)
        seqmode = it is not None
        kvar = "$k" + posl(s)
        name = L.name
        if seqmode:
            L.k = z3.IntVal(0)
            L.seq0 = self.seq(it)
        self.path_loops.append(L)
        L.entry = self.vc.snap(self)
        L.entry_locals = dict(self.st.frames[fr.fid])
        for n, g in L.inv():
            self.vc.prove(self, f"{name}: invariant '{n}' holds on entry", g, loop=L)
        # havoc
        rec = Recorder(info, set(self.st.boxes), set(self.st.frames), set(self.st.hf))
        alloc0 = self.st.alloc
        for loc in sorted(info.havoc, key=str):
            self.havoc(loc, info, key)
        if ("alloc",) in info.havoc:
            pass
        if seqmode:
            k = self.fresh("k", z3.IntSort())
            self.assume(k >= 0)
            L.k = k
            L.seq = L.seq0
        L.head = self.vc.snap(self)
        for n, g in L.inv():
            self.assume(g)
        self.vc.note_loop(L)
        self.recorders.append(rec)
        try:
            if seqmode:
                cur = self.seq(it)
                L.seq = cur
                if isinstance(it, Box) and getattr(cur, "kind", "") == "list":
                    if cur.n.eq(L.seq0.n):
                        # the list is not changed by the loop
                        self.assume(k <= cur.n)
                    more = k < cur.n
                else:
                    self.assume(k <= cur.n)
                    more = k < cur.n
                go = self.branch(more)
                if go:
                    self.bind_target(s.target, cur.get(k), fr)
            else:
                go = self.test(self.eval(s.test, fr))
            if go:
                L.in_body = True
                self.vc.enter_body(self, L)
                try:
                    yield from self.block(s.body, fr)
                except PyContinue:
                    pass
                except PyBreak:
                    self.recorders.remove(rec)
                    return
                new = rec.writes - info.havoc
                ty_changed = self.join_loop_types(info, rec, fr)
                if new or ty_changed:
                    info.havoc |= new
                    raise Restart()
                if seqmode:
                    L.k = z3.simplify(k + 1)
                L.in_body = False
                for n, g in L.inv():
                    self.vc.prove(self, f"{name}: invariant '{n}' is preserved", g, loop=L, cases=L.cases.get(n))
                self.vc.end_body(self, L)
                raise PathEnd()
            self.recorders.remove(rec)
        except PyRaise:
            if rec in self.recorders:
                self.recorders.remove(rec)
            raise
        except PyReturn:
            if rec in self.recorders:
                self.recorders.remove(rec)
            raise
        yield from self.block(s.orelse, fr)

    def join_loop_types(self, info, rec, fr):
        changed = False
        for loc in rec.writes:
            if loc[0] == "box" and loc[1] in self.st.boxes:
                c = self.st.boxes[loc[1]]
                if isinstance(c, (LocField, LocElem)):
                    continue
                try:
                    t = self.content_ty(c)
                    old = info.types.get(loc)
                    new = t if old is None else self.join_ty(old, t)
                except Unsupported:
                    continue
                if new != old and not isinstance(new, EmptyTy):
                    info.types[loc] = new
                    changed = True
                continue
            if loc[0] != "var":
                continue
            d = self.st.frames.get(loc[1])
            if d is None or loc[2] not in d:
                continue
            v = d[loc[2]]
            try:
                t = self.ty_of(v)
            except Unsupported:
                continue
            old = info.types.get(loc)
            try:
                new = t if old is None else self.join_ty(old, t)
            except Unsupported:
                new = old
            if new != old:
                info.types[loc] = new
                changed = changed or True
        return changed

    def havoc(self, loc, info, key):
        kind = loc[0]
        if kind == "heap":
            ty = self.model.fields[(loc[1], loc[2])]
            self.record(loc)
            self.st.heap[(loc[1], loc[2])] = self.fresh(f"H_{loc[1]}.{loc[2]}", z3.ArraySort(z3.IntSort(), ty.sort()))
        elif kind == "ghost":
            self.record(loc)
            old = self.get_ghost(loc[1])
            self.st.ghost[loc[1]] = self.fresh("G_" + loc[1], old.sort())
            if loc[1] == "clock":
                self.assume(self.st.ghost["clock"] >= old)
        elif kind == "alloc":
            self.record(loc)
            a = self.fresh("alloc", z3.IntSort())
            self.assume(a >= self.st.alloc)
            self.st.alloc = a
        elif kind == "box":
            if loc[1] not in self.st.boxes:
                return
            c = self.st.boxes[loc[1]]
            if isinstance(c, (LocField, LocElem)):
                return
            self.record(loc)
            ty = self.content_ty(c)
            lt = info.types.get(loc)
            if isinstance(ty, EmptyTy):
                ty = lt
                if ty is None:
                    # learn the type from the next pass
                    raise Unsupported("type of an empty container changed in a loop")
            elif lt is not None:
                ty = self.join_ty(ty, lt)
            t = self.fresh("box", ty.sort())
            if isinstance(ty, TList):
                self.assume(ty.len(t) >= 0)
            self.st.boxes[loc[1]] = SV(ty, t, getattr(c, "default", None))
        elif kind == "var":
            d = self.st.frames.get(loc[1])
            if d is None:
                return
            lt = info.types.get(loc)
            if loc[2] not in d or d[loc[2]] is MISSING:
                # first assigned in the loop: unknown whether bound
                late = next((t for (q, n), t in self.model.late.items() if n == loc[2] and f":{q}#" in loc[1] + "#"), None) if self.model.late else None
                if late is not None:
                    self.record(loc)
                    d[loc[2]] = self.fresh_val("v_" + loc[2], late) if self.branch(self.fresh("bound", z3.BoolSort())) else MISSING
                return
            v = d[loc[2]]
            if isinstance(v, NTVal):
                d[loc[2]] = Opaque("havoc")
                return
            if isinstance(v, (GenVal, CMVal, FuncVal, Bound, Opaque, Builtin, ExcVal, ClassVal)):
                d[loc[2]] = Opaque("havoc") if isinstance(v, Opaque) else v
                return
            ty = self.ty_of(v)
            if lt is not None:
                ty = self.join_ty(ty, lt)
            if isinstance(ty, EmptyTy):
                return
            self.record(loc)
            if isinstance(ty, (TList, TSet, TDict, TRec)):
                t = self.fresh("box_" + loc[2], ty.sort())
                if isinstance(ty, TList):
                    self.assume(ty.len(t) >= 0)
                d[loc[2]] = self.new_box(SV(ty, t))
            else:
                d[loc[2]] = self.fresh_val("v_" + loc[2], ty)
        elif kind == "hf":
            v = self.st.hf.get((loc[1], loc[2]))
            if v is None or isinstance(v, Opaque):
                return
            self.record(loc)
            self.st.hf[(loc[1], loc[2])] = self.fresh_val("hf_" + loc[2], self.ty_of(v))


def _occurs(t, k):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def _selects_at(t, k):
    """terms A[k] in t, for a fixed array A"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).eq(k) and not _occurs(x.arg(0), k) and not z3.is_quantifier(x.arg(0)):
            out.append(x)
        todo.extend(x.children())
    return out


def _has_ite(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(x.children())
    return False
