"""Contracts, proof obligations and their discharge."""
import ast
import hashlib
import importlib
import os
import sys
import time
import traceback

import z3

from . import lib
from .evalx import Evaluator
from .interp import *  # noqa
from .model import Model
from .quant import canon, relevant
from .repo import Func, Repo
from .ty import *  # noqa


class View:
    """a state of heap and ghosts, as seen by specifications"""

    def __init__(self, it, st):
        self.it, self.st = it, st

    def f(self, cls, field, ref):
        r = self.it.field_ty(cls, field)
        if r is None:
            raise Unsupported(f"field {cls}.{field}")
        key = (r[0], field)
        if key not in self.st.heap:
            a = z3.Const(f"H0_{r[0]}.{field}", z3.ArraySort(z3.IntSort(), r[1].sort()))
        else:
            a = self.st.heap[key]
        if isinstance(ref, Obj):
            ref = ref.ref
        return z3.Select(a, ref)

    def arr(self, cls, field):
        r = self.it.field_ty(cls, field)
        key = (r[0], field)
        if key not in self.st.heap:
            return z3.Const(f"H0_{r[0]}.{field}", z3.ArraySort(z3.IntSort(), r[1].sort()))
        return self.st.heap[key]

    def g(self, name):
        if name not in self.st.ghost:
            ty = self.it.model.ghosts.get(name)
            if ty is None:
                raise Unsupported("ghost " + name)
            return z3.Const(f"G0_{name}", ty.sort())
        return self.st.ghost[name]

    @property
    def alloc(self):
        return self.st.alloc


class Ctx:
    def __init__(self, it, contract, args, pre, post=None, result=None, exc=None):
        self.it, self.contract, self.args = it, contract, args
        self.pre, self.post, self.result, self.exc = pre, post, result, exc
        self.model = it.model

    def a(self, name):
        """argument as a term of its declared type"""
        return self.args[name]

    @property
    def res(self):
        return self.result

    def get(self, name):
        return self.args[name]


class Contract:
    def __init__(self, qual, params, ret=TUnit, requires=(), ensures=(), raises=(), modifies=(), loops=None,
                 defaults=None, trusted=False, define=None, note="", before=None, after=None, hints=None, unit=None,
                 accepts=None, raises_any=False, ghost_update=None, fn=False, allow_no_return=False, always=(), ghost_code=None, ghost_before=None):
        self.fn = fn
        self.ghost_code, self.ghost_before = ghost_code or {}, ghost_before or {}
        self.always = list(always)
        self.ghost_update = ghost_update
        self.qual, self.params, self.ret = qual, list(params), ret
        self.requires, self.ensures = list(requires), list(ensures)
        self.raises = [r if isinstance(r, tuple) else (r, None, []) for r in raises]
        self.raises = [r if len(r) == 3 else (r[0], r[1], []) for r in self.raises]
        self.modifies, self.loops = list(modifies), loops or {}
        self.defaults, self.trusted, self.define = defaults or {}, trusted, define
        self.note, self.before, self.after, self.hints = note, before, after, hints
        self.raises_any = raises_any
        self.accepts = accepts
        self.allow_no_return = allow_no_return

    def usable(self, it):
        return True


def loops_of(node):
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While, ast.AsyncFor)):
                out.append(c)
            walk(c)

    walk(node)
    out.sort(key=lambda n: (n.lineno, n.col_offset))
    return out


def real_defaults(node):
    a, out = node.args, {}
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if isinstance(d, ast.Constant):
            out[x.arg] = d.value
    return out


def comps_as_loops(node):
    """x = [e for t in s if c] is executed as a loop that appends (e may then
    change the state, and an invariant can be given)"""
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            c = n.value
            if not isinstance(c, ast.ListComp) or len(c.generators) != 1 or c.generators[0].is_async or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
                return n
            x, g = n.targets[0].id, c.generators[0]
            if any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(c)):
                return n
            at = lambda y: ast.copy_location(y, n)
            app = at(ast.Expr(at(ast.Call(at(ast.Attribute(at(ast.Name(x, ast.Load())), "append", ast.Load())), [c.elt], []))))
            for t in reversed(g.ifs):
                app = at(ast.If(t, [app], []))
            return [at(ast.Assign(n.targets, at(ast.List([], ast.Load())))), at(ast.For(g.target, g.iter, [app], []))]
    T().visit(node)
    ast.fix_missing_locations(node)


def gather_in_turn(node):
    """x = await asyncio.gather(a, *[f(y) for y in ys]) is executed as a, then f(y)
    for one y after the other: for coroutines that do not wait once they have
    begun to change the state, and in any order"""
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            c = n.value.value if isinstance(n.value, ast.Await) else None
            if not isinstance(c, ast.Call) or ast.unparse(c.func) != "asyncio.gather" or c.keywords or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
                return n
            x = n.targets[0].id
            at = lambda y: ast.copy_location(y, n)
            add = lambda e: at(ast.Expr(at(ast.Call(at(ast.Attribute(at(ast.Name(x, ast.Load())), "append", ast.Load())), [at(ast.Await(e))], []))))
            out = [at(ast.Assign(n.targets, at(ast.List([], ast.Load()))))]
            for e in c.args:
                if not isinstance(e, ast.Starred):
                    out.append(add(e))
                elif isinstance(e.value, (ast.ListComp, ast.GeneratorExp)) and len(e.value.generators) == 1 and not e.value.generators[0].ifs:
                    g = e.value.generators[0]
                    out.append(at(ast.For(g.target, g.iter, [add(e.value.elt)], [])))
                else:
                    return n
            return out
    T().visit(node)
    ast.fix_missing_locations(node)


def named(it, t):
    """a constant equal to t, if t is a compound term (for patterns)"""
    t = z3.simplify(t)
    if z3.is_const(t) or t.sort().kind() not in (z3.Z3_ARRAY_SORT, z3.Z3_DATATYPE_SORT):
        return t
    key = ("named", t.get_id())
    if key not in it.const_cache:
        c = it.fresh("nm", t.sort())
        it.const_cache[key] = (c, t)
        it.assume(c == t)
    return it.const_cache[key][0]


class Loop:
    """L: what an invariant may talk about"""

    def __init__(self, vc, it, s, fr, itv, spec, name):
        self.vc, self.it, self.s, self.fr, self.itv, self.spec, self.name = vc, it, s, fr, itv, spec, name
        self.k = self.seq = self.seq0 = self.entry = self.head = None
        self.entry_locals = {}
        self.in_body = self.seen = False
        self.cases = {}

    @property
    def now(self):
        return View(self.it, self.it.st)

    @property
    def pre(self):
        return self.vc.pre

    @property
    def args(self):
        return self.vc.ctx.args

    def local(self, name, ty=None):
        """current value of a local variable (term if ty is given)"""
        f = self.fr
        while f:
            d = self.it.st.frames.get(f.fid, {})
            if name in d:
                v = d[name]
                if v is MISSING:
                    break
                return named(self.it, self.it.encode(v, ty)) if ty is not None else v
            f = f.parent
        raise Unsupported(f"{self.name}: no local variable {name}")

    def bound(self, name):
        """is the local variable assigned?"""
        f = self.fr
        while f:
            d = self.it.st.frames.get(f.fid, {})
            if name in d:
                return d[name] is not MISSING
            f = f.parent
        return False

    def entry_local(self, name, ty):
        """value of a local variable when the loop was entered"""
        if name not in self.entry_locals or self.entry_locals[name] is MISSING:
            raise Unsupported(f"{self.name}: no local variable {name}")
        st, self.it.st = self.it.st, self.entry.st
        try:
            return self.it.encode(self.entry_locals[name], ty)
        finally:
            self.it.st = st

    def inv(self):
        if self.spec is None:
            return []
        self.it.pure += 1
        try:
            r = self.spec(self)
        finally:
            self.it.pure -= 1
        self.cases.update({x[0]: x[2] for x in r if len(x) > 2})
        return [(x[0], z3.BoolVal(x[1]) if isinstance(x[1], bool) else x[1]) for x in r]


class Obligation:
    __slots__ = ("name", "pc", "goal", "pos", "status", "backend", "time", "model", "loop", "failed_part", "cases")

    def __init__(self, name, pc, goal, pos, loop):
        self.name, self.pc, self.goal, self.pos, self.loop = name, pc, goal, pos, loop
        self.status = self.backend = self.model = self.failed_part = self.cases = None
        self.time = 0.0


class VC:
    def __init__(self, budget=120):
        self.obls = []
        self.restarts = 0
        self.deadline = time.time() + budget
        self.loop_specs = {}
        self.seen = set()
        self.ends = 0
        self.returns = 0
        self.return_pcs = []

    def reset(self):
        self.obls, self.seen = [], set()
        self.returns = 0
        self.return_pcs = []

    def tick(self):
        if time.time() > self.deadline:
            raise Unsupported("time budget of the verifier exhausted")

    def snap(self, it):
        return View(it, it.st.copy())

    # ------------------------------------------------------------- loops
    def loop_spec(self, it, s, fr):
        if fr.func is None:
            return None
        ls = loops_of(fr.func.node)
        n = ls.index(s) if s in ls else -1
        return self.loop_specs.get((fr.func.qual, n))

    def loop_ctx(self, it, s, fr, itv, spec):
        q = fr.func.qual if fr.func else "?"
        n = loops_of(fr.func.node).index(s) if fr.func else 0
        return Loop(self, it, s, fr, itv, spec, f"{q} loop {n + 1}")

    def note_loop(self, L):
        pass

    def enter_body(self, it, L):
        pass

    def end_body(self, it, L):
        self.ends += 1

    # --------------------------------------------------------- obligations
    def prove(self, it, name, goal, loop=None, cases=None):
        """cases: for a goal over all x, a function which yields conditions on
        x; the goal may be proved case by case"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = canon(z3.simplify(goal))
        pc = [t for _, t in it.pc]
        key = (name, goal.get_id(), tuple(t.get_id() for t in pc))
        if key in self.seen:
            return
        self.seen.add(key)
        it.keep.append(goal)
        it.keep.extend(pc)
        o = Obligation(name, pc, goal, str(getattr(it, "pos", "")), loop.name if loop else None)
        parts = list(goal.children()) if z3.is_or(goal) else [goal]
        alls = [p for p in parts if z3.is_quantifier(p) and p.is_forall()]
        if cases and len(alls) == 1:
            q = alls[0]
            hyp = [z3.Not(p) for p in parts if p is not q]
            sk = [it.fresh("sk", q.var_sort(i)) for i in range(q.num_vars())]
            body = z3.substitute_vars(q.body(), *reversed(sk))
            cs = list(cases(*sk))
            cs.append(z3.Not(z3.Or(*cs)))
            o.cases = [(z3.simplify(z3.And(c, *hyp)), body) for c in cs]
            it.keep.append(o.cases)
        self.obls.append(o)

    def always(self, it, ghost):
        """what has to hold whenever the ghost changes (crash points)"""
        for g, n, fn in it.target.always:
            if g == ghost:
                self.prove(it, f"always: '{n}'", fn(self.ctx, View(it, it.st)))

    # -------------------------------------------------------------- calls
    def bind(self, it, c, args, kwargs):
        names = [p for p, _ in c.params]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, ty in c.params:
            if args:
                out[n] = args.pop(0)
            elif n in kwargs:
                out[n] = kwargs.pop(n)
            elif n in c.defaults:
                out[n] = c.defaults[n]
            else:
                f = it.repo.find(c.qual.split("#")[0])
                d = self.ast_default(it, f, n)
                if d is MISSING:
                    raise Unsupported(f"argument {n} of {c.qual} missing")
                out[n] = d
        if args or kwargs:
            if set(kwargs) == {"skip_lock"}:
                return out
            raise Unsupported(f"surplus arguments in call of {c.qual}: {kwargs}")
        return out

    def ast_default(self, it, f, n):
        if f is None:
            return MISSING
        a = f.node.args
        ps = a.posonlyargs + a.args
        for i, p in enumerate(ps):
            if p.arg == n:
                j = i - (len(ps) - len(a.defaults))
                if j >= 0:
                    return it.eval(a.defaults[j], it.new_frame(None, None, f.mod))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == n and d is not None:
                return it.eval(d, it.new_frame(None, None, f.mod))
        return MISSING

    def encode_args(self, it, c, vals):
        out = {}
        for n, ty in c.params:
            if ty is None or not isinstance(ty, Ty):
                out[n] = vals[n]
            else:
                out[n] = it.encode(vals[n], ty)
        return out

    def havoc(self, it, m):
        if m == "alloc":
            a = it.fresh("alloc", z3.IntSort())
            it.assume(a >= it.st.alloc)
            it.record(("alloc",))
            it.st.alloc = a
        elif m[0] == "heap":
            ty = it.model.fields[(m[1], m[2])]
            it.record(("heap", m[1], m[2]))
            it.heap_arr(m[1], m[2])
            it.st.heap[(m[1], m[2])] = it.fresh(f"H_{m[1]}.{m[2]}", z3.ArraySort(z3.IntSort(), ty.sort()))
        elif m[0] == "ghost":
            old = it.get_ghost(m[1])
            new = it.fresh("G_" + m[1], old.sort())
            it.record(("ghost", m[1]))
            it.st.ghost[m[1]] = new
            if m[1] == "clock":
                it.assume(new >= old)

    def call_contract(self, it, cf, args, kwargs):
        c = cf.contract
        it.uses.add(c.qual)
        vals = self.bind(it, c, args, kwargs)
        if c.accepts is not None and not c.accepts(it, vals):
            return it.call(cf.impl, args, kwargs)
        terms = self.encode_args(it, c, vals)
        if c.define is not None:
            pre = View(it, it.st)
            ctx = Ctx(it, c, terms, pre, pre)
            for n, fn in c.requires:
                if it.pure:
                    raise Unsupported(f"call of {c.qual} with a precondition over all elements")
                self.prove(it, f"precondition '{n}' of {c.qual}", fn(ctx))
            return it.decode(c.define(ctx), c.ret)
        if c.fn:
            # a function of its arguments only (checked when it is verified)
            F = z3.Function("F_" + c.qual, *[ty.sort() for _, ty in c.params], c.ret.sort())
            t = F(*[terms[n] for n, _ in c.params])
            pre = View(it, it.st)
            ctx = Ctx(it, c, terms, pre, pre, t)
            for n, fn in c.requires:
                if it.pure:
                    raise Unsupported(f"call of {c.qual} with a precondition over all elements")
                self.prove(it, f"precondition '{n}' of {c.qual}", fn(ctx))
            if not it.pure:
                for n, fn in c.ensures:
                    it.assume(fn(ctx))
            return it.decode(t, c.ret)
        if it.pure:
            raise Unsupported(f"call of {c.qual} over all elements")
        pre = self.snap(it)
        ctx = Ctx(it, c, terms, pre)
        ctx.vals = vals
        for n, fn in c.requires:
            self.prove(it, f"precondition '{n}' of {c.qual}", fn(ctx))
            it.assume(fn(ctx))
        if c.qual in it.target.ghost_before:
            # ghost code of the caller before this call
            it.target.ghost_before[c.qual](ctx)
        opts = [None] + list(c.raises)
        o = opts[it.choose(len(opts))] if len(opts) > 1 else None
        for g, n, fn in it.target.always:
            if ("ghost", g) in c.modifies:
                # any state in the midst of the call
                st, it.st = it.st, it.st.copy()
                for m in c.modifies:
                    self.havoc(it, m)
                mid = View(it, it.st)
                for g2, _, fn2 in c.always:
                    if g2 == g:
                        it.assume(fn2(ctx, mid))
                self.prove(it, f"always: '{n}' (during {c.qual})", fn(self.ctx, mid))
                it.st = st
        for m in c.modifies:
            self.havoc(it, m)
        for g in it.model.scratch:
            if ("ghost", g) not in c.modifies:
                self.havoc(it, ("ghost", g))
        ctx.post = View(it, it.st)
        if o is not None:
            name, when, ens = o
            if when is not None:
                it.assume(when(ctx))
            for n, fn in ens:
                it.assume(fn(ctx))
            if not it.feasible(z3.BoolVal(True)):
                raise PathEnd()
            e = it.exc(name)
            raise e
        r = it.fresh_val("ret_" + c.qual.split(".")[-1].split(":")[-1], c.ret) if c.ret != TUnit else None
        ctx.result = it.encode(r, c.ret) if c.ret != TUnit else None
        if c.ghost_update:
            for g, t in c.ghost_update(ctx):
                it.set_ghost(g, t)
            ctx.post = View(it, it.st)
        for n, fn in c.ensures:
            it.assume(fn(ctx))
        if c.after:
            c.after(ctx)
        if c.qual in it.target.ghost_code:
            # ghost code of the caller after this call
            it.target.ghost_code[c.qual](ctx)
        return r


def ast_hash(func):
    n = func.node
    s = _dump(n)
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def constants_of(repo, func):
    """what a function uses of the constants of modules and classes"""
    out, todo = {}, [(func.mod, func.node)]
    while todo:
        mod, node = todo.pop()
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                g, home, x = mod.globals.get(n.id), mod, n.id
                if g and g[0] == "import" and g[1]:
                    home, x = repo.module(g[1]), g[2]
                    g = home.globals.get(x) if home else None
                if g and g[0] == "expr" and f"{home.short}:{x}" not in out:
                    out[f"{home.short}:{x}"] = g[1]
                    todo.append((home, g[1]))
            elif isinstance(n, ast.Attribute):
                for g in mod.globals.values():
                    if g[0] == "class" and n.attr in g[1].attrs:
                        out[f"{g[1].qual}.{n.attr}"] = g[1].attrs[n.attr]
    return {"= " + k: hashlib.sha256(ast.dump(v).encode()).hexdigest()[:16] for k, v in out.items()}


def _dump(n):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        head = ast.dump(n.args) if not isinstance(n, ast.ClassDef) else ",".join(ast.dump(b) for b in n.bases)
        return type(n).__name__ + n.name + head + "|".join(ast.dump(d) for d in n.decorator_list) + "{" + ";".join(_dump(s) for s in body) + "}"
    return ast.dump(n)


# ---------------------------------------------------------------- discharge
def _solver(timeout, **opts):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for k, v in opts.items():
        s.set(k.replace("__", "."), v)
    return s


_uniq = [0]


def conjuncts(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_quantifier(g) and g.is_forall():
        _uniq[0] += 1
        vs = [z3.Const(f"{g.var_name(i)}%{_uniq[0]}", g.var_sort(i)) for i in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        cs = conjuncts(b)
        if len(cs) > 1:
            return cs  # (the variables are arbitrary constants)
    if z3.is_implies(g):
        cs = conjuncts(g.arg(1))
        if len(cs) > 1:
            return [z3.Implies(g.arg(0), c) for c in cs]
    if z3.is_or(g):
        parts = [conjuncts(c) for c in g.children()]
        many = [i for i, c in enumerate(parts) if len(c) > 1]
        if len(many) == 1:
            return [z3.Or(*[x for i, y in enumerate(g.children()) for x in ([c] if i == many[0] else [y])]) for c in parts[many[0]]]
    return [g]


def discharge(o, timeout=6.0, use_cvc5=True):
    """a goal of several parts is proved part by part if it is not as a whole"""
    g = o.goal
    if o.cases:
        t0 = time.time()
        backends = set()
        for c, body in o.cases:
            p = Obligation(o.name, o.pc + [c], body, o.pos, o.loop)
            discharge(p, timeout, use_cvc5)
            if p.status != "proved":
                o.status, o.backend, o.failed_part = "unknown", p.backend, c
                o.time = time.time() - t0
                return
            backends.add(p.backend)
        o.status, o.backend, o.time = "proved", "+".join(sorted(backends)), time.time() - t0
        return
    cs = conjuncts(g)
    if len(cs) < 2:
        return discharge1(o, timeout, use_cvc5)
    t0 = time.time()
    discharge1(o, timeout / 3, False)
    if o.status != "unknown":
        return
    backends = set()
    for c in cs:
        p = Obligation(o.name, o.pc, z3.simplify(c), o.pos, o.loop)
        discharge1(p, timeout, use_cvc5)
        if p.status != "proved":
            o.status, o.backend, o.model = p.status, p.backend, p.model
            o.failed_part = c
            o.time = time.time() - t0
            return
        backends.add(p.backend)
    o.status, o.backend = "proved", "+".join(sorted(backends))
    o.time = time.time() - t0


_simplified = {}


def simplified(t):
    k = t.get_id()
    if k not in _simplified:
        _simplified[k] = (t, canon(z3.simplify(t)))
    return _simplified[k][1]


def known(pc, g):
    """whether the goal is among what is assumed"""
    ids = set()

    def add(t):
        ids.add(t.get_id())
        if z3.is_quantifier(t):
            ids.add(simplified(t).get_id())
        if z3.is_and(t):
            for c in t.children():
                add(c)

    def have(t):
        return t.get_id() in ids or z3.is_and(t) and all(have(c) for c in t.children())

    for t in pc:
        add(t)
    return have(g)


def discharge1(o, timeout=6.0, use_cvc5=True, first_only=False):
    t0 = time.time()
    g = o.goal
    if z3.is_true(g):
        o.status, o.backend = "proved", "z3-simplify"
        return
    if known(o.pc, g):
        o.status, o.backend = "proved", "assumed as it is"
        return
    sat_model = None
    st = "unknown"
    if use_cvc5:
        # (most of what z3 proves it proves at once; both share the rest)
        configs = [({}, timeout / 6), ({"smt.mbqi": False, "auto_config": False}, timeout / 6),
                   ((1.5, 3), timeout / 8), ((2, 2), timeout / 8), ((3, 2), timeout / 8), ("cvc5", timeout), ("z3 4.8", timeout / 2), ({"smt.mbqi": False, "auto_config": False}, timeout), ({"smt.arith.solver": 2}, timeout), ({}, timeout)]
    elif first_only:
        configs = [({}, timeout)]
    else:
        configs = [({}, timeout), ({"smt.mbqi": False, "auto_config": False}, timeout)]
    for opts, tmo in configs:
        if opts in ("cvc5", "z3 4.8"):
            try:
                r = (cvc5_check if opts == "cvc5" else z3_old_check)(o, tmo)
            except Exception:
                r = "unknown"
            if r == "unsat":
                o.status, o.backend = "proved", opts if opts == "cvc5" else "z3 (command line)"
                o.time = time.time() - t0
                return
            continue
        pc = o.pc
        if isinstance(opts, tuple):
            pc, all_ = relevant(o.pc, g, *opts)
            if all_:
                continue
            opts = {"smt.mbqi": False, "auto_config": False}
        s = _solver(tmo)
        for k, v in opts.items():
            try:
                s.set(k, v)
            except z3.Z3Exception:
                pass
        s.add(*pc)
        s.add(z3.Not(g))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            o.status, o.backend = "proved", "z3 " + z3.get_version_string()
            o.time = time.time() - t0
            return
        if r == z3.sat and "smt.mbqi" not in opts:
            st = "sat"
            try:
                sat_model = str(s.model())[:4000]
            except z3.Z3Exception:
                sat_model = ""
            break
    o.status, o.model = ("refuted" if st == "sat" else "unknown"), sat_model
    o.backend = "z3"
    o.time = time.time() - t0


def cvc5_check(o, timeout):
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(*o.pc)
    s.add(z3.Not(o.goal))
    txt = s.to_smt2()
    if "lambda" in txt:
        return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write("(set-logic ALL)\n" + txt)
        f.flush()
        try:
            p = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={int(timeout * 1000)}", f.name], capture_output=True, text=True, timeout=timeout + 5)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return "unknown"
    return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"


def z3_old_check(o, timeout):
    """the z3 on the command line is an older release, which proves some of
    what the newer one does not"""
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(*o.pc)
    s.add(z3.Not(o.goal))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write(s.to_smt2())
        f.flush()
        try:
            p = subprocess.run(["z3", f"-T:{max(1, int(timeout))}", f.name], capture_output=True, text=True, timeout=timeout + 5)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return "unknown"
    return "unknown" if "error" in p.stdout else p.stdout.strip().split("\n")[0] if p.stdout else "unknown"


def discharge_all(vc, timeout, verbose):
    """all obligations, by several processes"""
    import pickle
    todo = list(range(len(vc.obls)))
    jobs = int(os.environ.get("PYVC_JOBS", "4"))
    quick = []
    # the easy ones first
    if len(todo) > 60:
        run_batch(vc, todo, 0.25, jobs, easy=True)
    else:
        for i in todo:
            discharge1(vc.obls[i], 0.25, False, first_only=True)
    quick = [i for i in todo if vc.obls[i].status != "proved"]
    for i in quick:
        vc.obls[i].status = None
    vc.done_ids = set()
    # the same statement fails on many paths: two of each are tried first
    seen, first, later = {}, [], []
    for i in quick:
        n = vc.obls[i].name
        seen[n] = seen.get(n, 0) + 1
        (first if seen[n] <= 2 else later).append(i)
    for batch in (first, later):
        bad = {}
        for o in vc.obls:
            if o.status in ("unknown", "refuted", "timeout") and id(o) in done_ids(vc):
                bad[o.name] = bad.get(o.name, 0) + 1
        batch2 = []
        for i in batch:
            if bad.get(vc.obls[i].name, 0) >= 2:
                vc.obls[i].status = "skipped"
            else:
                batch2.append(i)
        run_batch(vc, batch2, timeout, jobs)
        if verbose:
            for i in batch2:
                o = vc.obls[i]
                if o.status != "proved":
                    print("   ", o.status, o.name, "@", o.pos, f"{o.time:.1f}s", str(o.failed_part)[:600] if o.failed_part is not None else "")


def done_ids(vc):
    return getattr(vc, "done_ids", set())


def run_batch(vc, idx, timeout, jobs, easy=False):
    import pickle
    vc.done_ids = done_ids(vc) | {id(vc.obls[i]) for i in idx}
    if not idx:
        return
    if jobs <= 1 or len(idx) == 1:
        for i in idx:
            o = vc.obls[i]
            if time.time() > vc.deadline:
                o.status = "timeout"
            else:
                discharge(o, timeout)
        return
    # the children take indices from a pipe
    r, w = os.pipe()
    for i in idx:
        os.write(w, i.to_bytes(4, "little"))
    os.close(w)
    kids = []
    for _ in range(min(jobs, len(idx))):
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr)
                out = []
                while True:
                    b = os.read(r, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, "little")
                    o = vc.obls[i]
                    if time.time() > vc.deadline:
                        o.status = "timeout"
                    elif easy:
                        discharge1(o, timeout, False, first_only=True)
                    else:
                        discharge(o, timeout)
                    out.append((i, o.status, o.backend, o.model, str(o.failed_part)[:600] if o.failed_part is not None else None, o.time))
                with os.fdopen(pw, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(pw)
        kids.append((pid, pr))
    os.close(r)
    for pid, pr in kids:
        with os.fdopen(pr, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        for i, st, be, mo, fp, t in pickle.loads(b) if b else []:
            o = vc.obls[i]
            o.status, o.backend, o.model, o.failed_part, o.time = st, be, mo, fp, t
    for i in idx:
        if vc.obls[i].status is None:
            vc.obls[i].status = "timeout"


# ------------------------------------------------------------------ driver
class Unit:
    """a set of contracts with the model they are written against"""

    def __init__(self, modname):
        self.mod = importlib.import_module(modname)
        self.repo = Repo()
        self.model = Model(self.repo)
        self.contracts = {}
        self.loops = {}
        self.axioms = []
        self.mod.setup(self)
        for q in sorted(self.model.unroll):
            f = self.repo.find(q)
            if f is not None:
                comps_as_loops(f.node)
        for q in sorted(self.model.in_turn):
            f = self.repo.find(q)
            if f is not None:
                gather_in_turn(f.node)

    def contract(self, qual, params, locals=None, **kw):
        for n, t in (locals or {}).items():
            self.model.local_types[(qual, n)] = t
        c = Contract(qual, params, **kw)
        self.contracts[qual] = c
        for n, sp in c.loops.items():
            self.loops[(qual, n)] = sp
        return c

    def loop(self, qual, n, spec):
        self.loops[(qual, n)] = spec


def verify(modname, qual, budget=120, timeout=6.0, variant=None, verbose=False):
    """verify one function against its contract; returns a plain dict"""
    t0 = time.time()
    res = {"unit": modname, "function": qual, "obligations": [], "unsupported": None, "hash": None,
           "functions": {}, "uses": [], "notes": [], "paths": 0, "returns": 0, "wall": 0.0}
    try:
        u = Unit(modname)
        c = u.contracts[qual]
        vc = VC(budget)
        vc.loop_specs = dict(u.loops)
        vc.loop_specs.update({(qual.split('#')[0], n): sp for (q, n), sp in u.loops.items() if q == qual})
        it = Evaluator(u.repo, u.model, u.contracts, vc)
        it.target = c
        f = u.repo.find(qual.split("#")[0])
        if f is None:
            raise Unsupported(f"function {qual} does not exist")
        try:
            it.explore(lambda: run_path(it, vc, u, c, f))
        finally:
            fs = {}
            for q in sorted(it.inlined | {qual.split("#")[0]}):
                g = u.repo.find(q)
                if g is not None:
                    fs[q] = ast_hash(g)
                    fs.update(constants_of(u.repo, g))
            res["functions"] = fs
            res["uses"] = sorted(it.uses)
            res["notes"] = sorted(it.notes)
            res["paths"] = getattr(it, "npaths", 0)
            res["returns"] = vc.returns
        for n, given in real_defaults(f.node).items():
            # callers are checked against the contract and its defaults
            if n in c.defaults and type(c.defaults[n]) in (bool, int, str, type(None)) and given != c.defaults[n]:
                vc.obls.append(Obligation(f"the default of '{n}' is {c.defaults[n]!r}", [], z3.BoolVal(False), "", None))
        if vc.returns == 0 and not c.allow_no_return:
            o = Obligation("some execution returns normally", [], z3.BoolVal(False), "", None)
            vc.obls.append(o)
        elif vc.return_pcs:
            ok = False
            for pc in vc.return_pcs[:6]:
                s = _solver(1)
                s.add(*pc)
                if s.check() != z3.unsat:
                    ok = True
                    break
            if not ok:
                vc.obls.append(Obligation("assumptions are consistent (vacuity guard)", [], z3.BoolVal(False), "", None))
        discharge_all(vc, timeout, verbose)
        res["obligations"] = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), pos=o.pos, model=o.model if o.status != "proved" else None, loop=o.loop) for o in vc.obls]
        res["obls_raw"] = vc.obls if verbose else None
    except Unsupported as e:
        res["unsupported"] = str(e) + (("\n" + traceback.format_exc()) if verbose else "")
    except RecursionError:
        res["unsupported"] = "recursion"
    except (z3.Z3Exception, AssertionError, AttributeError, TypeError, KeyError, ValueError, IndexError, NotImplementedError) as e:
        # an internal limit of the verifier: undecided, never an alarm
        res["unsupported"] = f"internal: {type(e).__name__}: {e}" + ("\n" + traceback.format_exc() if verbose else "")
    res["wall"] = round(time.time() - t0, 2)
    if not verbose:
        res.pop("obls_raw", None)
    return res


def run_path(it, vc, u, c, f):
    a0 = z3.Int("alloc0")
    it.st.alloc = a0
    it.assume(a0 >= 1)
    it.pos = ""
    vals, terms = {}, {}
    for n, ty in c.params:
        if ty is None:
            vals[n] = c.defaults.get(n)
            terms[n] = vals[n]
            continue
        if callable(ty) and not isinstance(ty, Ty):
            vals[n] = ty(it)
            terms[n] = vals[n]
            continue
        t = z3.Const("arg_" + n, ty.sort())
        vals[n] = it.decode(t, ty)
        terms[n] = t
    pre = vc.snap(it)
    vc.pre = pre
    ctx = Ctx(it, c, terms, pre)
    vc.ctx = ctx
    for ax in u.axioms:
        for t in ax(it, pre):
            it.assume(t)
    for n, fn in c.requires:
        it.assume(fn(ctx))
    if c.before:
        c.before(it, ctx, vals)
    fv = it.func_value(f, None) if f.cls is None else it.class_attr(f.cls, f.name)
    # unwrap: the function itself is executed, not its contract
    pos, kw = [], {}
    if any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.node.decorator_list):
        pos = [ClassVal(f.cls)]
    if isinstance(fv, (PropertyVal, StaticVal, ClassMethodVal)):
        fv = fv.fn
    if isinstance(fv, Bound):
        fv = fv.fn
    if isinstance(fv, ContractFn):
        fv = fv.impl
    if isinstance(fv, (PropertyVal, StaticVal, ClassMethodVal)):
        fv = fv.fn
    try:
        np = len(f.node.args.posonlyargs + f.node.args.args)
        kwnames = {x.arg for x in f.node.args.kwonlyargs}
        for n, _ in c.params:
            if n in kwnames or n == "skip_lock":
                kw[n] = vals[n]
            elif f.node.args.kwarg is not None and n == f.node.args.kwarg.arg:
                kw.update(it.content(vals[n]).v)
            else:
                pos.append(vals[n])
        r = it.call(fv, pos, kw)
        r = it.await_(r)
        if isinstance(r, GenVal):
            if isinstance(c.ret, TList):
                r = it.new_box(HL(list(r.gen)))
            else:
                for _ in r.gen:
                    pass
                r = None
        it.pos = "return"
        ctx.post = View(it, it.st)
        if c.ret != TUnit:
            try:
                ctx.result = it.encode(r, c.ret) if not (callable(c.ret) and not isinstance(c.ret, Ty)) else r
            except Unsupported:
                if r is not None:
                    raise
                vc.prove(it, "returns a value", z3.BoolVal(False))
                return
        else:
            ctx.result = r
        if c.ghost_update:
            for g, t in c.ghost_update(ctx):
                it.set_ghost(g, t)
            ctx.post = View(it, it.st)
        vc.returns += 1
        vc.return_pcs.append([t for _, t in it.pc])
        for n, fn in c.ensures:
            vc.prove(it, f"postcondition '{n}'", fn(ctx))
        if c.define is not None:
            vc.prove(it, "postcondition 'result as defined'", ctx.result == c.define(ctx))
    except PyRaise as e:
        it.pos = "raise " + e.exc.cls.name
        ctx.post = View(it, it.st)
        ctx.exc = e.exc
        if c.raises_any and not any(e.exc.isa(n) for n, _, _ in c.raises):
            frame(it, vc, c)
            return
        for name, when, ens in c.raises:
            if e.exc.isa(name):
                if when is not None:
                    vc.prove(it, f"raises {name} only when allowed", when(ctx))
                for n, fn in ens:
                    vc.prove(it, f"on {name}: '{n}'", fn(ctx))
                break
        else:
            vc.prove(it, f"does not raise {e.exc.cls.name}", z3.BoolVal(False))
            return
    frame(it, vc, c)
    if c.fn:
        vc.prove(it, "result depends on the arguments only", not it.st.heap and not it.st.ghost)


def same_value(ty, a, b):
    """equality; the values of a dictionary outside its domain do not count"""
    if isinstance(ty, TDict):
        x = z3.Const("fr_key_" + ty.k.name, ty.k.sort())
        return z3.And(z3.ForAll([x], z3.Select(ty.dom(a), x) == z3.Select(ty.dom(b), x)),
                      z3.ForAll([x], z3.Implies(z3.Select(ty.dom(a), x), z3.Select(ty.val(a), x) == z3.Select(ty.val(b), x))))
    return a == b


def frame(it, vc, c):
    """what is not listed under modifies is unchanged"""
    pre = vc.pre
    mods = set(m if isinstance(m, str) else tuple(m) for m in c.modifies)
    r = z3.Int("fr_ref")
    for (cls, field), arr in it.st.heap.items():
        if ("heap", cls, field) in mods:
            continue
        old = pre.arr(cls, field)
        if arr.eq(old):
            continue
        ty = it.model.fields[(cls, field)]
        vc.prove(it, f"frame: {cls}.{field} of existing objects unchanged", z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < pre.alloc), same_value(ty, z3.Select(arr, r), z3.Select(old, r)))))
    for g, t in it.st.ghost.items():
        if ("ghost", g) in mods or g in it.model.scratch:
            continue
        old = pre.g(g)
        if t.eq(old):
            continue
        vc.prove(it, f"frame: ghost {g} unchanged", same_value(it.model.ghosts[g], t, old))
