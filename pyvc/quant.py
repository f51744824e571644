import z3


def bad_pattern(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if isinstance(x, z3.PatternRef):
            todo.extend(x.children())
            continue
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return True
        todo.extend(x.children())
    return False


def _vars_in(t, vs):
    found, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        for i, v in enumerate(vs):
            if x.eq(v):
                found.add(i)
        todo.extend(x.children())
    return len(found) == len(vs)


def FORALL(vs, body, patterns=None):
    """quantifier; patterns which the solver would refuse are dropped"""
    ps = []
    for p in patterns or []:
        if bad_pattern(p):
            continue
        if not isinstance(p, z3.PatternRef) and not _vars_in(p, vs):
            continue
        if not isinstance(p, z3.PatternRef) and any(p.eq(v) for v in vs):
            continue
        ps.append(p)
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


_canon = {}


def _has_q(t):
    """how deep quantifiers are nested"""
    k = ("q", t.get_id())
    if k in _canon:
        return _canon[k][1]
    r = max([_has_q(c) for c in t.children()], default=0) + (1 if z3.is_quantifier(t) else 0)
    _canon[k] = (t, r)
    return r


def canon(t):
    """the same formula with bound variables named by their position: equal
    formulas which differ in names only become identical"""
    k = t.get_id()
    if k in _canon:
        return _canon[k][1]
    if not _has_q(t):
        r = t
    elif z3.is_quantifier(t):
        if t.is_lambda():
            r = t
        else:
            ctx = t.ctx
            body = canon(t.body())
            n, h = t.num_vars(), _has_q(t)
            names = (z3.z3types.Symbol * n)(*[z3.Z3_mk_string_symbol(ctx.ref(), f"b{h}_{i}") for i in range(n)])
            sorts = (z3.z3types.Sort * n)(*[t.var_sort(i).ast for i in range(n)])
            ps = [t.pattern(i) for i in range(t.num_patterns())]
            pats = (z3.z3types.Pattern * len(ps))(*[p.ast for p in ps])
            r = z3.QuantifierRef(z3.Z3_mk_quantifier(ctx.ref(), t.is_forall(), t.weight(), len(ps), pats, n, sorts, names, body.as_ast()), ctx)
    else:
        cs = [canon(c) for c in t.children()]
        r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else t.decl()(*cs) if not z3.is_and(t) and not z3.is_or(t) else (z3.And(*cs) if z3.is_and(t) else z3.Or(*cs))
    _canon[k] = (t, r)
    return r


# ------------------------------------------------ selection of assumptions
_syms = {}


def symbols(t):
    """names of the uninterpreted functions and constants of a formula"""
    k = t.get_id()
    if k in _syms:
        return _syms[k][1]
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    _syms[k] = (t, out)
    return out


def flat(t):
    return [y for c in t.children() for y in flat(c)] if z3.is_and(t) else [t]


def relevant(pc, goal, tolerance, depth):
    """the assumptions which share symbols with the goal, directly or through
    others, where a symbol leads to those assumptions in which it is among the
    rarest. (Proving from fewer assumptions is sound.)"""
    facts = [x for a in pc for x in flat(a)]
    sy = [symbols(f) for f in facts]
    occ = {}
    for x in sy:
        for n in x:
            occ[n] = occ.get(n, 0) + 1
    trig = []
    for x in sy:
        m = min([occ[n] for n in x], default=0)
        trig.append({n for n in x if occ[n] <= tolerance * m} if x else None)
    cur, got = set(symbols(goal)), set()
    for _ in range(depth):
        new = [i for i in range(len(facts)) if i not in got and (trig[i] is None or trig[i] & cur)]
        if not new:
            break
        got.update(new)
        for i in new:
            cur |= sy[i]
    return [facts[i] for i in sorted(got)], len(got) == len(facts)
