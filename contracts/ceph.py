"""Snapshots of images: what is asked of the rbd command and of Consul (C05, C10, C11, C24).

The cluster is a set of snapshots ("pool/image@name"), which others may extend
at any time. The contents of a snapshot never change (EXPORT)."""
from .images import *  # noqa
from . import images

EXPORT = z3.Function("export", z3.StringSort(), BB)  # the bytes of a snapshot
SPECF = z3.Function("snapspec", z3.StringSort(), z3.StringSort(), z3.StringSort())
BACKYF = z3.Function("is_backy_snapshot", z3.StringSort(), z3.BoolSort())
CORE = z3.Function("backy_snapshot_name", z3.StringSort(), z3.StringSort())  # of the revision with this UUID
UNCORE = z3.Function("uuid_of_snapshot", z3.StringSort(), z3.StringSort())
UNSPEC = z3.Function("name_of_snapspec", z3.StringSort(), z3.StringSort(), z3.StringSort())
WELLF = z3.Function("is_snapshot_of_a_revision", z3.StringSort(), z3.BoolSort())
MINE = z3.Function("backy_request", z3.StringSort(), z3.BoolSort())
TSnap = TDict(TStr, TStr)
TReq = TTup(TBool, TStr, TStr)  # a request: readable, VM, snapshot
TKV = TDict(TStr, TReq)
sv_ = z3.StringVal


class Output(Opaque):
    """what a program has printed"""

    def __init__(self, value):
        self.name, self.value = "output", value


def setup(u, m=None):
    m = images.setup(u, m)
    N = SimpleNamespace(**u.ns)
    con, pos, copied, STREAMS = N.con, N.pos, N.copied, N.STREAMS
    m.fields.update({("CephRBD", "pool"): TStr, ("CephRBD", "image"): TStr, ("CephRBD", "always_full"): TBool, ("CephRBD", "vm"): TOpt(TStr), ("CephRBD", "consul_acl_token"): TOpt(TStr),
                     ("CephRBD", "rbd"): R("RBDClient"), ("CephRBD", "revision"): R("Revision"), ("Proc", "stdout"): TStream, ("Proc", "rc"): TInt})
    m.ghosts.update({"snaps": SetStr, "tried": SetStr, "kv": TKV, "deleted": SetStr, "mapped": TTup(TStr, TStr), "reported": TInt})
    has = lambda v, s: S(v.g("snaps"), s)
    me = lambda c: c.a("self")
    image = lambda v, c: z3.Concat(v.f("CephRBD", "pool", me(c)), sv_("/"), v.f("CephRBD", "image", me(c)))
    spec = lambda img, name: SPECF(img, name)
    x, y = bound("x", z3.StringSort()), bound("y", z3.StringSort())
    u.axioms.append(lambda it, pre: [FA([x], And(UNCORE(CORE(x)) == x, BACKYF(CORE(x))), [CORE(x)]), FA([x, y], UNSPEC(x, SPECF(x, y)) == y, [SPECF(x, y)])])

    def named(it, t):
        """what is meant by a specification (strings are left to the definitions)"""
        ps = []
        todo = [t]
        while todo:
            q = todo.pop(0)
            if z3.is_app_of(q, z3.Z3_OP_SEQ_CONCAT):
                todo = q.children() + todo
            elif z3.is_string_value(q) and ps and z3.is_string_value(ps[-1]):
                ps[-1] = sv_(ps[-1].as_string() + q.as_string())
            else:
                ps.append(q)
        cat = lambda l: z3.Concat(*l) if len(l) > 1 else l[0] if l else sv_("")
        for n, q in enumerate(ps):
            if z3.is_string_value(q) and "@" in q.as_string():
                a, b = q.as_string().split("@", 1)
                img, name = cat(ps[:n] + ([sv_(a)] if a else [])), cat(([sv_(b)] if b else []) + ps[n + 1:])
                it.assume(t == SPECF(img, name))
                if b == "backy-":
                    it.assume(name == CORE(cat(ps[n + 1:])))
                return SPECF(img, CORE(cat(ps[n + 1:])) if b == "backy-" else name)
        return t

    cpe = ExcClass("CalledProcessError", ["CalledProcessError", "SubprocessError", "Exception", "BaseException"])
    m.ext["subprocess.CalledProcessError"] = cpe

    def failed(it, rc=None):
        return PyRaise(ExcVal(cpe, [], {"returncode": Sym(TInt, it.fresh("returncode", z3.IntSort())) if rc is None else rc}))

    def set_snap(it, s, b):
        it.set_ghost("snaps", z3.Store(it.get_ghost("snaps"), s, z3.BoolVal(b)))

    def others_add(it):
        """others create snapshots"""
        old, new = it.get_ghost("snaps"), it.fresh("snaps", SetStr.sort())
        x = bound("x", z3.StringSort())
        it.assume(FA([x], Imp(S(old, x), S(new, x)), [S(new, x)]))
        it.set_ghost("snaps", new)

    def rbd(it, a, k):
        """subprocess.check_output for the rbd command"""
        cmd = it.host_list(a[0])
        words = [w if isinstance(w, str) else None for w in map(it.force, cmd)]
        arg = lambda i: it.encode(cmd[i], TStr)
        c = it.vc.ctx
        if words[1] == "info" and len(words) == 4 and words[3] == "--format=json":
            if it.choose(2, "rbd fails"):
                rc = it.fresh("returncode", z3.IntSort())
                it.assume(rc != 2)
                raise failed(it, Sym(TInt, rc))
            if not it.branch(S(it.get_ghost("snaps"), named(it, arg(2)))):
                raise failed(it, 2)
            return Output("info")
        if words[1:3] == ["snap", "ls"] and len(words) == 5 and words[4] == "--format=json":
            if it.choose(2, "rbd fails"):
                raise failed(it)
            others_add(it)
            TL = TList(TSnap)
            t = it.fresh("snapshots", TL.sort())
            sn = it.get_ghost("snaps")
            i, s = bound("i", z3.IntSort()), bound("s", z3.StringSort())
            name = lambda i: S(TSnap.val(S(TL.arr(t), i)), sv_("name"))
            img = arg(3)
            it.assume(TL.len(t) >= 0)
            it.assume(FA([i], Imp(And(0 <= i, i < TL.len(t)), And(BACKYF(name(i)) == z3.PrefixOf(sv_("backy-"), name(i)), WELLF(name(i)) == And(z3.PrefixOf(sv_("backy-"), name(i)), z3.IndexOf(name(i), sv_("backy-"), 1) < 0), S(TSnap.dom(S(TL.arr(t), i)), sv_("name")), S(sn, SPECF(img, name(i))))), [S(TL.arr(t), i)]))
            it.assume(FA([s], Imp(S(sn, SPECF(img, s)), z3.Exists([i], And(0 <= i, i < TL.len(t), name(i) == s))), [S(sn, SPECF(img, s))]))
            it.set_ghost("listed", TL.mk(TL.len(t), TL.arr(t)))
            return Output(it.decode(t, TL))
        if words[1:3] == ["snap", "rm"] and len(words) == 4:
            s = named(it, arg(3))
            it.set_ghost("tried", z3.Store(it.get_ghost("tried"), s, z3.BoolVal(True)))
            if it.choose(2, "rbd fails"):
                raise failed(it)
            set_snap(it, s, False)
            return Output("")
        if words[1:3] == ["snap", "create"] and len(words) == 4:
            if it.choose(2, "rbd fails"):
                raise failed(it)
            set_snap(it, named(it, arg(3)), True)
            return Output("")
        raise Unsupported(f"rbd {words}")

    m.ghosts["listed"] = TList(TSnap)

    def loads(it, a, k):
        v = it.force(a[0])
        if isinstance(v, Output):
            return v.value
        raise Unsupported("json.loads")

    def popen(it, a, k):
        """rbd export: all bytes of the snapshot if it is successful"""
        cmd = it.host_list(a[0])
        words = [w if isinstance(w, str) else None for w in map(it.force, cmd)]
        fails(it)
        if words[1] != "export" or len(words) != 4 or words[3] != "-":
            raise Unsupported(f"rbd {words}")
        s = named(it, it.encode(cmd[2], TStr))
        o = it.alloc("Proc")
        rc = it.fresh("rc", z3.IntSort())
        st = new_stream(it)
        b = S(it.heap_arr("Stream", "content"), st.ref)
        it.assume(Imp(rc == 0, And(S(it.get_ghost("snaps"), s), b == EXPORT(s))))
        it.heap_set("Proc", "stdout", o.ref, st.ref)
        it.heap_set("Proc", "rc", o.ref, rc)
        return o

    popen_export = popen
    m.methods["Proc", "wait"] = lambda it, a, k: Sym(TInt, S(it.heap_arr("Proc", "rc"), a[0].ref))
    m.ext.update({"subprocess.check_output": rbd, "json.loads": loads, "subprocess.Popen": popen, "traceback.format_stack": lambda it, a, k: it.new_box(HL([])), "subprocess.DEVNULL": Opaque("devnull"), "subprocess.PIPE": Opaque("pipe")})

    # ---------------------------------------------------------- full
    CE = "rbd:CephRBD."
    snapname = lambda c, v: spec(image(v, c), CORE(v.f("Revision", "uuid", v.f("CephRBD", "revision", me(c)))))
    NEWS = STREAMS + ["alloc", ("heap", "Stream", "regular"), ("heap", "Proc", "stdout"), ("heap", "Proc", "rc")]
    TGT = [("a new stream", lambda c: And(N.wf(c.pre, c.a("target")), LEN(con(c.pre, c.a("target"))) == 0, pos(c.pre, c.a("target")) == 0, c.a("target") < c.pre.alloc))]
    keep = lambda c: N.others_upto(c, c.a("target"))

    def full_inv(L):
        c = L.vc.ctx
        v, t = L.now, c.a("target")
        s = L.local("source", TStream)
        A, B = con(v, s), con(v, t)
        p = pos(v, s)
        i = bound("i", z3.IntSort())
        return [("the source is unchanged", And(A == con(L.entry, s), s == L.entry_local("source", TStream), s != t)), ("positions", And(p >= 0, p <= LEN(A), pos(v, t) == p)),
                ("what has been read has been written", And(ISB(A), ISB(B), LEN(B) == p, copied(A, B, p), FA([i], Imp(Or(i < 0, i >= p), at(B, i) == 0), [at(B, i)])))]

    u.contract(CE + "full", [("self", R("CephRBD")), ("target", TStream)], requires=TGT, modifies=NEWS,
               ensures=[("the target has the bytes of the snapshot", lambda c: And(has(c.pre, snapname(c, c.pre)), con(c.post, c.a("target")) == EXPORT(snapname(c, c.pre))))],
               raises=[("OSError", None, []), ("CalledProcessError", None, [])], loops={0: full_inv})
    # -------------------------------------------------------- verify
    def map_(it, a, k):
        """rbd map, showmapped (RBDClient.map): the device has the bytes of the snapshot"""
        s = named(it, it.encode(a[1], TStr))
        if it.choose(2, "rbd fails"):
            raise failed(it)
        if it.choose(2, "no mapping"):
            raise it.exc("RuntimeError")
        it.assume(S(it.get_ghost("snaps"), s))
        d = it.fresh("device", z3.StringSort())
        it.set_ghost("mapped", TTup(TStr, TStr).mk(d, s))
        t = it.fresh("mapping", TSnap.sort())
        it.assume(And(S(TSnap.dom(t), sv_("device")), S(TSnap.val(t), sv_("device")) == d))
        return it.decode(t, TSnap)

    def open_device(it, a, k):
        o = st_open(it, a, k)
        mp = it.get_ghost("mapped")
        b = S(it.heap_arr("Stream", "content"), o.ref)
        n = it.force(a[0])
        p = PATHOF(it.encode(n, TStr)) if isinstance(n, (str, Sym)) and not (isinstance(n, Sym) and n.ty != TStr) else as_path(it, n)
        it.assume(Imp(p == PATHOF(TTup(TStr, TStr).get(mp, 0)), b == EXPORT(TTup(TStr, TStr).get(mp, 1))))
        return o

    TMap = TTup(TStr, TStr)
    m.stubs["rbd.rbd:RBDClient.map"] = map_
    m.stubs["rbd.rbd:RBDClient.unmap"] = lambda it, a, k: None
    m.builtins["open"] = open_device

    def verified(c):
        """the blocks compared are the same in the snapshot"""
        j = bound("j", z3.IntSort())
        sm = c.post.g("sampled")
        s = S(LInt.arr(sm), j)
        return FA([j], Imp(And(0 <= j, j < LInt.len(sm)), same_range(EXPORT(snapname(c, c.pre)), con(c.pre, c.a("target")), s * CS, s * CS + CS)), [s])

    def rep(it):
        def f(it, a, k):
            it.set_ghost("reported", z3.simplify(it.get_ghost("reported") + 1))
        return Builtin("report", f)

    NOTED = ("only this is noted in the revision", lambda c: stats_kept(c))
    u.contract(CE + "verify", [("self", R("CephRBD")), ("target", TStream), ("report", rep)], ret=TBool,
               requires=[("a stream", lambda c: And(N.wf(c.pre, c.a("target")), c.a("target") < c.pre.alloc))],
               modifies=NEWS + [("ghost", x) for x in ("reports", "reported", "sampled", "clock", "mapped")] + [("heap", "Revision", "stats")],
               ensures=[("false only if target and snapshot differ, and this is reported", lambda c: Imp(Not(c.res), And(EXPORT(snapname(c, c.pre)) != con(c.pre, c.a("target")), c.post.g("reported") == c.pre.g("reported") + 1))),
                        ("true only if all sampled blocks are the same, or the time is over", lambda c: Imp(c.res, And(c.post.g("reported") == c.pre.g("reported"), Or(verified(c), c.post.g("clock") - c.pre.g("clock") > 240)))),
                        ("the target is unchanged", lambda c: con(c.post, c.a("target")) == con(c.pre, c.a("target"))),
                        NOTED],
               raises=[(n, None, [NOTED]) for n in ("OSError", "CalledProcessError", "RuntimeError")])

    def stats_kept(c):
        r = c.pre.f("CephRBD", "revision", me(c))
        a, b = c.pre.arr("Revision", "stats"), c.post.arr("Revision", "stats")
        q = bound("q", z3.IntSort())
        same = [TStats.has(S(b, r), f) == TStats.has(S(a, r), f) for f in ("duration", "bytes_written")]
        return And(FA([q], Imp(q != r, S(b, q) == S(a, q)), [S(b, q)]), *same)

    # -------------------------------------------------------- get_parent
    DIS = z3.IntVal(1)
    rev = lambda v, c: v.f("CephRBD", "revision", me(c))
    hist = lambda v, c: Hist(v, v.f("Revision", "repository", rev(v, c)))
    server = lambda v, c: v.f("Revision", "server", rev(v, c))
    uid = lambda v, r: v.f("Revision", "uuid", r)
    cand = lambda v, c, h, k: And(h.rng(k), h.f("server", k) == server(v, c), h.f("trust", k) != DIS)
    snap = lambda v, c, h, k: has(v, spec(image(v, c), CORE(h.f("uuid", k))))
    SAMEREPO = [("revisions know their repository, which knows them once", lambda c: And(rev(c.pre, c) < c.pre.alloc, N.wf_hist(c.pre, c.pre.f("Revision", "repository", rev(c.pre, c))), same_repo(c)))]

    def same_repo(c):
        h = hist(c.pre, c)
        k = bound("k", z3.IntSort())
        return FA([k], Imp(h.rng(k), c.pre.f("Revision", "repository", h.at(k)) == h.repo), [h.at(k)])

    m.ghosts["end"] = TInt  # position of the revision in the history, or its end
    stop = lambda v, c, h, k: And(cand(v, c, h, k), h.f("uuid", k) == uid(v, rev(v, c)))

    def is_stop(v, c, s):
        h = hist(v, c)
        k = bound("k", z3.IntSort())
        return And(0 <= s, s <= h.n, Or(s == h.n, stop(v, c, h, s)), FA([k], Imp(And(0 <= k, k < s), Not(stop(v, c, h, k))), [h.at(k)]))

    def set_stop(it, ctx, vals):
        """the first position with a property, or the end"""
        s = it.fresh("stop", z3.IntSort())
        it.assume(is_stop(ctx.pre, ctx, s))
        it.set_ghost("end", s)

    def nearer(v, c, h, j, s):
        """candidates between j and s have no snapshots"""
        k = bound("k", z3.IntSort())
        return FA([k], Imp(And(j < k, k < s, cand(v, c, h, k)), Not(snap(v, c, h, k))), [h.at(k)])

    def cp_inv(L):
        c, v = L.vc.ctx, L.now
        h = hist(v, c)
        s = v.g("end")
        o = L.local("revision", LOpt)
        r = LOpt.the(o)
        me_ = rev(v, c)
        j = bound("j", z3.IntSort())
        return [("a revision", Not(LOpt.is_none(o))), ("on the way back", Or(r == me_, z3.Exists([j], And(cand(v, c, h, j), j < s, h.at(j) == r, nearer(v, c, h, j - 1, s))))),
                ("of the same server and repository", And(v.f("Revision", "server", r) == server(v, c), v.f("Revision", "repository", r) == h.repo, r < c.pre.alloc)),
                ("this is the end of the search", is_stop(v, c, s))]

    def cp_post(c):
        v = c.pre
        h = hist(v, c)
        s = c.post.g("end")
        none = LOpt.is_none(c.res)
        r = LOpt.the(c.res)
        j = bound("j", z3.IntSort())
        full = v.f("CephRBD", "always_full", me(c))
        return And(Imp(Not(none), And(Not(full), z3.Exists([j], And(cand(v, c, h, j), j < s, snap(v, c, h, j), h.at(j) == r, nearer(v, c, h, j, s))))),
                   Imp(And(none, Not(full)), nearer(v, c, h, z3.IntVal(-1), s)))

    LOpt = TOpt(R("Revision"))
    u.contract(CE + "get_parent", [("self", R("CephRBD"))], ret=LOpt, requires=SAMEREPO, modifies=[("ghost", "end"), ("ghost", "stop")], before=set_stop,
               ensures=[("the latest revision before it with a snapshot, from the same server and not distrusted", cp_post), ("before the revision itself", lambda c: is_stop(c.pre, c, c.post.g("end")))],
               raises=[("CalledProcessError", None, [])], loops={0: cp_inv}, locals={"revision": LOpt})

    # ---------------------------------------------- _delete_old_snapshots
    m.ghosts["keep"] = TInt  # position of the last local revision, or -1
    TLS = TList(TSnap)
    lname = lambda v, i: S(TSnap.val(S(TLS.arr(v.g("listed")), i)), sv_("name"))

    def set_keep(it, ctx, vals):
        """the last position with a property, or none"""
        h = hist(ctx.pre, ctx)
        s = it.fresh("keep", z3.IntSort())
        it.set_ghost("keep", s)
        it.assume(is_keep(ctx.pre, ctx, s))

    def is_keep(v, c, s):
        h = hist(v, c)
        k = bound("k", z3.IntSort())
        loc = lambda k: h.f("server", k) == sv_("")
        return And(s >= -1, s < h.n, Imp(s >= 0, loc(s)), FA([k], Imp(And(s < k, k < h.n), Not(loc(k))), [h.at(k)]))

    def kept(v, c, name):
        s = v.g("keep")
        return And(s >= 0, Not(v.f("CephRBD", "always_full", me(c))), name == CORE(hist(v, c).f("uuid", s)))

    def stay(v0, v, c):
        z = bound("z", z3.StringSort())
        n = UNSPEC(image(v, c), z)
        return FA([z], Imp(And(has(v0, z), Not(has(v, z))), And(z == SPECF(image(v, c), n), BACKYF(n), Not(kept(v, c, n)))), [has(v, z)])

    def gone(v, c, upto):
        i = bound("i", z3.IntSort())
        return FA([i], Imp(And(0 <= i, i < upto, WELLF(lname(v, i)), Not(kept(v, c, lname(v, i)))), S(v.g("tried"), SPECF(image(v, c), lname(v, i)))), [S(TLS.arr(v.g("listed")), i)])

    STAY = ("snapshots of others and the one of the latest local revision stay", lambda c: stay(c.pre, c.post, c))
    u.contract(CE + "_delete_old_snapshots", [("self", R("CephRBD"))], requires=SAMEREPO + [("names of snapshots can be read", lambda c: readable(c))], before=set_keep,
               modifies=[("ghost", x) for x in ("snaps", "tried", "listed", "keep")],
               ensures=[STAY, ("all other snapshots of backups are removed, unless this fails", lambda c: gone(c.post, c, TLS.len(c.post.g("listed")))), ("the latest local revision", lambda c: is_keep(c.post, c, c.post.g("keep")))],
               raises=[("CalledProcessError", None, [STAY, ("the latest local revision", lambda c: is_keep(c.post, c, c.post.g("keep")))])],
               loops={0: lambda L: [(STAY[0], stay(L.pre, L.now, L.vc.ctx)), ("those met so far are removed", gone(L.now, L.vc.ctx, L.k)), ("the latest local revision", And(is_keep(L.now, L.vc.ctx, L.now.g("keep")), L.now.g("keep") == L.entry.g("keep")))]})

    def readable(c):
        """UUIDs are not names of snapshots"""
        h = hist(c.pre, c)
        k = bound("k", z3.IntSort())
        return FA([k], Imp(h.rng(k), And(Not(z3.Contains(h.f("uuid", k), sv_("backy-"))), CORE(h.f("uuid", k)) == z3.Concat(sv_("backy-"), h.f("uuid", k)))), [h.at(k)])

    # --------------------------------------------------- create_snapshot
    TL = TList(TStr)
    INSNAP = z3.Function("is_snapshot_request", z3.StringSort(), z3.BoolSort())
    vm = lambda v, c: TOpt(TStr).the(v.f("CephRBD", "vm", me(c)))
    m.fields.update({("Consul", "kv"): R("KV"), ("KV", "x"): TInt})
    m.ghosts["requests"] = TL
    kdom = lambda v, k: S(TKV.dom(v.g("kv")), k)
    kval = lambda v, k: S(TKV.val(v.g("kv")), k)
    mine = lambda v, c, q: And(TReq.get(q, 0), TReq.get(q, 1) == vm(v, c), BACKYF(TReq.get(q, 2)))
    jsonerr = ExcClass("JSONDecodeError", ["JSONDecodeError", "ValueError", "Exception", "BaseException"])

    def setkv(it, d, v):
        it.set_ghost("kv", TKV.mk(d, v))

    def kv_set(it, a, k):
        key, d = it.encode(a[1], TStr), it.content(a[2])
        kv = it.get_ghost("kv")
        if not isinstance(d, HD):
            raise Unsupported("request")
        r = it.getitem(a[2], "vm"), it.getitem(a[2], "snapshot")
        it.assume(INSNAP(key) == z3.PrefixOf(sv_("snapshot/"), key))
        setkv(it, z3.Store(TKV.dom(kv), key, z3.BoolVal(True)), z3.Store(TKV.val(kv), key, TReq.mk(z3.BoolVal(True), it.encode(r[0], TStr), it.encode(r[1], TStr))))

    def kv_get(it, a, k):
        key, kv = it.encode(a[1], TStr), it.get_ghost("kv")
        if it.choose(2, "removed by somebody else") or not it.branch(S(TKV.dom(kv), key)):
            setkv(it, z3.Store(TKV.dom(kv), key, z3.BoolVal(False)), TKV.val(kv))
            raise it.exc("KeyError")
        return Output(Request(S(TKV.val(kv), key)))

    class Request:
        def __init__(self, t):
            self.t = t

    def kv_del(it, a, k):
        key, kv = it.encode(a[1], TStr), it.get_ghost("kv")
        c = it.vc.ctx
        q = S(TKV.val(kv), key)
        it.vc.prove(it, "only garbage and requests for snapshots of backups of this VM are removed", Or(Not(TReq.get(q, 0)), mine(c.pre, c, q)))
        setkv(it, z3.Store(TKV.dom(kv), key, z3.BoolVal(False)), TKV.val(kv))

    def kv_find(it, a, k):
        if it.force(a[1]) != "snapshot/":
            raise Unsupported("kv.find")
        t = it.fresh("requests", TL.sort())
        kv = it.get_ghost("kv")
        i, q = bound("i", z3.IntSort()), bound("q", z3.StringSort())
        it.assume(TL.len(t) >= 0)
        it.assume(FA([i], Imp(And(0 <= i, i < TL.len(t)), And(INSNAP(S(TL.arr(t), i)), S(TKV.dom(kv), S(TL.arr(t), i)))), [S(TL.arr(t), i)]))
        it.assume(FA([q], Imp(And(INSNAP(q), S(TKV.dom(kv), q)), z3.Exists([i], And(0 <= i, i < TL.len(t), S(TL.arr(t), i) == q))), [S(TKV.dom(kv), q)]))
        it.set_ghost("requests", TL.mk(TL.len(t), TL.arr(t)))
        return it.decode(t, TL)

    def loads_request(it, a, k):
        v = it.force(a[0])
        if isinstance(v, Output) and isinstance(v.value, Request):
            q = v.value.t
            if not it.branch(TReq.get(q, 0)):
                raise PyRaise(ExcVal(jsonerr, []))
            d = it.fresh("request", TSnap.sort())
            it.assume(And(S(TSnap.dom(d), sv_("vm")), S(TSnap.dom(d), sv_("snapshot")), S(TSnap.val(d), sv_("vm")) == TReq.get(q, 1), S(TSnap.val(d), sv_("snapshot")) == TReq.get(q, 2), BACKYF(TReq.get(q, 2)) == z3.PrefixOf(sv_("backy-"), TReq.get(q, 2))))
            return it.decode(d, TSnap)
        return loads(it, a, k)

    def consul(it, a, k):
        o = it.alloc("Consul")
        it.heap_set("Consul", "kv", o.ref, it.alloc("KV").ref)
        return o

    for n, f in (("__setitem__", kv_set), ("__getitem__", kv_get), ("__delitem__", kv_del), ("find", kv_find)):
        m.methods["KV", n] = f
    m.ext.update({"consulate.Consul": consul, "json.loads": loads_request, "json.decoder.JSONDecodeError": jsonerr, "uuid.uuid4": lambda it, a, k: Sym(TStr, it.fresh("uuid", z3.StringSort()))})
    asked = lambda v, c: And(Not(TOpt(TStr).is_none(v.f("CephRBD", "vm", me(c)))), Not(TOpt(TStr).is_none(v.f("CephRBD", "consul_acl_token", me(c)))), vm(v, c) != sv_(""), TOpt(TStr).the(v.f("CephRBD", "consul_acl_token", me(c))) != sv_(""))

    def only_mine(v0, v, c):
        """no request is changed, and none added to those there were (and the new one)"""
        q = bound("q", z3.StringSort())
        return FA([q], Imp(kdom(v, q), And(kdom(v0, q), kval(v, q) == kval(v0, q))), [kdom(v, q)])

    def cleaned(c):
        q = bound("q", z3.StringSort())
        return Imp(asked(c.pre, c), FA([q], Imp(And(INSNAP(q), kdom(c.post, q)), And(TReq.get(kval(c.post, q), 0), Not(mine(c.pre, c, kval(c.post, q))))), [kdom(c.post, q)]))

    def grows(v0, v):
        z = bound("z", z3.StringSort())
        return FA([z], Imp(has(v0, z), has(v, z)), [has(v, z)])

    def del_inv(L):
        c, v = L.vc.ctx, L.now
        i = bound("i", z3.IntSort())
        r = S(TL.arr(v.g("requests")), i)
        bad = Or(Not(TReq.get(kval(v, r), 0)), mine(c.pre, c, kval(v, r)))
        return [("no request met so far is left", FA([i], Imp(And(0 <= i, i < L.k, kdom(v, r)), Not(bad)), [r])), ("nothing else has changed", only_mine(L.entry, v, c))]

    CLEAN = [("no request for a snapshot is left", cleaned), ("no snapshot is removed", lambda c: grows(c.pre, c.post))]
    u.contract(CE + "create_snapshot", [("self", R("CephRBD")), ("name", TStr)],
               modifies=[("ghost", x) for x in ("snaps", "listed", "kv", "requests", "clock")] + ["alloc", ("heap", "Consul", "kv")] + [("heap", "TimeOut", f) for f in ("remaining", "cutoff", "interval", "timed_out", "first", "raise_on_timeout")],
               ensures=[("there is such a snapshot", lambda c: has(c.post, SPECF(image(c.pre, c), c.a("name"))))] + CLEAN,
               raises=[("CalledProcessError", None, CLEAN), ("TimeOutError", lambda c: z3.BoolVal(False), [])],
               loops={0: lambda L: [("no snapshot is removed", grows(L.pre, L.now))], 2: del_inv, 1: lambda L: []})

    u.ns = {**u.ns, **locals()}
    return m
