"""What a job does with peers and with the source command (C20, C21, C23)."""
from types import SimpleNamespace

from pyvc.verify import View

from .hist import *  # noqa
from . import hist

SCH = "daemon.scheduler:Job."
SRC = "source:CmdLineSource."
IS, SS = z3.IntSort(), z3.StringSort()
TCmd = TList(TStr)
TProc = TOpq("Process")
sv_ = z3.StringVal


def setup(u):
    m = hist.setup(u)
    N = SimpleNamespace(**u.ns)
    m.fields.update({("Job", "name"): TStr, ("Job", "source"): R("AsyncCmdLineSource"), ("Job", "daemon"): R("BackyDaemon"), ("AsyncCmdLineSource", "repository"): R("Repository"),
                     ("CmdLineSource", "repository"): R("Repository"), ("Client", "server_name"): TStr})
    m.ghosts.update({"ran": TCmd, "rc": TInt, "written": TBool})
    me = lambda c: c.a("self")
    repo = lambda v, c: v.f("AsyncCmdLineSource", "repository", v.f("Job", "source", me(c)))
    J = [("self", R("Job"))]

    # ------------------------------------------------- the source command
    RC = z3.Function("returncode_of", TProc.sort(), IS)

    def run(it, a, k):
        if it.choose(2, "the command cannot be started"):
            raise it.exc("OSError")
        words = [it.encode(x, TStr) for x in a]
        arr = it.fresh("cmd", z3.ArraySort(IS, SS))
        for i, w in enumerate(words):
            it.assume(S(arr, i) == w)
        it.set_ghost("ran", TCmd.mk(z3.IntVal(len(words)), arr))
        p = it.fresh("process", TProc.sort())
        it.set_ghost("rc", RC(p))
        return Sym(TProc, p)

    def wait(it, v, a, k):
        if it.choose(2, "cancelled"):
            raise it.exc("CancelledError")
        return Sym(TInt, RC(v.t))

    def terminate(it, v, a, k):
        if it.choose(2, "gone"):
            raise it.exc("ProcessLookupError")

    m.ext["asyncio.create_subprocess_exec"] = run
    m.ext["subprocess.run"] = lambda it, a, k: run(it, it.host_list(a[0]), k)
    m.ext["subprocess.DEVNULL"] = Opaque("devnull")
    o = m.opq_methods
    o[TProc.name, "wait"], o[TProc.name, "terminate"] = wait, terminate
    o[TProc.name, "pid"] = property(lambda it, v: Opaque("pid"))
    o[TProc.name, "returncode"] = property(lambda it, v: Sym(TInt, RC(v.t)))
    for n in ("taskid", "subcommand"):
        u.contract(SRC + n, [("self", R("CmdLineSource"))], ret=TStr, trusted=True)
    u.contract("revision:Revision.materialize", [("self", R("Revision"))], modifies=[("ghost", "files"), "alloc"], trusted=True,
               ensures=[("the metadata file holds the fields", lambda c: And(exists_file(c.post, rev_path(c.pre, me(c))), saved(c.pre, me(c), content(c.post, rev_path(c.pre, me(c)))))),
                        ("no other file has changed", lambda c: other_files_same(c.pre, c.post, rev_path(c.pre, me(c))))],
               raises=[("OSError", None, [("existing files are unchanged", lambda c: existing_same(c.pre, c.post))])])
    m.stubs["revision:shortuuid.uuid"] = m.ext["shortuuid.uuid"] = lambda it, a, k: new_uuid(it)

    def new_uuid(it):
        x = it.fresh("uuid", SS)
        it.assume(x != sv_(""))
        return Sym(TStr, x)

    word = lambda v, i: S(TCmd.arr(v.g("ran")), i)

    def backed_up(c):
        p = repo(c.pre, c)
        path = REVP(c.pre.f("Repository", "path", p), word(c.post, 6))
        d = content(c.post, path)
        return And(c.post.g("rc") == 0, TCmd.len(c.post.g("ran")) == 7, word(c.post, 5) == sv_("backup"), exists_file(c.post, path), D_["uuid"](d) == word(c.post, 6), D_["tags"](d) == c.a("tags"),
                   D_["server"](d) == sv_(""), other_files_same(c.pre, c.post, path))

    u.contract(SCH + "run_backup", J + [("tags", SetStr)], modifies=[("ghost", "files"), ("ghost", "ran"), ("ghost", "rc"), ("ghost", "clock"), "alloc"],
               ensures=[("the backup command has run for a new revision with these tags, and has returned 0", backed_up)],
               raises=[("RuntimeError", lambda c: c.post.g("rc") != 0, []), ("OSError", None, []), ("CancelledError", None, [])])
    # ------------------------------------------------------------- peers
    TDoc = TOpq("RevDict")
    DX = {n: z3.Function("dict_" + n, TDoc.sort(), ty.sort()) for n, ty in DOC_FIELDS.items() if n in D_}
    CERR = {n: ExcClass(n, [n] + x + ["ClientError", "Exception", "BaseException"]) for n, x in (("ClientResponseError", []), ("ClientConnectionError", []))}
    CERR["ClientError"] = ExcClass("ClientError", ["ClientError", "Exception", "BaseException"])
    for n, e in CERR.items():
        m.ext["aiohttp." + n] = e
    m.ext["HTTPNotFound.status_code"] = 404
    m.ext["HTTPForbidden.status_code"] = 403
    m.ghosts.update({"reach": TInt, "reported": LRev, "accepted": SetStr})
    UU = lambda p: NAME(UNADD(p))
    LEN_, AT = LRev.len, lambda t, k: S(LRev.arr(t), k)
    POSN = z3.Function("position_of", LRev.sort(), SS, IS)

    def request(it):
        """what may happen to a request (reach: 0 done, 1 refused, 2 not reached)"""
        o = it.choose(5, "request")
        if o == 0:
            return
        if o == 4:
            raise it.exc("CancelledError")
        it.set_ghost("reach", z3.IntVal(2 if o == 2 else 1))
        raise PyRaise(ExcVal(CERR[["", "ClientResponseError", "ClientConnectionError", "ClientError"][o]], [], {"status": Sym(TInt, it.fresh("status", IS))}))

    m.methods["Client", "touch_backup"] = m.methods["Client", "run_purge"] = lambda it, a, k: request(it)

    def get_revs(it, a, k):
        """new revisions with what the peer has recorded for its own"""
        request(it)
        r, n0 = it.force(a[1]), it.st.alloc
        for f in ("server", "uuid", "tags", "orig_tags", "trust", "timestamp", "stats", "repository"):
            it.heap_arr("Revision", f)
        n1 = it.fresh("alloc", IS)
        it.assume(n1 >= n0)
        it.st.alloc = n1
        v = View(it, it.st)
        t = it.fresh("remote_revs", LRev.sort())
        i = bound("i", IS)
        it.assume(LEN_(t) >= 0)
        f = lambda n, i: v.f("Revision", n, AT(t, i))
        it.assume(FA([i], Imp(And(0 <= i, i < LEN_(t)), And(n0 <= AT(t, i), AT(t, i) < n1, f("server", i) == v.f("Client", "server_name", a[0].ref), f("orig_tags", i) == f("tags", i), f("repository", i) == r.ref,
                                                            f("uuid", i) != sv_(""), 0 <= f("trust", i), f("trust", i) <= 2, POSN(t, f("uuid", i)) == i)), [AT(t, i)]))
        it.set_ghost("reported", t)
        return it.decode(t, LRev)

    m.methods["Client", "get_revs"] = get_revs

    def as_doc(it, v):
        """a dictionary with all entries of a revision"""
        d = it.content(v) if isinstance(v, Box) else None
        if not isinstance(d, HD) or any(n not in d.v for n in DX):
            raise Unsupported("a document of a revision without all its entries")
        t = it.fresh("document", TDoc.sort())
        for n, f in DX.items():
            x = lib.to_set(it, d.v[n]) if isinstance(DOC_FIELDS[n], TSet) else d.v[n]
            it.assume(f(t) == it.encode(x, DOC_FIELDS[n]))
        return t

    m.encoders[TDoc.name] = as_doc
    u.contract("revision:Revision.to_dict", [("self", R("Revision"))], ret=TDoc,
               ensures=[("the fields", lambda c: And(*[DX[n](c.res) == (trust_value(c.pre.f("Revision", n, me(c))) if n == "trust" else c.pre.f("Revision", n, me(c))) for n in DX]))])

    path0 = lambda c: c.pre.f("Repository", "path", repo(c.pre, c))
    name = lambda c: c.pre.f("Client", "server_name", c.a("api"))
    LOCALDOC = lambda v, p: D_["server"](content(v, p)) == sv_("")

    def there(v, r):
        """every revision of the history is what its metadata file says, and every metadata file has one"""
        h = Hist(v, r)
        p = lambda i: REVP(v.f("Repository", "path", r), h.f("uuid", i))
        return And(forall_int(lambda i: Imp(h.rng(i), And(rev_file(v, r, p(i)), loaded(v, h.at(i), content(v, p(i))))), pats=lambda i: [h.at(i)]), N.complete_scan(v, v, r))

    PULLPRE = [("history well-formed", lambda c: And(N.wf_hist(c.pre, repo(c.pre, c)), N.wf_index(c.pre, repo(c.pre, c)))), ("the history is what the metadata files say", lambda c: there(c.pre, repo(c.pre, c))),
               ("metadata files are well-formed and named by their UUID", lambda c: wf_dir(c.pre, repo(c.pre, c))), ("a peer has a name", lambda c: name(c) != sv_(""))]

    def files_at(c, b, cond):
        """all files for which cond(p) holds are as before"""
        p = bound("p", P)
        f = b.g("files")
        return FA([p], Imp(cond(p), N.same_file(c.pre, b, p)), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])

    islocal = lambda c, p: And(rev_file(c.pre, repo(c.pre, c), p), LOCALDOC(c.pre, p))

    def is_rep(t, v, x, n=None):
        """this UUID is among those reported"""
        k = POSN(t, x)
        return And(0 <= k, k < (LEN_(t) if n is None else n), v.f("Revision", "uuid", AT(t, k)) == x)

    def rm_inv(L):
        c, e, v = L.vc.ctx, L.entry, L.now
        s = L.seq0
        r = repo(e, c)
        h, h0 = Hist(v, r), Hist(e, r)
        by0, by = e.f("Repository", "_by_uuid", r), v.f("Repository", "_by_uuid", r)
        x, q, p = bound("x", SS), bound("q", IS), bound("p", P)
        gone = lambda x: And(S(s.dom, x), s.idx(x) < L.k)
        f = v.g("files")
        return [("history well-formed", And(N.wf_hist(v, r), N.wf_index(v, r))),
                ("the index loses those passed", FA([x], S(TBY_.dom(by), x) == And(S(TBY_.dom(by0), x), Not(gone(x))), [S(TBY_.dom(by), x)])), ("index values are unchanged", TBY_.val(by) == TBY_.val(by0)),
                ("tags are unchanged", FA([q], S(v.arr("Revision", "tags"), q) == S(e.arr("Revision", "tags"), q), [S(v.arr("Revision", "tags"), q)])),
                ("metadata files of those passed are gone, all others are unchanged", FA([p], z3.If(And(gone(UU(p)), p == REVP(path0(c), UU(p))), Not(S(TFiles.dom(f), p)), N.same_file(e, v, p)), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])),
                ("other repositories are unchanged", N.other_repos(e, v, r)), ("allocation grows", v.alloc >= e.alloc)]

    TBY_ = TDict(TStr, R("Revision"))

    def recorded(c, v, q, cont):
        return saved(v, q, cont)

    def wr_inv(L):
        c, e, v = L.vc.ctx, L.entry, L.now
        t = v.g("reported")
        p = bound("p", P)
        f = v.g("files")
        mine = lambda p: And(p == REVP(path0(c), UU(p)), is_rep(t, v, UU(p), L.k), Not(islocal(c, p)))
        return [("those passed are recorded, unless a local revision has the UUID; all other files are unchanged",
                 FA([p], z3.If(mine(p), And(S(TFiles.dom(f), p), saved(v, AT(t, POSN(t, UU(p))), S(TFiles.val(f), p))), N.same_file(e, v, p)), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])),
                ("allocation grows", v.alloc >= e.alloc)]

    def reached(c):
        return c.post.g("reach") != 2

    def pulled(c):
        """what is recorded for the peer is what it has reported"""
        v, t, p = c.post, c.post.g("reported"), bound("p", P)
        f = v.g("files")
        rep = z3.If(c.post.g("reach") == 0, LEN_(t), 0)
        return FA([p], Imp(And(p == REVP(path0(c), UU(p)), Not(islocal(c, p))),
                           z3.If(is_rep(t, v, UU(p), rep), And(S(TFiles.dom(f), p), saved(v, AT(t, POSN(t, UU(p))), S(TFiles.val(f), p))),
                                 z3.If(And(rev_file(c.pre, repo(c.pre, c), p), D_["server"](content(c.pre, p)) == name(c)), Not(S(TFiles.dom(f), p)), N.same_file(c.pre, v, p)))), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])

    MODS = [("ghost", "files"), ("heap", "Repository", "history"), ("heap", "Repository", "_by_uuid"), ("heap", "Revision", "tags"), "alloc"]
    LOCALSAME = ("no local revision is modified, removed or replaced", lambda c: files_at(c, c.post, lambda p: And(exists_file(c.pre, p), islocal(c, p))))
    u.contract(SCH + "_pull_metadata_single", J + [("api", R("Client"))], ret=TBool, requires=PULLPRE + [("nothing has been asked", lambda c: c.pre.g("reach") == 0)],
               modifies=MODS + [("ghost", "reach"), ("ghost", "reported")],
               ensures=[LOCALSAME, ("nothing changes if the peer is not reached", lambda c: Imp(Not(reached(c)), files_at(c, c.post, lambda p: z3.BoolVal(True)))),
                        ("otherwise the revisions recorded for the peer are those it has reported, and others are unchanged", lambda c: Imp(reached(c), pulled(c)))],
               raises=[("OSError", None, [LOCALSAME]), ("CancelledError", None, [LOCALSAME])], loops={0: rm_inv, 1: wr_inv})
    # -------------------------------------------------------------- push
    acc = lambda v, x: S(v.g("accepted"), x)
    u.contract("daemon.api:Client.put_tags", [("self", R("Client")), ("rev", R("Revision")), ("autoremove", TBool)], trusted=True, modifies=[("ghost", "accepted")],
               requires=[("a revision without tags is to be removed", lambda c: c.a("autoremove"))],
               ensures=[("the peer has accepted the edit", lambda c: c.post.g("accepted") == z3.Store(c.pre.g("accepted"), c.pre.f("Revision", "uuid", c.a("rev")), z3.BoolVal(True)))],
               raises=[(n, None, [("the edit is not accepted", lambda c: c.post.g("accepted") == c.pre.g("accepted"))]) for n in ("ClientResponseError", "ClientConnectionError", "ClientError", "CancelledError")])
    in_revs = lambda c, k: And(0 <= k, k < LEN_(c.a("revs")))
    revk = lambda c, k: AT(c.a("revs"), k)

    def pushed(c, v, k):
        """what becomes of the revision of an accepted edit"""
        q = revk(c, k)
        x, f = c.pre.f("Revision", "uuid", q), v.g("files")
        p = REVP(path0(c), x)
        d = S(TFiles.val(f), p)
        fld = lambda n: c.pre.f("Revision", n, q)
        new = And(S(TFiles.dom(f), p), *[D_[n](d) == fld(n) for n in ("uuid", "timestamp", "stats", "tags", "server")], D_["orig_tags"](d) == fld("tags"), D_["trust"](d) == trust_value(fld("trust")))
        return z3.If(fld("tags") == SetStr.empty(), Not(S(TFiles.dom(f), p)), new)

    def push_files(c, v, n):
        """accepted edits are recorded (the last one that has been asked for may be missing), nothing else changes"""
        p = bound("p", P)
        f = v.g("files")
        others = FA([p], Or(N.same_file(c.pre, v, p), And(p == REVP(path0(c), UU(p)), acc(v, UU(p)))), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])
        done = forall_int(lambda k: Imp(And(0 <= k, k < n, acc(v, c.pre.f("Revision", "uuid", revk(c, k)))), pushed(c, v, k)), pats=lambda k: [revk(c, k)])
        return And(others, done)

    def push_inv(L):
        c, e, v = L.vc.ctx, L.entry, L.now
        n = LEN_(c.a("revs"))
        r = repo(c.pre, c)
        q = bound("q", IS)
        uu = lambda k: c.pre.f("Revision", "uuid", revk(c, k))
        return [("accepted edits are recorded, nothing else changes", push_files(c, v, L.k)), ("history well-formed", N.wf_hist(v, r)),
                ("revisions to come have not been asked for", forall_int(lambda k: Imp(And(L.k <= k, k < n), Not(acc(v, uu(k)))), pats=lambda k: [revk(c, k)])),
                ("tags are unchanged", FA([q], S(v.arr("Revision", "tags"), q) == S(c.pre.arr("Revision", "tags"), q), [S(v.arr("Revision", "tags"), q)])),
                ("edits which are not accepted stay pending", forall_int(lambda k: Imp(And(0 <= k, k < n, Not(acc(v, uu(k)))), v.f("Revision", "orig_tags", revk(c, k)) == c.pre.f("Revision", "orig_tags", revk(c, k))), pats=lambda k: [revk(c, k)])),
                ("other revisions are unchanged", FA([q], Imp(forall_int(lambda k: Imp(in_revs(c, k), revk(c, k) != q), pats=lambda k: [revk(c, k)]), S(v.arr("Revision", "orig_tags"), q) == S(c.pre.arr("Revision", "orig_tags"), q)), [S(v.arr("Revision", "orig_tags"), q)])),
                ("without an error all are accepted", Imp(Not(L.local("error", TBool)), forall_int(lambda k: Imp(And(0 <= k, k < L.k), acc(v, uu(k))), pats=lambda k: [revk(c, k)]))),
                ("other repositories are unchanged", N.other_repos(e, v, r)), ("allocation grows", v.alloc >= e.alloc)]

    def distinct(c):
        i, j = bound("i", IS), bound("j", IS)
        r = repo(c.pre, c)
        h = Hist(c.pre, r)
        by = c.pre.f("Repository", "_by_uuid", r)
        return And(LEN_(c.a("revs")) >= 0, FA([i], Imp(in_revs(c, i), And(S(TBY_.dom(by), c.pre.f("Revision", "uuid", revk(c, i))), S(TBY_.val(by), c.pre.f("Revision", "uuid", revk(c, i))) == revk(c, i), c.pre.f("Revision", "repository", revk(c, i)) == r)), [revk(c, i)]),
                   FA([i, j], Imp(And(in_revs(c, i), in_revs(c, j), i != j), revk(c, i) != revk(c, j)), [z3.MultiPattern(revk(c, i), revk(c, j))]))

    def pending(c, v, weak=False):
        uu = lambda k: c.pre.f("Revision", "uuid", revk(c, k))
        return forall_int(lambda k: Imp(And(in_revs(c, k), Not(acc(v, uu(k)))), And(Imp(exists_file(c.pre, REVP(path0(c), uu(k))) if weak else z3.BoolVal(True), N.same_file(c.pre, v, REVP(path0(c), uu(k)))), v.f("Revision", "orig_tags", revk(c, k)) == c.pre.f("Revision", "orig_tags", revk(c, k)))), pats=lambda k: [revk(c, k)])

    PENDING = ("edits which are not accepted stay pending", lambda c: pending(c, c.post))
    u.contract(SCH + "_push_metadata_single", J + [("api", R("Client")), ("revs", LRev)], ret=TBool,
               requires=[("history well-formed", lambda c: And(N.wf_hist(c.pre, repo(c.pre, c)), N.wf_index(c.pre, repo(c.pre, c)))), ("different revisions of the history", distinct), ("nothing has been asked", lambda c: c.pre.g("accepted") == SetStr.empty())],
               modifies=MODS + [("heap", "Revision", "orig_tags"), ("ghost", "accepted"), ("ghost", "reach")],
               ensures=[("accepted edits are recorded as synchronised, or the revision is removed; nothing else changes", lambda c: push_files(c, c.post, LEN_(c.a("revs")))), PENDING,
                        ("without an error all are accepted", lambda c: Imp(Not(c.res), forall_int(lambda k: Imp(in_revs(c, k), acc(c.post, c.pre.f("Revision", "uuid", revk(c, k)))), pats=lambda k: [revk(c, k)])))],
               raises=[("OSError", None, [(PENDING[0], lambda c: pending(c, c.post, True))]), ("CancelledError", None, [PENDING])], loops={0: push_inv})
    u.ns = {**u.ns, **locals()}
    return m
