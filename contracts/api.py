"""The API: authentication, and which backups may be changed (C19, C20)."""
from types import SimpleNamespace

from .expire import *  # noqa
from . import expire

SS, IS, BS = z3.StringSort(), z3.IntSort(), z3.BoolSort()
TReq, THead, TQuery, TMatch, TJSON, TResp, TSite, TRunner = [TOpq(x) for x in ("Request", "Headers", "Query", "MatchInfo", "RequestJSON", "Response", "TCPSite", "AppRunner")]
RQ = TReq.sort()
HAS_AUTH, AUTH = z3.Function("has_authorization", RQ, BS), z3.Function("authorization", RQ, SS)
HASQ, QV = z3.Function("has_query", RQ, SS, BS), z3.Function("query", RQ, SS, SS)
MATCH = z3.Function("match_info", RQ, SS, SS)
HASJ, JV = z3.Function("has_json", RQ, SS, BS), z3.Function("json_set", RQ, SS, SetStr.sort())
REQ_OF = {t.name: z3.Function("request_of_" + t.name, t.sort(), RQ) for t in (THead, TQuery, TMatch, TJSON)}
API, DAE = "daemon.api:BackyAPI.", "daemon:BackyDaemon."
TTok, TDead, TJobs = TDict(TStr, TStr), TDict(TStr, R("Repository")), TDict(TStr, R("Job"))
TAddr = TTup(TStr, TInt)
HTTP = ["HTTPAccepted", "HTTPBadRequest", "HTTPForbidden", "HTTPNotFound", "HTTPPreconditionFailed", "HTTPServiceUnavailable", "HTTPUnauthorized", "HTTPNoContent", "HTTPException"]


class Sub:
    """the context of a callee, for given arguments"""

    def __init__(this, c, /, **args):
        this.it, this.model, this.pre, this.post, this.args = c.it, c.model, c.pre, c.post, args

    def a(self, n):
        return self.args[n]


def setup(u):
    m = expire.setup(u)
    N = SimpleNamespace(**u.ns)
    sv = z3.StringVal
    m.fields.update({("BackyAPI", "daemon"): R("BackyDaemon"), ("BackyAPI", "tokens"): TTok, ("BackyAPI", "sites"): TDict(TAddr, TSite), ("BackyAPI", "runner"): TRunner, ("BackyDaemon", "dead_repositories"): TDead,
                     ("BackyDaemon", "jobs"): TJobs, ("Job", "repository"): R("Repository"), ("Job", "name"): TStr})
    m.ghosts.update({"served": TBool, "answered": TBool, "answer": LRev, "client": TStr})
    o = m.opq_methods

    # ---------------------------------------------------------- requests
    def part(t):
        def get(it, v):
            x = it.fresh(t.name, t.sort())
            it.assume(REQ_OF[t.name](x) == v.t)
            return Sym(t, x)
        return get

    o[TReq.name, "headers"], o[TReq.name, "query"], o[TReq.name, "match_info"] = property(part(THead)), property(part(TQuery)), property(part(TMatch))
    o[TReq.name, "json"] = lambda it, v, a, k: part(TJSON)(it, v)
    o[TReq.name, "path"] = o[TReq.name, "query_string"] = property(lambda it, v: Opaque("text"))
    o[TReq.name, "__getitem__"] = lambda it, v, a, k: Opaque("log")

    def req_set(it, v, a, k):
        if a[0] == "client":
            x = it.force(a[1])
            it.set_ghost("client", it.fresh("no_client", SS) if x is None else it.encode(x, TStr))

    o[TReq.name, "__setitem__"] = req_set

    def default(it, a, has, t):
        """the value, or the default given"""
        d = it.force(a[1]) if len(a) > 1 else None
        if d is None:
            return it.decode(z3.If(has, TOpt(TStr).some(t), TOpt(TStr).none()), TOpt(TStr))
        return Sym(TStr, z3.If(has, t, it.encode(d, TStr)))

    def header(it, v, a, k):
        if it.force(a[0]) != "Authorization":
            return Opaque("header")
        r = REQ_OF[THead.name](v.t)
        return default(it, a, HAS_AUTH(r), AUTH(r))

    def query(it, v, a, k):
        r, n = REQ_OF[TQuery.name](v.t), it.encode(a[0], TStr)
        return default(it, a, HASQ(r, n), QV(r, n))

    o[THead.name, "get"], o[TQuery.name, "get"] = header, query
    o[TMatch.name, "get"] = lambda it, v, a, k: Sym(TStr, MATCH(REQ_OF[TMatch.name](v.t), it.encode(a[0], TStr)))

    def json_item(it, v, a, k):
        r, n = REQ_OF[TJSON.name](v.t), it.encode(a[0], TStr)
        if not it.branch(HASJ(r, n)):
            raise it.exc("KeyError")
        return it.decode(JV(r, n), SetStr)

    o[TJSON.name, "__getitem__"] = json_item
    m.ext["aiohttp.hdrs.AUTHORIZATION"] = "Authorization"
    for n in HTTP:
        m.ext["aiohttp.web." + n] = m.ext["aiohttp.web_exceptions." + n] = it_exc(n)

    def to_json(it, a, k):
        if a[0] is None:
            raise it.exc("HTTPNoContent")
        it.set_ghost("answered", z3.BoolVal(True))
        v = it.force(a[0])
        c = it.content(v) if isinstance(v, Box) else None
        if isinstance(c, SV) and c.ty == LRev:
            it.set_ghost("answer", c.t)
        return Sym(TResp, it.fresh("response", TResp.sort()))

    m.stubs["daemon.api:to_json"] = to_json

    # ------------------------------------------------------ authentication
    SELF = [("self", R("BackyAPI"))]
    me = lambda c: c.a("self")
    BEARER = sv("Bearer ")
    tok = lambda r: z3.SubString(AUTH(r), 7, z3.Length(AUTH(r)) - 7)

    def authorized(c, v):
        t, r = v.f("BackyAPI", "tokens", me(c)), c.a("request")
        return And(HAS_AUTH(r), z3.PrefixOf(BEARER, AUTH(r)), S(TTok.dom(t), tok(r)), S(TTok.val(t), tok(r)) != sv(""))

    def handler(it, a, k):
        c = it.vc.ctx
        it.vc.prove(it, "a request is handled only if it has a token which is configured", authorized(c, c.pre))
        it.vc.prove(it, "it is handled for the client of this token", it.get_ghost("client") == S(TTok.val(c.pre.f("BackyAPI", "tokens", me(c))), tok(c.a("request"))))
        it.set_ghost("served", z3.BoolVal(True))
        if it.choose(2, "the handler fails"):
            raise it.exc("HTTPNotFound")
        return Sym(TResp, it.fresh("response", TResp.sort()))

    noted = lambda c: Not(c.pre.g("served"))
    HANDLER = ("handler", lambda it: Builtin("handler", handler))
    u.contract(API + "require_auth", SELF + [("request", TReq), HANDLER], ret=TResp, requires=[("nothing has been done", noted)], modifies=[("ghost", "served"), ("ghost", "client")],
               ensures=[("the request has been handled", lambda c: And(authorized(c, c.pre), c.post.g("served")))],
               raises=[("HTTPUnauthorized", lambda c: Not(authorized(c, c.pre)), [("the request has no effect", lambda c: Not(c.post.g("served")))]),
                       ("HTTPNotFound", lambda c: authorized(c, c.pre), [("the request has been handled", lambda c: c.post.g("served"))])])

    # ----------------------------------------- the table of the API itself
    ROUTES = {("get", "/v1/status"): "get_status", ("post", "/v1/reload"): "reload_daemon", ("get", "/v1/jobs"): "get_jobs", ("post", "/v1/jobs/{job_name}/run"): "run_job", ("get", "/v1/backups"): "list_backups",
              ("post", "/v1/backups/{backup_name}/purge"): "run_purge", ("post", "/v1/backups/{backup_name}/touch"): "touch_backup", ("get", "/v1/backups/{backup_name}/revs"): "get_revs",
              ("put", "/v1/backups/{backup_name}/revs/{rev_spec}/tags"): "put_tags"}
    nt = NTClass("route", ["method", "path", "handler"])
    appc = NTClass("app", ["add_routes"])

    def mname(it, x):
        """the method of this object which is called"""
        f = x.fn if isinstance(x, Bound) else x
        f = f.impl if isinstance(f, ContractFn) else f
        return getattr(getattr(f, "func", None) or getattr(f, "f", None), "name", None) or f.func.node.name

    def add_routes(it, a, k):
        it.set_ghost("answered", z3.BoolVal(True))
        for r in it.host_list(a[0]):
            meth, p, h = r.values
            it.vc.prove(it, f"route {meth} {p} leads to its handler", z3.BoolVal(ROUTES.get((meth, p)) == mname(it, h)))

    def application(it, a, k):
        mw = [mname(it, x) for x in it.host_list(k["middlewares"])] if "middlewares" in k else []
        it.vc.prove(it, "every request has to pass the authentication", z3.BoolVal("require_auth" in mw))
        return NTVal(appc, [Builtin("add_routes", add_routes)])

    m.ext["aiohttp.web.Application"] = application
    for x in ("get", "post", "put", "delete", "patch"):
        m.ext["aiohttp.web." + x] = lambda it, a, k, x=x: NTVal(nt, [x, it.force(a[0]), a[1]])

    u.contract(API + "__init__", SELF + [("daemon", R("BackyDaemon")), ("log", LOG)], modifies=[("heap", "BackyAPI", "daemon"), ("heap", "BackyAPI", "sites"), ("ghost", "answered")],
               requires=[("no routes yet", lambda c: Not(c.pre.g("answered")))], ensures=[("the API of this daemon has its routes", lambda c: And(c.post.f("BackyAPI", "daemon", me(c)) == c.a("daemon"), c.post.g("answered")))])

    # ------------------------------------------------------------- backups
    D_OF = lambda v, c: v.f("BackyAPI", "daemon", me(c))
    name = lambda c: MATCH(c.a("request"), sv("backup_name"))
    isdead = lambda c: S(TDead.dom(c.pre.f("BackyDaemon", "dead_repositories", D_OF(c.pre, c))), name(c))
    isjob = lambda c: S(TJobs.dom(c.pre.f("BackyDaemon", "jobs", D_OF(c.pre, c))), name(c))
    dead = lambda c: S(TDead.val(c.pre.f("BackyDaemon", "dead_repositories", D_OF(c.pre, c))), name(c))
    jobrepo = lambda c: c.pre.f("Job", "repository", S(TJobs.val(c.pre.f("BackyDaemon", "jobs", D_OF(c.pre, c))), name(c)))
    APART = ("no backup both belongs to a job and is dead", lambda c: Not(And(isdead(c), isjob(c))))
    RQP = [("request", TReq)]
    inactive = ("only backups without a job", lambda c: And(isdead(c), Not(isjob(c))))
    FORBID = lambda ens: [("HTTPForbidden", lambda c: And(isjob(c), Not(isdead(c))), ens), ("HTTPNotFound", lambda c: Not(isdead(c)), ens)]
    u.contract(API + "get_backup", SELF + RQP + [("allow_active", TBool)], ret=R("Repository"), requires=[APART],
               ensures=[("the backup of this name, of a job only if that is allowed", lambda c: Or(And(isdead(c), c.res == dead(c)), And(c.a("allow_active"), isjob(c), c.res == jobrepo(c))))],
               raises=[("HTTPForbidden", lambda c: And(Not(c.a("allow_active")), isjob(c), Not(isdead(c))), []), ("HTTPNotFound", lambda c: And(Not(isdead(c)), Not(isjob(c))), [])])
    P_ = lambda c, r: c.pre.f("Repository", "path", r)
    mark = lambda c: JOIN(P_(c, dead(c)), sv(".purge_pending"))
    same = ("no file has changed", lambda c: files_same(c.pre, c.post))
    u.contract(API + "run_purge", SELF + RQP, ret=TResp, requires=[APART], modifies=[("ghost", "files")], allow_no_return=True, ensures=[("it does not return", lambda c: z3.BoolVal(False))],
               raises=[("HTTPAccepted", lambda c: inactive[1](c), [("the backup is marked", lambda c: exists_file(c.post, mark(c))), ("no other file has changed", lambda c: other_files_same(c.pre, c.post, mark(c)))])]
               + FORBID([same]) + [("OSError", None, [same])])
    u.contract(API + "touch_backup", SELF + RQP, ret=TResp, requires=[APART], modifies=[("ghost", "files")], allow_no_return=True, ensures=[("it does not return", lambda c: z3.BoolVal(False))],
               raises=[("HTTPNoContent", lambda c: Or(isdead(c), isjob(c)), [("files stay", lambda c: existing_same(c.pre, c.post))]), ("HTTPNotFound", lambda c: Not(Or(isdead(c), isjob(c))), [same]), ("OSError", None, [same])])
    RWF = lambda b: [("lock free, metadata files well-formed and named by their UUID", lambda c: And(*[f[1](Sub(c, self=b(c))) for f in N.NORMAL]))]
    bk = lambda c: z3.If(isdead(c), dead(c), jobrepo(c))
    LEN_, AT = LRev.len, lambda t, k: S(LRev.arr(t), k)
    clean = lambda c: And(HASQ(c.a("request"), sv("only_clean")), QV(c.a("request"), sv("only_clean")) == sv("1"))

    def listed(c):
        t, h, v = c.post.g("answer"), Hist(c.post, bk(c)), c.post
        i, k = bound("i", IS), bound("k", IS)
        ok = lambda r: And(v.f("Revision", "server", r) == sv(""), Or(Not(clean(c)), TStats.has(v.f("Revision", "stats", r), "duration")))
        return And(FA([k], Imp(And(0 <= k, k < LEN_(t)), And(ok(AT(t, k)), exists_int(lambda i: And(h.rng(i), h.at(i) == AT(t, k))))), [AT(t, k)]),
                   FA([i], Imp(And(h.rng(i), ok(h.at(i))), exists_int(lambda k: And(0 <= k, k < LEN_(t), AT(t, k) == h.at(i)))), [h.at(i)]))

    u.contract(API + "get_revs", SELF + RQP, ret=TResp, requires=[APART] + RWF(bk), modifies=N.SCANMOD + [("ghost", "answered"), ("ghost", "answer")],
               ensures=[("exactly the local revisions, complete ones if asked for", listed), ("as they are on disk", lambda c: And(N.from_disk(c.pre, c.post, bk(c)), N.complete_scan(c.pre, c.post, bk(c))))],
               raises=[("HTTPNotFound", lambda c: Not(Or(isdead(c), isjob(c))), []), ("OSError", None, [])])

    # ---------------------------------------------------------------- tags
    spec = lambda c: MATCH(c.a("request"), sv("rev_spec"))
    jold, jnew = lambda c: JV(c.a("request"), sv("old_tags")), lambda c: JV(c.a("request"), sv("new_tags"))
    OSet = TOpt(SetStr)
    autor = lambda c: And(HASQ(c.a("request"), sv("autoremove")), QV(c.a("request"), sv("autoremove")) == sv("1"))

    def tagctx(c):
        return Sub(c, self=dead(c), action=sv("set"), revision=spec(c), tags=jnew(c), expect=OSet.some(jold(c)), autoremove=autor(c), force=z3.BoolVal(True))

    T_ = lambda f: (lambda c: f(tagctx(c), c.post))
    seln = N.seln
    DONE = [inactive,
            ("the tags were those expected", T_(lambda c, v: N.expected(c, v, seln(v)))), ("the selected revisions have the new tags, on disk, or are gone", T_(lambda c, v: And(*N.edits(c, v, seln(v))))),
            ("nothing else changes", T_(lambda c, v: N.no_edits(c, v, seln(v)))), ("exactly the revisions named", T_(lambda c, v: And(N.selection(c, v), N.one(c, v))))]
    NOTHING = ("no metadata has changed", lambda c: Or(files_same(c.pre, c.post), And(isdead(c), N.nothing(tagctx(c), c.post))))
    u.contract(API + "put_tags", SELF + RQP, ret=TResp, allow_no_return=True, modifies=N.TAGMOD,
               requires=[APART] + RWF(dead) + [("a single specifier", lambda c: plain(spec(c)))],
               ensures=[("it does not return", lambda c: z3.BoolVal(False))],
               raises=[("HTTPNoContent", None, DONE), ("HTTPBadRequest", lambda c: Or(Not(HASJ(c.a("request"), sv("old_tags"))), Not(HASJ(c.a("request"), sv("new_tags")))), [NOTHING]),
                       ("HTTPPreconditionFailed", None, [NOTHING, inactive, ("the tags were not those expected", T_(lambda c, v: Not(N.expected(c, v, seln(v)))))])]
               + FORBID([NOTHING])[:1] + [(n, None, [NOTHING]) for n in ("HTTPNotFound", "HTTPServiceUnavailable", "ValueError", "IndexError")] + [("OSError", None, [("only backups without a job", lambda c: Or(files_same(c.pre, c.post), inactive[1](c)))])])
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m


def it_exc(n):
    return builtin_exc(n)
