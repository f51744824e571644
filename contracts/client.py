"""What is asked of a peer, and what becomes of its answer (C20)."""
from types import SimpleNamespace

from .hist import *  # noqa
from pyvc.verify import loops_of
from . import hist

IS, SS = z3.IntSort(), z3.StringSort()
TSession, TExchange, TResponse, TJson = TOpq("HttpSession"), TOpq("Exchange"), TOpq("Response"), TOpq("RevJson")
JF = {"uuid": TStr, "timestamp": TStr, "stats": TStats, "tags": SetStr, "orig_tags": SetStr, "trust": TStr, "server": TStr}
JX = {n: z3.Function("json_" + n, TJson.sort(), t.sort()) for n, t in JF.items()}
DATE_OF = z3.Function("iso_date", SS, z3.RealSort())
LJson = TList(TJson)
CLI = "daemon.api:Client."
sv_ = z3.StringVal
cat = z3.Concat


def setup(u):
    m = hist.setup(u)
    N = SimpleNamespace(**u.ns)
    LRev = TList(R("Revision"))
    m.fields.update({("Client", "session"): TSession, ("Client", "server_name"): TStr})
    # sent: requests so far; the last one: verb, url, flag (only_clean or autoremove), old and new: the lists of tags
    m.ghosts.update({"sent": TInt, "verb": TStr, "url": TStr, "flag": TInt, "old": SetStr, "new": SetStr, "answer": LJson, "answered": TBool})
    o = m.opq_methods
    me = lambda c: c.a("self")
    errors = {n: ExcClass(n, [n] + x + ["ClientError", "Exception", "BaseException"]) for n, x in (("ClientResponseError", []), ("ClientConnectionError", []))}
    errors["ClientError"] = ExcClass("ClientError", ["ClientError", "Exception", "BaseException"])

    def request(verb):
        def f(it, v, a, k):
            for n in k:
                if n not in ("params", "json"):
                    raise Unsupported("request with " + n)
            it.set_ghost("sent", it.get_ghost("sent") + 1)
            it.set_ghost("verb", sv_(verb))
            it.set_ghost("url", it.encode(a[0], TStr))
            entry = lambda d, n: it.content(it.force(k[d])).v[n]
            if "params" in k:
                d = it.content(it.force(k["params"])).v
                if len(d) != 1 or next(iter(d)) != {"get": "only_clean", "put": "autoremove"}.get(verb):
                    raise Unsupported("parameters")
                it.set_ghost("flag", it.encode(next(iter(d.values())), TInt))
            if "json" in k:
                it.set_ghost("old", it.encode(lib.to_set(it, entry("json", "old_tags")), SetStr))
                it.set_ghost("new", it.encode(lib.to_set(it, entry("json", "new_tags")), SetStr))
            return Sym(TExchange, it.fresh("exchange", TExchange.sort()))
        return f

    for verb in ("get", "put", "post"):
        o[TSession.name, verb] = request(verb)

    def enter(it, v, a, k):
        """raise_for_status: an answer is given only if the request has been granted"""
        i = it.choose(6, "request")
        if i == 1:
            raise it.exc("CancelledError")
        if i == 5:
            raise it.exc("TimeoutError")
        if i > 1:
            raise PyRaise(ExcVal(errors[["ClientResponseError", "ClientConnectionError", "ClientError"][i - 2]], [], {}))
        it.set_ghost("answered", z3.BoolVal(True))
        return Sym(TResponse, it.fresh("response", TResponse.sort()))

    o[TExchange.name, "__aenter__"] = enter
    o[TExchange.name, "__aexit__"] = lambda it, v, a, k: None

    def answer(it, v, a, k):
        i = it.choose(3, "body")
        if i == 1:
            raise it.exc("CancelledError")
        if i == 2:
            raise PyRaise(ExcVal(errors["ClientError"], [], {}))
        t = it.fresh("answer", LJson.sort())
        i = bound("i", IS)
        d = S(LJson.arr(t), i)
        it.assume(LJson.len(t) >= 0)
        it.assume(FA([i], Imp(And(0 <= i, i < LJson.len(t)), And(JX["uuid"](d) != sv_(""), Or(*[JX["trust"](d) == sv_(x) for x in ("trusted", "distrusted", "verified")]))), [d]))
        it.set_ghost("answer", t)
        return it.decode(t, LJson)

    o[TResponse.name, "json"] = answer

    def entry(it, v, a, k):
        if a[0] not in JX:
            raise Unsupported(f"entry {a[0]!r}")
        return it.decode(JX[a[0]](v.t), JF[a[0]])

    o[TJson.name, "__getitem__"] = o[TJson.name, "get"] = entry
    repo_name = lambda c, r: NAME(c.pre.f("Repository", "path", r))
    url = lambda c, r, tail: cat(sv_("/v1/backups/"), repo_name(c, r), sv_(tail))
    FAIL = ["ClientResponseError", "ClientConnectionError", "ClientError", "CancelledError", "TimeoutError"]
    for n in FAIL[:3]:
        m.ext["aiohttp." + n] = errors[n]
    NAMED_ERRORS = errors
    SENT = [("ghost", g) for g in ("sent", "verb", "url", "answered")]
    fresh = [("nothing has been asked", lambda c: And(c.pre.g("sent") == 0, Not(c.pre.g("answered"))))]
    C = [("self", R("Client"))]
    asked = lambda c, verb, x: And(c.post.g("sent") == 1, c.post.g("verb") == sv_(verb), c.post.g("url") == x, c.post.g("answered"))
    for n, x in (("touch_backup", "/touch"), ("run_purge", "/purge")):
        u.contract(CLI + n, C + [("name", TStr)], requires=fresh, modifies=SENT,
                   ensures=[("the peer has been asked, for this backup, and has granted it", lambda c, x=x: asked(c, "post", cat(sv_("/v1/backups/"), c.a("name"), sv_(x))))], raises=FAIL)

    def tags_url(c):
        q = c.a("rev")
        r = c.pre.f("Revision", "repository", q)
        return cat(sv_("/v1/backups/"), repo_name(c, r), sv_("/revs/"), c.pre.f("Revision", "uuid", q), sv_("/tags"))

    def replaced(c):
        f = lambda n: c.pre.f("Revision", n, c.a("rev"))
        return And(asked(c, "put", tags_url(c)), c.post.g("old") == f("orig_tags"), c.post.g("new") == f("tags"), c.post.g("flag") == z3.If(c.a("autoremove"), 1, 0))

    u.contract(CLI + "put_tags", C + [("rev", R("Revision")), ("autoremove", TBool)], defaults={"autoremove": False}, requires=fresh, modifies=SENT + [("ghost", g) for g in ("old", "new", "flag")],
               ensures=[("the peer has been asked to replace exactly the tags this edit began with, of this revision, and has granted it", replaced)], raises=FAIL)

    # ------------------------------------------------------------ get_revs
    AT = lambda t, k: S(LRev.arr(t), k)
    J = lambda v, k: S(LJson.arr(v.g("answer")), k)
    NJ = lambda v: LJson.len(v.g("answer"))

    def one(c, v, q, d, done):
        f = lambda n: v.f("Revision", n, q)
        return And(c.pre.alloc <= q, q < v.alloc, f("uuid") == JX["uuid"](d), f("timestamp") == DATE_OF(JX["timestamp"](d)), f("stats") == JX["stats"](d), f("tags") == JX["tags"](d), f("trust") == trust_of(JX["trust"](d)),
                   f("repository") == c.a("repository"), z3.If(done, And(f("orig_tags") == f("tags"), f("server") == c.pre.f("Client", "server_name", me(c))), z3.BoolVal(True)))

    def given(c, v, t, n, done):
        """the first n revisions are what the peer has said"""
        i, j = bound("i", IS), bound("j", IS)
        return And(LRev.len(t) == n, FA([i], Imp(And(0 <= i, i < n), one(c, v, AT(t, i), J(v, i), i < done)), [AT(t, i)]),
                   FA([i, j], Imp(And(0 <= i, i < j, j < n), AT(t, i) < AT(t, j)), [z3.MultiPattern(AT(t, i), AT(t, j))]))

    def same(c, v):
        q = bound("q", IS)
        return And(v.alloc >= c.pre.alloc, *[FA([q], Imp(And(0 <= q, q < c.pre.alloc), S(v.arr("Revision", n), q) == S(c.pre.arr("Revision", n), q)), [S(v.arr("Revision", n), q)]) for n in REVFIELDS])

    KEPT = ("existing revisions are unchanged", lambda c: same(c, c.post))

    def made(L):
        c, v = L.vc.ctx, L.now
        # (one loop: they are marked as they are made)
        done = L.k if len(loops_of(u.repo.find(CLI + "get_revs").node)) == 1 else z3.IntVal(0)
        return [("revisions so far", given(c, v, L.local("revs", LRev), L.k, done)), ("existing revisions are unchanged", same(c, v))]

    def marked(L):
        c, v = L.vc.ctx, L.now
        return [("revisions of the peer so far", given(c, v, L.local("revs", LRev), NJ(v), L.k)), ("existing revisions are unchanged", same(c, v))]

    m.unroll.add(CLI + "get_revs")
    u.contract(CLI + "get_revs", C + [("repository", R("Repository")), ("only_clean", TBool)], ret=LRev, locals={"revs": LRev}, defaults={"only_clean": True}, requires=fresh,
               modifies=SENT + [("ghost", "flag"), ("ghost", "answer"), "alloc"] + [("heap", "Revision", n) for n in REVFIELDS],
               ensures=[("the revisions of this backup have been asked for", lambda c: And(asked(c, "get", url(c, c.a("repository"), "/revs")), c.post.g("flag") == z3.If(c.a("only_clean"), 1, 0))),
                        ("they are what the peer has said, recorded as its own and without pending edits", lambda c: given(c, c.post, c.res, NJ(c.post), NJ(c.post))), KEPT],
               raises=FAIL + ["ValueError", "AssertionError"], loops={0: made, 1: marked})
    u.ns = {**u.ns, **locals()}
    return m
