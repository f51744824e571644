"""When a job leaves a backup to a peer (C21)."""
from types import SimpleNamespace

from .base import *  # noqa
from . import base
from pyvc.interp import CoroVal, SeqV
from pyvc.verify import View

IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
TPeer, TReply, TStat, TClient = TOpq("PeerConf"), TOpq("Reply"), TOpq("PeerStatus"), TOpq("PeerClient")
TPeers = TDict(TStr, TPeer)
FIRST = z3.Function("first_reply", SS, TReply.sort())
ITEM = z3.Function("status_of_job", TReply.sort(), TStat.sort())
FAILED = z3.Function("is_failure", TReply.sort(), z3.BoolSort())
EMPTY = z3.Function("is_empty_list", TReply.sort(), z3.BoolSort())
REVS = z3.Function("local_revs", TStat.sort(), IS)
OD = TOpt(TDate)
LAST, NEXT = z3.Function("last_time", TStat.sort(), OD.sort()), z3.Function("next_time", TStat.sort(), OD.sort())
STATE = z3.Function("state", TStat.sort(), SS)
SCH = "daemon.scheduler:Job."
sv_ = z3.StringVal


class Fetch(CoroVal):
    """a request for the status of the job which has not been sent yet"""
    def __init__(self, peer, thunk):
        CoroVal.__init__(self, thunk)
        self.peer = peer


def setup(u):
    m = base.setup(u)
    m.fields.update({("Job", "name"): TStr, ("Job", "source"): R("AsyncCmdLineSource"), ("Job", "daemon"): R("BackyDaemon"), ("Job", "status"): TStr, ("Job", "taskid"): TStr,
                     ("AsyncCmdLineSource", "repository"): R("Repository"), ("CmdLineSource", "repository"): R("Repository"), ("BackyDaemon", "peers"): TPeers, ("ClientManager", "peers"): TPeers, ("Job", "run_immediately"): TOpq("Event")})
    # own: number of complete local revisions; asked/reply: the peer asked again, and what it said
    m.ghosts.update({"own": TInt, "again": TBool, "asked": TStr, "reply": TStat})
    me = lambda c: c.a("self")
    o = m.opq_methods
    name = lambda it: S(it.heap_arr("Job", "name"), it.vc.ctx.args["self"])

    def peers(it, obj):
        return it.getattr(obj, "peers")

    def client(it, a, k):
        """a KeyError if there is no such peer"""
        x = it.encode(a[1], TStr)
        d = S(it.heap_arr("BackyDaemon", "peers"), S(it.heap_arr("Job", "daemon"), it.vc.ctx.args["self"]))
        if not it.branch(S(TPeers.dom(d), x)):
            raise it.exc("KeyError")
        return Sym(TClient, CLIENT(x))

    CLIENT, PEER = z3.Function("client_of", SS, TClient.sort()), z3.Function("peer_of", TClient.sort(), SS)

    def fetch(it, v, a, k):
        asked = it.encode(a[0], TStr)
        it.vc.prove(it, "a peer is asked for this job only", asked == z3.Concat(sv_("^"), name(it), sv_("$")))

        def send():
            how = it.choose(4, "asking the leader")
            if how == 1:
                raise it.exc("ClientError")
            if how == 2:
                raise it.exc("CancelledError")
            if how == 3:
                raise it.exc("Exception")
            r = it.fresh("reply", TReply.sort())
            it.set_ghost("again", z3.BoolVal(True))
            it.set_ghost("asked", PEER(v.t))
            it.set_ghost("reply", ITEM(r))
            return Sym(TReply, r)

        return Fetch(v.t, send)

    o[TClient.name, "fetch_status"] = fetch

    def client2(it, a, k):
        r = client(it, a, k)
        it.assume(PEER(r.t) == it.encode(a[1], TStr))
        return r

    m.methods["ClientManager", "__getitem__"] = client2
    m.methods["ClientManager", "__iter__"] = lambda it, a, k: peers(it, a[0])
    m.methods["ClientManager", "close"] = lambda it, a, k: None

    def create(it, a, k):
        r = it.alloc("ClientManager")
        it.setattr(r, "peers", a[0])
        return r

    for n in ("daemon.scheduler:ClientManager",):
        m.stubs[n] = create

    def gather(it, a, k):
        from pyvc.interp import Unsupported
        if len(a) != 1 or not isinstance(a[0], SeqV) or k.get("return_exceptions") is not True:
            raise Unsupported("gather")
        if it.choose(2, "cancelled"):
            raise it.exc("CancelledError")
        s = a[0]
        if it.branch(s.n > 0):
            # what is asked, for an arbitrary one
            i = it.fresh("which", IS)
            it.assume(And(0 <= i, i < s.n))
            s.get(i)
        return SeqV(s.n, lambda j: Sym(TReply, FIRST(PEER(s.get(j).peer))), "replies")

    m.ext["asyncio.gather"] = gather
    o[TReply.name, "__isinstance__"] = lambda it, v, a, k: FAILED(v.t)

    def item(it, v, a, k):
        if it.branch(FAILED(v.t)):
            raise it.exc("TypeError")
        if a[0] != 0 or it.branch(EMPTY(v.t)):
            raise it.exc("IndexError")
        return Sym(TStat, ITEM(v.t))

    o[TReply.name, "__getitem__"] = item

    def field(it, v, a, k):
        f = {"local_revs": (TInt, REVS), "last_time": (OD, LAST), "next_time": (OD, NEXT), "status": (TStr, STATE)}.get(a[0])
        if f is None or it.choose(2, "an incomplete status"):
            raise it.exc("KeyError")
        return it.decode(f[1](v.t), f[0])

    o[TStat.name, "__getitem__"] = field

    def sleep(it, a, k):
        if it.choose(2, "cancelled"):
            raise it.exc("CancelledError")
        return Sym(TOpt(TBool), it.fresh("woken", TOpt(TBool).sort()))

    m.stubs["utils:delay_or_event"] = sleep
    o[TOpq("Event").name, "clear"] = lambda it, v, a, k: None
    u.contract("repository:Repository.get_history", [("self", R("Repository")), ("clean", TBool), ("local", TBool)], ret=TList(R("Revision")), defaults={"clean": False, "local": False}, trusted=True,
               ensures=[("the complete local revisions", lambda c: Imp(And(c.a("clean"), c.a("local")), TList(R("Revision")).len(c.res) == c.pre.g("own")))])

    # ------------------------------------------------------------ contract
    prs = lambda c: c.pre.f("BackyDaemon", "peers", c.pre.f("Job", "daemon", me(c)))
    first = lambda x: ITEM(FIRST(x))

    def ahead(c, x):
        return And(S(TPeers.dom(prs(c)), x), Not(FAILED(FIRST(x))), REVS(first(x)) > c.pre.g("own"))

    def recent(c, s):
        t = LAST(s)
        return And(Not(OD.is_none(t)), c.a("next_time") - OD.the(t) < 300)

    def said(v, x):
        """the last answer of x"""
        return z3.If(v.g("again"), v.g("reply"), first(x))

    def done(c):
        x = bound("x", SS)
        return Imp(c.res, z3.Exists([x], And(ahead(c, x), recent(c, said(c.post, x)), Imp(c.post.g("again"), c.post.g("asked") == x))))

    OS = TOpt(TStr)

    def best(L):
        c = L.vc.ctx
        x, n = L.local("leader", OS), L.local("leader_revs", TInt)
        t = OS.the(x)
        rs = [("no leader, or one with more revisions", z3.If(OS.is_none(x), n == c.pre.g("own"), And(ahead(c, t), n == REVS(first(t)))))]
        if L.bound("leader_status"):
            rs.append(("what the leader has said", Imp(Not(OS.is_none(x)), L.local("leader_status", TStat) == first(t))))
        else:
            rs.append(("no status, no leader", OS.is_none(x)))
        return rs

    def watch(L):
        c = L.vc.ctx
        x = L.local("leader", OS)
        return [("what the leader has said last", And(Not(OS.is_none(x)), ahead(c, OS.the(x)), L.local("res", TStat) == said(L.now, OS.the(x)), Imp(L.now.g("again"), L.now.g("asked") == OS.the(x))))]

    Q = SCH + "_wait_for_leader"
    m.late[Q, "leader_status"] = TStat
    m.late[Q, "num_remote_revs"] = TInt
    u.contract(Q, [("self", R("Job")), ("next_time", TDate)], ret=TBool, locals={"leader": OS}, requires=[("nobody has been asked", lambda c: And(Not(c.pre.g("again")), c.pre.g("own") >= 0))],
               modifies=["alloc", ("heap", "Job", "status"), ("heap", "ClientManager", "peers")] + [("ghost", g) for g in ("again", "asked", "reply")],
               ensures=[("only a peer with more complete revisions which has finished less than five minutes before is waited for", done)], raises=[("CancelledError", None, [])], loops={0: best, 1: watch})
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
