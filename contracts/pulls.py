"""Exchanges with several peers, one after the other (C20): what is known about
the history when another peer has been asked before."""
from types import SimpleNamespace

from .peers import *  # noqa
from . import peers


def setup(u):
    m = peers.setup(u)
    N = SimpleNamespace(**u.ns)
    me, repo, path0, name, UU, LEN_, AT, LOCALDOC = N.me, N.repo, N.path0, N.name, N.UU, N.LEN_, N.AT, N.LOCALDOC
    TBY, is_rep = N.TBY_, N.is_rep
    by = lambda v, r: v.f("Repository", "_by_uuid", r)

    def local(v, r, p):
        return And(rev_file(v, r, p), LOCALDOC(v, p))

    def safe(v, r):
        """revisions of peers have no local metadata file, and local ones are in the history"""
        h = Hist(v, r)
        p = bound("p", P)
        loc = lambda q: v.f("Revision", "server", q) == sv_("")
        x = lambda p: D_["uuid"](content(v, p))
        own = lambda i: REVP(v.f("Repository", "path", r), h.f("uuid", i))
        return [("history well-formed", And(N.wf_hist(v, r), N.wf_index(v, r))), ("metadata files are well-formed and named by their UUID", wf_dir(v, r)),
                ("a revision of a peer has no local metadata file", forall_int(lambda i: Imp(And(h.rng(i), Not(loc(h.at(i)))), Not(local(v, r, own(i)))), pats=lambda i: [h.at(i)])),
                ("local revisions are in the history", FA([p], Imp(local(v, r, p), And(S(TBY.dom(by(v, r)), x(p)), loc(S(TBY.val(by(v, r)), x(p))))), [S(TFiles.dom(v.g("files")), p)]))]

    def shrinks(a, v, r):
        """nothing comes into the history"""
        x = bound("x", SS)
        return And(TBY.val(by(v, r)) == TBY.val(by(a, r)), FA([x], Imp(S(TBY.dom(by(v, r)), x), S(TBY.dom(by(a, r)), x)), [S(TBY.dom(by(v, r)), x)]))

    def kept(c, v):
        """local metadata files are as before"""
        p = bound("p", P)
        f = v.g("files")
        return FA([p], Imp(local(c.pre, repo(c.pre, c), p), N.same_file(c.pre, v, p)), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])

    KEPT = ("no local revision is modified, removed or replaced", lambda c: kept(c, c.post))
    ALLPRE = [(n, lambda c, i=i: safe(c.pre, repo(c.pre, c))[i][1]) for i, n in enumerate(["history well-formed", "metadata files are well-formed and named by their UUID", "a revision of a peer has no local metadata file", "local revisions are in the history"])]
    ALLPOST = [(n, lambda c, i=i: safe(c.post, repo(c.pre, c))[i][1]) for i, (n, _) in enumerate(ALLPRE)]
    SHR = ("nothing comes into the history", lambda c: shrinks(c.pre, c.post, repo(c.pre, c)))

    def wr_inv(L):
        c, e, v = L.vc.ctx, L.entry, L.now
        p = bound("p", P)
        f = v.g("files")
        d = S(TFiles.val(f), p)
        new = And(p == REVP(path0(c), UU(p)), Not(local(c.pre, repo(c.pre, c), p)), S(TFiles.dom(f), p), D_["server"](d) == name(c), D_["uuid"](d) == UU(p), UU(p) != sv_(""), wf_doc(d))
        return [("files are as before or hold a revision of the peer", FA([p], Or(N.same_file(e, v, p), new), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])), ("allocation grows", v.alloc >= e.alloc)]

    Q1 = SCH + "_pull_metadata_single"
    u.contract(Q1, N.J + [("api", R("Client"))], ret=TBool, requires=ALLPRE + [("a peer has a name", lambda c: name(c) != sv_(""))],
               modifies=N.MODS + [("ghost", "reach"), ("ghost", "reported")],
               ensures=[KEPT, SHR, ("other repositories are unchanged", lambda c: N.other_repos(c.pre, c.post, repo(c.pre, c)))] + ALLPOST, raises=[("OSError", None, [KEPT]), ("CancelledError", None, [KEPT])], loops={0: N.rm_inv, 1: wr_inv})

    # ------------------------------------------------------ all the peers
    TPeers = TDict(TStr, TOpq("PeerConf"))
    m.fields.update({("BackyDaemon", "peers"): TPeers, ("ClientManager", "peers"): TPeers, ("Job", "taskid"): TStr})

    def manager(it, a, k):
        r = it.alloc("ClientManager")
        it.setattr(r, "peers", a[0])
        return r

    def client(it, a, k):
        x = it.encode(a[1], TStr)
        d = S(it.heap_arr("ClientManager", "peers"), a[0].ref)
        if not it.branch(S(TPeers.dom(d), x)):
            raise it.exc("KeyError")
        r = it.alloc("Client")
        it.setattr(r, "server_name", a[1])
        return r

    m.stubs["daemon.scheduler:ClientManager"] = manager
    m.methods["ClientManager", "__getitem__"] = client
    m.methods["ClientManager", "__iter__"] = lambda it, a, k: it.getattr(a[0], "peers")
    m.methods["ClientManager", "__aenter__"] = lambda it, a, k: a[0]
    m.methods["ClientManager", "__aexit__"] = lambda it, a, k: None
    peers_of = lambda c, v: v.f("BackyDaemon", "peers", v.f("Job", "daemon", me(c)))
    Q = SCH + "pull_metadata"
    m.in_turn.add(Q)

    def alive(c, v, q):
        s = v.f("Revision", "server", q)
        return Or(s == sv_(""), S(TPeers.dom(peers_of(c, c.pre)), s))

    def only_alive(c, v):
        r = repo(c.pre, c)
        x = bound("x", SS)
        return FA([x], Imp(S(TBY.dom(by(v, r)), x), alive(c, v, S(TBY.val(by(v, r)), x))), [S(TBY.dom(by(v, r)), x)])

    def state(c, v):
        return safe(v, repo(c.pre, c)) + [(SHR[0], shrinks(c.pre, v, repo(c.pre, c))), (KEPT[0], kept(c, v)), ("allocation grows", v.alloc >= c.pre.alloc),
                                          ("other repositories are unchanged", N.other_repos(c.pre, v, repo(c.pre, c)))]

    def dead_inv(L):
        c, v = L.vc.ctx, L.now
        r = repo(c.pre, c)
        h0 = Hist(c.pre, r)
        el = lambda i: L.vc.ctx.it.encode(L.seq0.get(i), R("Revision"))
        passed = forall_int(lambda i: Imp(And(0 <= i, i < L.k, Not(alive(c, c.pre, el(i)))), Not(S(TBY.dom(by(v, r)), c.pre.f("Revision", "uuid", el(i))))), pats=lambda i: [el(i)])
        return state(c, v) + [("those passed are gone, if their peer is", passed)]

    def peers_inv(L):
        c, v = L.vc.ctx, L.now
        return state(c, v) + [("nothing is left of peers that are gone", only_alive(c, v))]

    u.loop(Q + ".remove_dead_peer", 0, dead_inv)
    u.contract(Q, N.J + [("skip_lock", TBool)], ret=TInt, defaults={"skip_lock": False},
               requires=ALLPRE + [("peers have names", lambda c: Not(S(TPeers.dom(peers_of(c, c.pre)), sv_("")))), ("lock files are no metadata files", lambda c: Not(IS_REV(lockfile(path0(c), ".backup")))),
                                  ("the lock is not held already", lambda c: Or(c.a("skip_lock"), unlocked(c.pre, repo(c.pre, c), ".backup")))],
               modifies=N.MODS + [("ghost", "reach"), ("ghost", "reported"), ("ghost", "locks"), ("ghost", "lockfd"), ("heap", "Repository", "_lock_fds"), ("heap", "ClientManager", "peers"), ("heap", "Client", "server_name")],
               ensures=[KEPT, SHR, ("nothing is left of peers that are gone", lambda c: only_alive(c, c.post))] + ALLPOST,
               raises=[("OSError", None, [KEPT]), ("CancelledError", None, [KEPT]), ("BlockingIOError", None, [KEPT])], loops={0: peers_inv}, locals={"errors": TList(TBool)})

    # what is required here is what reading the repository gives
    u.contract("repository:Repository.scan#safe", [("self", R("Repository"))], requires=[("metadata files are well-formed and named by their UUID", lambda c: wf_dir(c.pre, me(c)))],
               modifies=N.SCANMOD, ensures=[(n, lambda c, i=i: safe(c.post, me(c))[i][1]) for i, (n, _) in enumerate(ALLPRE)], raises=[("OSError", None, [])], loops={0: N.scan_inv})
    u.ns = {**u.ns, **locals()}
    return m
