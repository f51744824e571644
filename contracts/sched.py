"""Scheduling, SLA, revision look-up (C12, C13, C14, C18)."""
from .base import *  # noqa
from . import base


def setup(u):
    m = base.setup(u)
    TTrust = m.enum("Trust")

    m.ghosts.update({"ideal": TReal, "missed_at": TReal})

    # -------------------------------------------------- next_in_interval
    def grid(c):
        # witness for the existential: number of intervals
        it, I, sp = c.it, c.a("interval"), z3.ToReal(c.a("spread"))
        q2 = z3.ToInt(it.real_div(sp, I))
        s = sp - I * z3.ToReal(q2)
        q1 = z3.ToInt(it.real_div(c.a("relative") - s, I))
        k = q1 + 1 - q2
        return c.res == z3.ToReal(k) * I + sp

    u.contract("schedule:next_in_interval", [("relative", TDate), ("interval", TDelta), ("spread", TInt)], ret=TDate, fn=True,
               requires=[("interval is positive", lambda c: c.a("interval") > 0),
                         ("dates are after year one", lambda c: c.a("relative") >= 0),
                         ("reference date is later than one interval after year one", lambda c: c.a("relative") >= c.a("interval")),
                         ],
               ensures=[
                   ("strictly after the reference time", lambda c: c.res > c.a("relative")),
                   ("at most one interval later", lambda c: c.res <= c.a("relative") + c.a("interval")),
                   ("on the grid of the interval shifted by the spread", grid),
               ])


    NII = lambda rel, iv, sp: z3.Function("F_schedule:next_in_interval", z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())(rel, iv, sp)

    # ----------------------------------------------------------- helpers
    def sched(c, v=None):
        v = v or c.pre
        return v.f("Schedule", "schedule", c.a("self"))

    def dom(t, x):
        return S(TSched.dom(t), x)

    def spec(t, x):
        return S(TSched.val(t), x)

    def interval(t, x):
        return TSpec.val(spec(t, x), "interval")

    def wf_sched(t):
        return forall(z3.StringSort(), lambda x: Imp(dom(t, x), And(TSpec.has(spec(t, x), "interval"), TSpec.has(spec(t, x), "keep"), interval(t, x) > 0)), pats=lambda x: [S(TSched.dom(t), x)])

    # -------------------------------------------------------- _next_ideal
    TT = TTup(TDate, SetStr)
    ND = TDict(TDate, SetStr)

    def ni_inv(L):
        d = L.local("next_times", ND)
        rel, sp = L.args["relative"], L.args["spread"]
        t = L.pre.f("Schedule", "schedule", L.args["self"])
        done = lambda x: And(S(TSched.dom(t), x), L.seq0.keys.idx(x) < L.k)
        nx = lambda x: NII(rel, interval(t, x), sp)
        return [
            ("each time collects exactly the tags due then", forall(z3.StringSort(), lambda x: Imp(done(x), And(S(ND.dom(d), nx(x)), S(S(ND.val(d), nx(x)), x))), pats=lambda x: [L.seq0.keys.idx(x)])),
            ("times and tags stem from the schedule", z3.And(
                forall(z3.RealSort(), lambda q: Imp(S(ND.dom(d), q), exists(z3.StringSort(), lambda x: And(done(x), nx(x) == q, S(S(ND.val(d), q), x)))), pats=lambda q: [S(ND.dom(d), q)]),
                (lambda q, x: FA([q, x], Imp(And(S(ND.dom(d), q), S(S(ND.val(d), q), x)), And(done(x), nx(x) == q)), [S(S(ND.val(d), q), x)]))(bound("q", z3.RealSort()), bound("x", z3.StringSort())))),
        ]

    def ni_time(c, r=None):
        t, rel, sp = sched(c), c.a("relative"), c.a("spread")
        r = TT.get(c.res, 0) if r is None else r
        return And(exists(z3.StringSort(), lambda x: And(dom(t, x), NII(rel, interval(t, x), sp) == r)),
                   forall(z3.StringSort(), lambda x: Imp(dom(t, x), r <= NII(rel, interval(t, x), sp)), pats=lambda x: [S(TSched.dom(t), x)]))

    def ni_tags(c):
        t, rel, sp = sched(c), c.a("relative"), c.a("spread")
        r, g = TT.get(c.res, 0), TT.get(c.res, 1)
        return forall(z3.StringSort(), lambda x: S(g, x) == And(dom(t, x), NII(rel, interval(t, x), sp) == r), pats=lambda x: [S(g, x)])

    u.contract("schedule:Schedule._next_ideal", [("self", R("Schedule")), ("relative", TDate), ("spread", TInt)], ret=TT,
               requires=[("schedule well-formed", lambda c: wf_sched(sched(c))),
                         ("schedule not empty", lambda c: exists(z3.StringSort(), lambda x: dom(sched(c), x))),
                         ("dates are after year one", lambda c: And(c.a("relative") >= 0, forall(z3.StringSort(), lambda x: Imp(dom(sched(c), x), c.a("relative") >= interval(sched(c), x)), pats=lambda x: [S(TSched.dom(sched(c)), x)])))],
               modifies=[("ghost", "ideal")], ghost_update=lambda c: [("ideal", TT.get(c.res, 0))],
               ensures=[("the earliest of the next times of all tags", ni_time), ("with exactly the tags due then", ni_tags)],
               loops={0: ni_inv}, locals={"next_times": ND})

    # -------------------------------------------------------- last_by_tag
    TL = TDict(TStr, TDate)

    def lbt_upto(c, n_of):
        pass

    def has_tag(h, k, x):
        return S(h.f("tags", k), x)

    def lbt_spec(d, h, hi, extra=None):
        """d maps each tag to the newest complete revision before position hi"""
        rng = lambda k: And(0 <= k, k < hi)
        return And(
            (lambda k, x: FA([k, x], Imp(And(rng(k), h.complete(k), has_tag(h, k, x)), And(S(TL.dom(d), x), S(TL.val(d), x) >= h.f("timestamp", k))), [has_tag(h, k, x)]))(bound("k", z3.IntSort()), bound("x", z3.StringSort())),
            forall(z3.StringSort(), lambda x: Imp(S(TL.dom(d), x), exists_int(lambda k: And(rng(k), h.complete(k), has_tag(h, k, x), S(TL.val(d), x) == h.f("timestamp", k)))), pats=lambda x: [S(TL.dom(d), x)]))

    def ts_ok(c):
        h = Hist(c.pre, c.a("repo") if "repo" in c.args else c.a("repository") if "repository" in c.args else c.a("self"))
        return forall_int(lambda k: Imp(h.rng(k), h.f("timestamp", k) >= 0), pats=lambda k: [h.at(k)])

    def lbt_outer(L):
        # the sequence iterated over: complete revisions in order
        d = L.local("last_times", TL)
        v = L.pre
        s = L.seq0
        el = lambda k: s.get(k).ref
        f = lambda fld, k: v.f("Revision", fld, el(k))
        return [
            ("every tag seen is recorded", (lambda k, x: FA([k, x], Imp(And(0 <= k, k < L.k, S(f("tags", k), x)), And(S(TL.dom(d), x), S(TL.val(d), x) >= f("timestamp", k))), [S(f("tags", k), x)]))(bound("k", z3.IntSort()), bound("x", z3.StringSort()))),
            ("recorded times stem from revisions seen", forall(z3.StringSort(), lambda x: Imp(S(TL.dom(d), x), exists_int(lambda k: And(0 <= k, k < L.k, S(f("tags", k), x), S(TL.val(d), x) == f("timestamp", k)))), pats=lambda x: [S(TL.dom(d), x)])),
        ]

    def lbt_inner(L):
        d = L.local("last_times", TL)
        d0 = L.entry_local("last_times", TL)
        rev = L.local("revision")
        ts = L.pre.f("Revision", "timestamp", rev)
        s = L.seq0
        seen = lambda x: And(S(s.dom, x), s.idx(x) < L.k)
        old = lambda x: S(TL.dom(d0), x)
        return [("tags seen are updated", forall(z3.StringSort(), lambda x: Imp(seen(x), And(S(TL.dom(d), x), S(TL.val(d), x) == z3.If(And(old(x), S(TL.val(d0), x) > ts), S(TL.val(d0), x), ts))), pats=lambda x: [s.idx(x)])),
                ("other tags are unchanged", forall(z3.StringSort(), lambda x: Imp(Not(seen(x)), And(S(TL.dom(d), x) == old(x), S(TL.val(d), x) == S(TL.val(d0), x))), pats=lambda x: [S(TL.dom(d), x)]))]

    u.contract("repository:Repository.last_by_tag", [("self", R("Repository"))], ret=TL,
               requires=[("time stamps are after year one", ts_ok)],
               ensures=[("tags of complete revisions with their newest time", lambda c: lbt_spec(c.res, Hist(c.pre, c.a("self")), Hist(c.pre, c.a("self")).n))],
               loops={0: lbt_outer, 1: lbt_inner}, locals={"last_times": TL})

    # ------------------------------------------------------------ _missed
    def missed(c, g, now, h=None):
        t = sched(c)
        h = Hist(c.pre, c.a("repository"))
        good = lambda x: exists_int(lambda k: And(h.rng(k), h.complete(k), has_tag(h, k, x), h.f("timestamp", k) > now - interval(t, x)))
        return forall(z3.StringSort(), lambda x: S(g, x) == And(dom(t, x), Not(good(x))), pats=lambda x: [S(g, x)])

    def missed_inv(L):
        g = L.local("missing_tags", SetStr)
        now = L.local("now", TDate)
        t = L.pre.f("Schedule", "schedule", L.args["self"])
        s = L.seq0
        b = s.keys
        val = lambda x: S(s.dty.val(s.dt), x)
        seen = lambda x: And(S(b.dom, x), b.idx(x) < L.k)
        return [("tags with a recent backup are removed", forall(z3.StringSort(), lambda x: S(g, x) == And(dom(t, x), Not(And(seen(x), val(x) > now - interval(t, x)))), pats=lambda x: [S(g, x)]))]

    def missed_now(c):
        # the instant of the last look at the clock is the reference
        return missed(c, c.res, c.post.g("clock"))

    u.contract("schedule:Schedule._missed", [("self", R("Schedule")), ("repository", R("Repository"))], ret=SetStr,
               requires=[("schedule well-formed", lambda c: wf_sched(sched(c))), ("time stamps are after year one", ts_ok)],
               ensures=[("exactly the tags without a recent complete backup", missed_now)],
               modifies=[("ghost", "clock"), ("ghost", "missed_at")], loops={0: missed_inv},
               ghost_update=lambda c: [("missed_at", c.post.g("clock"))])

    # --------------------------------------------------------------- next
    def is_missed(c, x):
        t = sched(c)
        h = Hist(c.pre, c.a("repository"))
        now = c.post.g("missed_at")
        return And(dom(t, x), Not(exists_int(lambda k: And(h.rng(k), h.complete(k), has_tag(h, k, x), h.f("timestamp", k) > now - interval(t, x)))))

    def next_post(c):
        t, rel, sp = sched(c), c.a("relative"), c.a("spread")
        T = c.post.g("ideal")
        time, tags = TT.get(c.res, 0), TT.get(c.res, 1)
        due = lambda x: And(dom(t, x), NII(rel, interval(t, x), sp) == T)
        regular = And(time == T, forall(z3.StringSort(), lambda x: S(tags, x) == Or(due(x), is_missed(c, x)), pats=lambda x: [S(tags, x)]))
        catchup = And(time <= c.post.g("clock"), time >= c.pre.g("clock"), Hist(c.pre, c.a("repository")).n > 0, T > c.pre.g("clock") + 300,
                      forall(z3.StringSort(), lambda x: S(tags, x) == is_missed(c, x), pats=lambda x: [S(tags, x)]))
        return Or(regular, catchup)

    def next_when(c):
        """an immediate run is planned exactly if something was missed, there is
        a history, and the regular run is more than five minutes away"""
        T = c.post.g("ideal")
        time = TT.get(c.res, 0)
        h = Hist(c.pre, c.a("repository"))
        some = exists(z3.StringSort(), lambda x: is_missed(c, x))
        return And(Imp(And(some, h.n > 0, T > c.post.g("clock") + 300), time <= c.post.g("clock")),
                   Imp(Or(Not(some), h.n == 0), time == T))

    sane = lambda c: And(c.a("relative") >= 0, forall(z3.StringSort(), lambda x: Imp(dom(sched(c), x), c.a("relative") >= interval(sched(c), x)), pats=lambda x: [S(TSched.dom(sched(c)), x)]))
    nonempty = lambda c: exists(z3.StringSort(), lambda x: dom(sched(c), x))
    u.contract("schedule:Schedule.next", [("self", R("Schedule")), ("relative", TDate), ("spread", TInt), ("repository", R("Repository"))], ret=TT,
               requires=[("schedule well-formed", lambda c: wf_sched(sched(c))), ("schedule not empty", nonempty), ("dates are after year one", sane),
                         ("time stamps are after year one", ts_ok)],
               ensures=[("the ideal time is the earliest next time", lambda c: ni_time(c, c.post.g("ideal"))),
                        ("time and tags", next_post), ("catch-up exactly when needed", next_when)],
               modifies=[("ghost", "clock"), ("ghost", "ideal"), ("ghost", "missed_at")])

    # -------------------------------------------------------- sla_overdue
    def last_complete(h, j):
        return And(h.rng(j), h.complete(j), forall_int(lambda k: Imp(And(h.rng(k), h.complete(k)), k <= j), pats=lambda k: [h.at(k)]))

    def sla_post(c):
        h = Hist(c.pre, c.a("self"))
        t = c.pre.f("Schedule", "schedule", c.pre.f("Repository", "schedule", c.a("self")))
        now = c.post.g("clock")
        none = Not(exists_int(lambda k: And(h.rng(k), h.complete(k))))
        late = lambda j, x: now - h.f("timestamp", j) > interval(t, x) * z3.Q(3, 2)
        is_min = lambda x: And(dom(t, x), forall(z3.StringSort(), lambda y: Imp(dom(t, y), interval(t, x) <= interval(t, y)), pats=lambda y: [S(TSched.dom(t), y)]))
        j, x = bound("j", z3.IntSort()), bound("x", z3.StringSort())
        return And(Imp(none, c.res == 0),
                   FA([j, x], Imp(And(last_complete(h, j), is_min(x)), And(Imp(late(j, x), c.res == now - h.f("timestamp", j)), Imp(Not(late(j, x)), c.res == 0)))))

    u.contract("repository:Repository.sla_overdue", [("self", R("Repository"))], ret=TReal,
               requires=[("schedule well-formed", lambda c: wf_sched(c.pre.f("Schedule", "schedule", c.pre.f("Repository", "schedule", c.a("self"))))),
                         ("schedule not empty", lambda c: exists(z3.StringSort(), lambda x: dom(c.pre.f("Schedule", "schedule", c.pre.f("Repository", "schedule", c.a("self"))), x)))],
               ensures=[("age of the newest complete revision if older than 1.5 times the shortest interval, else 0", sla_post)],
               modifies=[("ghost", "clock")])
