"""C21: the job loop, run over virtual time."""
import asyncio
import datetime
import pathlib
import random
import selectors
import types

from h import *
import peers
from peers import Peer, FakeClient, Manager, failure
import backy.daemon.scheduler as sch
import backy.utils
from backy.daemon.scheduler import Job
from backy.repository import Repository
from backy.revision import Revision
from backy.source import AsyncCmdLineSource

BASE = datetime.datetime(2024, 5, 17, 10, 0, tzinfo=UTC)


class Virtual(selectors.DefaultSelector):
    """never waits: time jumps to the next event"""

    t = 0.0
    idle = 0

    def select(self, timeout=None):
        r = super().select(0)
        if not r:
            if timeout is None:
                r = super().select(0.05)
                self.idle += 1
                if self.idle > 200:
                    raise Violation("the job waits for nothing")
            elif timeout > 0:
                self.t += timeout
        return r


def virtual_loop(c):
    sel = Virtual()
    loop = asyncio.SelectorEventLoop(sel)
    loop.time = lambda: sel.t
    loop._clock_resolution = 1e-6
    c.p.set(backy.utils, "now", lambda: BASE + datetime.timedelta(seconds=round(sel.t, 6)))
    return loop, sel


class Done(Exception):
    pass


def secs(d):
    return (d - BASE).total_seconds()


CONF = {"daily": {"interval": "1d", "keep": 2}, "hourly": {"interval": "1h", "keep": 2}}


class Rig:
    def __init__(self, c, npeers):
        self.c, self.r = c, c.rng
        self.path = pathlib.Path(c.dir) / "job"
        self.path.mkdir()
        self.loop, self.sel = virtual_loop(c)
        self.events = []
        self.rounds = []  # what happened, one list for every round
        self.peers = [Peer(f"p{i}") for i in range(npeers)]
        for p in self.peers:
            p.status = lambda p: self.status(p)
        Manager.peers = {p.name: p for p in self.peers}
        c.p.set(sch, "ClientManager", Manager)
        rig = self
        self.real_call = FakeClient.call

        async def call(client, name, *a):
            rig.event(name, client.peer.name, *a)
            await rig.real_call(client, name, *a)

        c.p.set(FakeClient, "call", call)
        self.daemon = types.SimpleNamespace(
            peers={p.name: {"url": "", "token": ""} for p in self.peers},
            base_dir=self.path.parent,
            schedules={"s": schedule(CONF)},
            backup_completed_callback=pathlib.Path("/callback"),
            backup_semaphores={k: asyncio.BoundedSemaphore(1) for k in ("slow", "fast")},
            loop=self.loop,
        )
        job = self.job = Job(self.daemon, "job", Log())
        job.configure({"schedule": "s", "source": {"type": "file", "filename": "x"}})

        async def invoke(src, *a):
            await asyncio.sleep(0)
            return rig.invoke(*a)

        c.p.set(AsyncCmdLineSource, "invoke", invoke)

        async def exe(*a, **kw):
            rig.event("callback")
            if rig.plan.get("callback"):
                raise OSError(2, "no such file")
            return rig.Proc()

        c.p.set(asyncio, "create_subprocess_exec", exe)
        self.plan = {}

    class Proc:
        pid, returncode = 1, 0

        async def communicate(self, data=None):
            return b"", b""

        async def wait(self):
            return 0

        def terminate(self):
            pass

    def now(self):
        return backy.utils.now()

    def snapshot(self):
        d = disk(self.path)
        return d

    def event(self, what, *a):
        self.events.append((what, self.now(), a, self.snapshot()))
        self.on_event(what)

    def on_event(self, what):
        pass

    def status(self, p):
        return []


def incomplete_local(d):
    return {u for u, m in d.items() if not m[6] and "duration" not in m[2]}


@scenario("C21", 30, 1500)
def loop(c):
    """rounds with random outcomes of every step; order, deadlines, retries"""
    r = c.rng
    rig = Rig(c, r.choice([0, 1, 2]))
    path = rig.path
    o = repo(path)
    # local history: enough old revisions so that something expires
    for i in range(r.choice([0, 1, 4, 6])):
        rev(o, r.choice([{"daily", "hourly"}, {"hourly"}, {"daily"}, {"manual:x"}]), ts=BASE - datetime.timedelta(days=60 - i * 3), duration=r.choice([1.0, 1000.0]))
    for i in range(r.choice([0, 1, 2])):
        rev(o, {"daily"}, ts=BASE - datetime.timedelta(days=1, seconds=i), duration=None)
    for p in rig.peers:
        if r.random() < 0.6:
            d = dict(uuid=f"remote-{p.name}", timestamp=BASE - datetime.timedelta(days=2), stats={"duration": 1.0, "bytes_written": 0}, tags=["daily"], orig_tags=[], trust="trusted", server="", parent="")
            p.revs.append(d)
            v = rev(o, {"manual:edited"}, ts=d["timestamp"], duration=1.0, server=p.name, uuid=d["uuid"], orig={"daily"})
    n = r.choice([3, 6, 12])
    state = {"round": 0, "failures": 0, "expected": None, "start": None}
    log = []
    manual_at = {}

    def plan():
        state["round"] += 1
        rig.plan = {}
        k = r.random()
        fail_more = state["failures"] and r.random() < 0.7
        if k < 0.35 or fail_more:
            rig.plan["backup"] = r.choice([1, 2, -9, "raise", "incomplete-1"])
        elif k < 0.45:
            rig.plan["gc"] = "raise"
        elif k < 0.5:
            rig.plan["callback"] = True
        elif k < 0.55:
            rig.plan["expire"] = True
        c.note("round", state["round"], "plan", rig.plan, "at", str(rig.now()))

    def expected_start():
        """when the next backup has to begin, given the state now"""
        if state["failures"]:
            return rig.now() + datetime.timedelta(minutes=min(2 ** state["failures"], 360))
        t, tags = schedule(CONF).next(rig.now(), rig.job.spread, repo(path))
        state["tags"] = set(tags)
        return max(t, rig.now())

    def finish_round(t_end):
        """the events of a round which is over"""
        ev = list(rig.events)
        rig.events.clear()
        names = [e[0] for e in ev]
        p = rig.plan
        failed = bool(p)
        b = [e for e in ev if e[0] == "backup"]
        eq(len(b), 1, f"backups in round {state['round']}")
        order = [x for i, x in enumerate(names) if i == 0 or names[i - 1] != x]
        c.note("events", order)
        remote_edits = any(m[6] and m[3] != m[4] and m[6] in rig.daemon.peers for m in b[0][3].values())
        if "backup" in p:
            eq(order[order.index("backup") :], ["backup"], "steps during and after a failed backup")
            eq({u for u in rig.before if u not in rig.after and not u in incomplete_local(rig.before)}, set(), "complete revisions removed though the backup failed")
        else:
            steps = [x for x in order[order.index("backup") + 1 :]]
            want = ["backup"]
            if rig.peers:
                kinds = {"touch": "pull", "get_revs": "pull", "put_tags": "push", "purge": "push"}
                steps = [kinds.get(x, x) for x in steps]
                steps = [x for i, x in enumerate(steps) if i == 0 or steps[i - 1] != x]
            want = (["pull"] if rig.peers else [])
            if "expire" not in p:
                if "push" in steps:
                    want.append("push")
                want.append("gc")
                if "gc" not in p:
                    want.append("callback")
            else:
                steps = [x for x in steps if x != "push"]
            eq(steps, want, "steps after a successful backup")
            for what, t, a, d in ev[names.index("backup") + 1 :]:
                eq(incomplete_local(d), set(), f"incomplete revisions at {what}")
            if "expire" not in p:
                # what is expired is removed after pulling and before the rest
                exp = rig.expired
                for what, t, a, d in ev[names.index("backup") + 1 :]:
                    loc = {u for u, m in d.items() if not m[6]}
                    if what in ("touch", "get_revs"):
                        expect(not (exp - loc), "{} expired before pulling", exp - loc)
                    else:
                        expect(not (exp & loc), "{} not expired at {}", exp & loc, what)
        if failed:
            state["failures"] += 1
        else:
            state["failures"] = 0

    def check_start(t):
        want = state["expected"]
        if state["manual"] is not None and state["manual"] < want:
            want = state["manual"]
        expect(abs((t - want).total_seconds()) < 0.05, "the round starts at {}, expected {} (failures {}, manual {})", t, want, state["failures"], state["manual"])

    def invoke(*a):
        if "backup" in a:
            uid = a[a.index("backup") + 1]
            d = rig.snapshot()
            if not rig.events:
                check_start(rig.now())
            eq(incomplete_local(d), {uid}, "incomplete revisions when the backup starts")
            rig.event("backup", uid)
            rig.before = d
            if state["failures"] == 0 and "tags" in state and state["manual"] is None:
                eq(set(d[uid][3]), state["tags"], "tags of the new revision")
            k = rig.plan.get("backup")
            if k == "raise":
                rig.after = rig.snapshot()
                raise OSError(12, "no memory")
            if k is None or k == "incomplete-1" and r.random() < 0.5:
                x = repo(path).find_by_uuid(uid)
                x.stats["duration"] = 5.0
                x.write_info()
            # what the schedule removes afterwards (judged on a copy)
            import shutil

            cp = pathlib.Path(c.dir) / "copy"
            shutil.copytree(path, cp)
            q = Repository(cp, schedule(CONF), Log())
            q.connect()
            old = {v.uuid for v in q.get_history(local=True)}
            for v in list(q.get_history(local=True)):
                if "duration" not in v.stats:
                    v.remove()
            q.expire()
            q = repo(cp)
            rig.expired = {u for u in old if u not in {v.uuid for v in q.get_history(local=True)}} - incomplete_local(rig.snapshot())
            shutil.rmtree(cp)
            rig.after = rig.snapshot()
            return 1 if k == "incomplete-1" else (k or 0)
        assert "gc" in a
        rig.event("gc")
        if rig.plan.get("gc"):
            raise OSError(12, "no memory")
        return 0

    rig.invoke = invoke
    real_expire = Repository.expire

    def expire(self, *a, **kw):
        if rig.plan.get("expire") and self.path == path:
            raise BlockingIOError(11, "locked")
        return real_expire(self, *a, **kw)

    c.p.set(Repository, "expire", expire)
    real_connect = Repository.connect
    async def put_ok(self, rev_, autoremove=False):
        await self.call("put_tags", rev_.uuid)
        for d in self.peer.revs:
            if d["uuid"] == rev_.uuid:
                d["tags"] = list(rev_.tags)

    c.p.set(FakeClient, "put_tags", put_ok)

    # a round begins when the loop computes its next deadline
    real_next = rig.daemon.schedules["s"].next

    async def main():
        job = rig.job
        status = []
        task = asyncio.ensure_future(job.run_forever())
        waited = 0
        while True:
            # wait until the job waits for its deadline
            for _ in range(200000):
                if job.status == "waiting for deadline" and job.next_time:
                    break
                if task.done():
                    task.result()
                    raise Violation("the job loop ended")
                await asyncio.sleep(0)
            else:
                raise Violation("the job does not get to waiting for its deadline")
            if state["round"]:
                finish_round(rig.now())
            if state["round"] >= n:
                task.cancel()
                try:
                    await task
                except asyncio.CancelledError:
                    pass
                return
            state["expected"] = expected_start()
            state["manual"] = None
            plan()
            seen = job.next_time
            if abs((max(seen, rig.now()) - state["expected"]).total_seconds()) > 0.05:
                raise Violation(f"the next run is planned at {seen}, expected {state['expected']} (failures {state['failures']})")
            if r.random() < 0.2:
                wait = (state["expected"] - rig.now()).total_seconds() * r.random()
                await asyncio.sleep(wait)
                if not rig.events:
                    state["manual"] = rig.now()
                    job.run_immediately.set()
            if state["manual"] is None:
                await asyncio.sleep(max((seen - rig.now()).total_seconds(), 0))
            spins = 0
            while job.next_time is seen and job.status == "waiting for deadline" and not task.done():
                spins += 1
                await asyncio.sleep(0 if spins < 50 else 1e-3)
                if spins > 5000:
                    raise Violation(f"nothing happens at {seen}")

    try:
        rig.loop.run_until_complete(asyncio.wait_for(main(), None))
    finally:
        for t in asyncio.all_tasks(rig.loop):
            t.cancel()
        rig.loop.run_until_complete(asyncio.sleep(0))
        rig.loop.close()


@scenario("C21", 80, 3000)
def leader(c):
    """own backups are only skipped in favour of a peer with more revisions and a recent backup"""
    r = c.rng
    rig = Rig(c, r.choice([1, 2, 3]))
    path = rig.path
    o = repo(path)
    n = r.choice([0, 1, 3])
    for i in range(n):
        rev(o, {"daily"}, ts=BASE - datetime.timedelta(days=3 + i), duration=1.0)
    if r.random() < 0.5:
        rev(o, {"daily"}, ts=BASE - datetime.timedelta(days=1), duration=None)
    if r.random() < 0.5:
        rev(o, {"daily"}, ts=BASE - datetime.timedelta(days=1), duration=1.0, server="p0", orig={"daily"})
    rig.daemon.schedules["s"].configure(CONF)
    next_time = BASE + datetime.timedelta(seconds=r.choice([0, 100, 5000]))
    answers = {p.name: [] for p in rig.peers}
    revs = {p.name: r.choice([0, n, n, n + 1, n + 1, n + 4]) for p in rig.peers}

    def status(p):
        res = {
            "local_revs": revs[p.name],
            "status": r.choice(["running", "running", "waiting", ""]),
            "last_time": r.choice([None, next_time - datetime.timedelta(seconds=r.choice([-500, -1, 0, 299, 301, 4000])), next_time - datetime.timedelta(days=1)]),
            "next_time": r.choice([None, next_time + datetime.timedelta(seconds=r.choice([-100, 0, 299, 301, 9999]))]),
        }
        if len(answers[p.name]) > 12:
            res["status"] = ""
        answers[p.name].append(res)
        return [res]

    rig.status = status
    for p in rig.peers:
        if r.random() < 0.25:
            p.fail["status"] = r.choice(["connection", "timeout", 404, 500, "other"])
    backups = []

    def invoke(*a):
        if "backup" in a:
            backups.append(rig.now())
            raise Done()
        return 0

    rig.invoke = invoke
    callbacks = []
    last = {}

    def on_event(what):
        if what == "callback":
            if not callbacks:
                last.update({k: v[-1:] for k, v in answers.items()})
            callbacks.append(rig.now())

    rig.on_event = on_event
    job = rig.job
    sched = job.repository.schedule
    c.p.set(sched, "next", lambda *a: (next_time, {"daily"}))
    trigger = r.random() < 0.2
    fail_later = r.random() < 0.2

    async def main():
        task = asyncio.ensure_future(job.run_forever())
        for _ in range(100000):
            if task.done():
                task.result()
            if backups or callbacks:
                break
            if rig.events and trigger and r.random() < 0.05:
                job.run_immediately.set()
            if fail_later and any(len(x) > 1 for x in answers.values()):
                for p in rig.peers:
                    p.fail["status"] = "connection"
            await asyncio.sleep(0 if r.random() < 0.9 else 1)
        else:
            raise Violation("neither an own backup nor one of a peer")
        task.cancel()
        try:
            await task
        except asyncio.CancelledError:
            pass

    try:
        rig.loop.run_until_complete(main())
    finally:
        rig.loop.run_until_complete(asyncio.sleep(0))
        rig.loop.close()
    if backups and not last:
        last.update({k: v[-1:] for k, v in answers.items()})
    c.note("local", n, "peers", revs, last, "own backup" if backups else "skipped")
    possible = [p.name for p in rig.peers if revs[p.name] > n and last.get(p.name)]
    if not possible:
        expect(backups, "own backup skipped though no peer has more than the {} complete local revisions: {}", n, revs)
    if callbacks:
        ok = [x for x in possible if last[x][0]["last_time"] and (next_time - last[x][0]["last_time"]).total_seconds() < 300]
        expect(ok, "own backup skipped though no peer with more revisions has finished a recent one: {}", last)
    c.nontrivial = bool(possible)


@scenario("C21", 80, 1500)
def clean(c):
    """exactly the incomplete local revisions are cleaned, also if others change the repository"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    o = repo(path)
    for i in range(r.choice([0, 1, 3, 6])):
        rev(o, r.choice([{"daily"}, set(), {"manual:x"}]), ts=ts(i * 100), duration=r.choice([None, None, 0, 0.0, 1.5]), server=r.choice(["", "", "peer"]), trust=r.choice(["trusted", "distrusted", "verified"]))
    rp = repo(path)
    for _ in range(r.choice([0, 0, 1, 2])):
        o = repo(path)
        if o.history and r.random() < 0.7:
            v = r.choice(o.history)
            if r.random() < 0.3:
                v.remove(force=True)
            elif "duration" in v.stats:
                del v.stats["duration"]
                v.write_info()
            else:
                v.stats["duration"] = r.choice([0, 3.0])
                v.write_info()
        else:
            rev(o, {"daily"}, ts=ts(r.randrange(9999)), duration=r.choice([None, 1.0]))
    before = disk(path)
    rp._clean()
    gone = incomplete_local(before)
    eq(disk(path), {u: m for u, m in before.items() if u not in gone}, "revisions after cleaning")
    eq({v.uuid for v in rp.history}, set(before) - gone, "loaded history")
    c.nontrivial = bool(gone)
