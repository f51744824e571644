"""C20: synchronisation of metadata with peers."""
import asyncio
import pathlib
import types

import aiohttp
from aiohttp import ClientConnectionError, ClientError, ClientResponseError
from h import *
import backy.daemon.scheduler as sch
from backy.daemon.scheduler import Job
from backy.revision import Revision, Trust
from backy.source import AsyncCmdLineSource


def http_error(status):
    return ClientResponseError(types.SimpleNamespace(real_url="http://peer/"), (), status=status, message="no")


def failure(kind):
    if kind == "connection":
        return ClientConnectionError("no connection")
    if kind == "timeout":
        return aiohttp.ServerTimeoutError("timeout")
    if kind == "other":
        return ClientError("other")
    return http_error(kind)


class Peer:
    """what a peer has, and which of its calls fail"""

    def __init__(self, name, revs=()):
        self.name = name
        self.revs = list(revs)  # dictionaries as sent by the API
        self.fail = {}  # call or (call, uuid) -> kind
        self.calls = []
        self.status = None


class FakeClient:
    def __init__(self, peer):
        self.peer = peer
        self.server_name = peer.name
        self.closed = False

    async def call(self, name, *args):
        await asyncio.sleep(0)
        self.peer.calls.append((name,) + args)
        k = self.peer.fail.get((name, args[0] if args else None)) or self.peer.fail.get(name)
        if k:
            raise failure(k)

    async def touch_backup(self, name):
        await self.call("touch", name)

    async def get_revs(self, repository, only_clean=True):
        await self.call("get_revs", repository.name, only_clean)
        out = []
        for d in self.peer.revs:
            r = Revision.from_dict(dict(d), repository, Log())
            r.orig_tags = r.tags
            r.server = self.server_name
            out.append(r)
        return out

    async def put_tags(self, rev, autoremove=False):
        await self.call("put_tags", rev.uuid, frozenset(rev.orig_tags), frozenset(rev.tags), autoremove)

    async def run_purge(self, name):
        await self.call("purge", name)

    async def fetch_status(self, filter=""):
        await self.call("status", filter)
        s = self.peer.status
        return s(self.peer) if callable(s) else s

    async def close(self):
        self.closed = True


class Manager:
    """stand-in for the collection of API clients"""

    peers = {}

    def __init__(self, peers, taskid, log):
        self.conf = peers
        self.clients = {}

    def __getitem__(self, name):
        self.conf[name]
        if name not in self.clients:
            self.clients[name] = FakeClient(Manager.peers[name])
        return self.clients[name]

    def __iter__(self):
        return iter(self.conf)

    async def close(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.close()


def job_for(c, rp, peers=()):
    Manager.peers = {p.name: p for p in peers}
    c.p.set(sch, "ClientManager", Manager)
    job = Job.__new__(Job)
    job.name = rp.name
    job.log = Log()
    job.taskid = "t"
    job.daemon = types.SimpleNamespace(peers={p.name: {"url": "", "token": ""} for p in peers})
    job.source = AsyncCmdLineSource(rp, {"type": "file", "filename": "x"}, Log())
    return job, Manager


TAGS = ["daily", "weekly", "manual:a", "manual:b"]


def local_state(d):
    return {u: m for u, m in d.items() if not m[6]}


@scenario("C20", 150, 5000)
def pull(c):
    """random local and remote revisions, colliding identifiers, failing peers"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    names = ["p1", "p2", "gone"]
    for i in range(r.choice([0, 1, 3, 6, 9])):
        s = r.choice(["", "", "p1", "p2", "p1", "gone"])
        tg = r.sample(TAGS, r.randrange(0, 3))
        rev(rp, tg, ts=ts(i * 100), duration=r.choice([None, 1.0, 2.0]), server=s, trust=r.choice(["trusted", "verified", "distrusted"]), uuid=f"u{i}", orig=tg if s and r.random() < 0.7 else (["daily"] if s else []))
    rp.scan()
    before = disk(path)
    peers = []
    for n in ("p1", "p2")[: r.choice([1, 2, 2])]:
        revs = []
        for u, m in before.items():
            if (m[6] == n and r.random() < 0.7) or (m[6] == "" and r.random() < 0.2):
                same = r.random() < 0.5
                src = rp.find_by_uuid(u)
                d = src.to_dict()
                d["server"], d["orig_tags"] = "", []
                if not same:
                    d["tags"] = r.sample(TAGS, r.randrange(0, 3))
                if r.random() < 0.2:
                    d["trust"] = r.choice(["trusted", "verified", "distrusted"])
                if r.random() < 0.2:
                    d["stats"] = {"duration": 9.0, "bytes_written": 1}
                revs.append(d)
        for i in range(r.choice([0, 0, 1, 3])):
            revs.append(dict(uuid=f"{n}-new{i}", timestamp=ts(1000 * r.randrange(10) + i).isoformat() if r.random() < 0.5 else ts(5000 + i), stats={"duration": 3.0, "bytes_written": 0}, tags=r.sample(TAGS, r.randrange(0, 3)), orig_tags=[], trust=r.choice(["trusted", "verified", "distrusted"]), server=r.choice(["", "p2", "other"]), parent=""))
        p = Peer(n, revs)
        k = r.random()
        if k < 0.25:
            p.fail[r.choice(["touch", "get_revs"])] = r.choice(["connection", "timeout"])
        elif k < 0.35:
            p.fail[r.choice(["touch", "get_revs"])] = r.choice([404, 403])
        elif k < 0.42:
            p.fail[r.choice(["touch", "get_revs"])] = r.choice([500, 503, "other"])
        peers.append(p)
    job, _ = job_for(c, rp, peers)
    c.note("before", [(u, sorted(m[3]), sorted(m[4]), m[5], m[6]) for u, m in before.items()])
    for p in peers:
        c.note("peer", p.name, p.fail, [(d["uuid"], d["tags"], d["trust"]) for d in p.revs])
    errors = asyncio.run(job.pull_metadata())
    after = disk(path)
    eq(local_state(after), local_state(before), "revisions of this server")
    known = {p.name for p in peers}
    bad = 0
    for p in peers:
        got = {u: m for u, m in after.items() if m[6] == p.name}
        had = {u: m for u, m in before.items() if m[6] == p.name}
        kinds = set(p.fail.values())
        if kinds & {"connection", "timeout"}:
            bad += 1
            eq(got, had, f"revisions of the unreachable peer {p.name}")
        elif kinds & {500, 503, "other"}:
            bad += 1
            expect(set(got) <= set(had), f"new revisions of the failing peer {p.name}")
        else:
            want = {}
            if not kinds:
                for d in p.revs:
                    u = d["uuid"]
                    if u in before and not before[u][6]:
                        continue
                    t = d["timestamp"]
                    t = datetime.datetime.fromisoformat(t) if isinstance(t, str) else t
                    want[u] = (u, t, d["stats"], frozenset(d["tags"]), frozenset(d["tags"]), d["trust"], p.name)
            eq(got, want, f"revisions of {p.name}")
    others = {u: m for u, m in after.items() if m[6] and m[6] not in known}
    eq(others, {}, "revisions of former peers")
    eq(errors, bad, "errors reported")
    expect(not list(path.glob("tmp*")), "temporary files left")


@scenario("C20", 150, 5000)
def push(c):
    """pending tag edits and removals, refused and lost requests"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    names = ["p1", "p2"][: r.choice([1, 2, 2])]
    for i in range(r.choice([0, 1, 3, 6, 9])):
        s = r.choice(["", "p1", "p2", "p1", "gone"])
        orig = r.sample(TAGS, r.randrange(0, 3))
        tg = orig if r.random() < 0.4 else ([] if r.random() < 0.4 else r.sample(TAGS, r.randrange(0, 3)))
        rev(rp, tg, ts=ts(i * 100), duration=r.choice([None, 1.0, 2.0, 2.0, 0]), server=s, uuid=f"u{i}", orig=orig if s else [])
    rp.scan()
    before = disk(path)
    peers = [Peer(n) for n in names]
    pend = {u: m for u, m in before.items() if m[6] in names and m[3] != m[4] and "duration" in m[2]}
    for p in peers:
        if r.random() < 0.3:
            p.fail["put_tags"] = r.choice(["connection", "timeout", 412, 404, 403, 503, 500, "other"])
        for u in pend:
            if r.random() < 0.3:
                p.fail[("put_tags", u)] = r.choice(["connection", 412, 404, 403, 503, 500, "other"])
        if r.random() < 0.3:
            p.fail["purge"] = r.choice(["connection", 403, 404, "other"])
    c.note("before", [(u, sorted(m[3]), sorted(m[4]), m[6], m[2].get("duration")) for u, m in before.items()])
    for p in peers:
        c.note("peer", p.name, p.fail)
    job, _ = job_for(c, rp, peers)
    errors = asyncio.run(job.push_metadata())
    after = disk(path)
    want = dict(before)
    bad = 0
    for p in peers:
        mine = {u: m for u, m in pend.items() if m[6] == p.name}
        eq(sorted(x for x in p.calls if x[0] == "put_tags"), sorted([("put_tags", u, m[4], m[3], True) for u, m in mine.items()]), f"tag edits sent to {p.name}")
        removed, err = False, False
        for u, m in mine.items():
            if p.fail.get(("put_tags", u)) or p.fail.get("put_tags"):
                err = True
                continue
            if m[3]:
                want[u] = m[:4] + (m[3],) + m[5:]
            else:
                del want[u]
                removed = True
        eq(len([x for x in p.calls if x[0] == "purge"]), int(removed), f"purges requested from {p.name}")
        eq([x for x in p.calls if x[0] not in ("put_tags", "purge")], [], "other requests")
        if removed and p.fail.get("purge"):
            err = True
        bad += err
    eq(after, want, "revisions after the push")
    eq({x.uuid: meta(x) for x in rp.history}, want, "history after the push")
    eq(errors, bad, "errors reported")
    if r.random() < 0.5:
        # a second push only repeats what has not been accepted
        for p in peers:
            p.calls.clear()
            p.fail.clear()
        asyncio.run(job.push_metadata())
        again = {x[1] for p in peers for x in p.calls if x[0] == "put_tags"}
        eq(again, {u for u, m in want.items() if u in pend and m[3] != m[4]}, "edits sent again")


@scenario("C20", 14, 150)
def over_http(c):
    """the real client and API over loopback: pull, edits on both sides, push"""
    import functools
    from api import api_server

    r = c.rng
    base = pathlib.Path(c.dir)
    (base / "here").mkdir()
    (base / "there").mkdir()
    mine, theirs = repo(base / "here" / "job") if (base / "here" / "job").mkdir() is None else None, None
    (base / "there" / "job").mkdir()
    theirs = repo(base / "there" / "job")
    lu = rev(mine, {"daily"}, ts=ts(1), duration=1.0, uuid="mine").uuid
    for i in range(4):
        rev(theirs, r.sample(TAGS, r.randrange(1, 3)), ts=ts(10 + i), duration=1.0 if i else None, uuid=f"t{i}", trust=r.choice(["trusted", "verified"]))
    rev(theirs, {"daily"}, ts=ts(30), duration=1.0, uuid="foreign", server="third", orig={"daily"})
    mine.scan(), theirs.scan()
    active = r.random() < 0.3
    d = types.SimpleNamespace(jobs={}, dead_repositories={}, reload=lambda: None, status=lambda f=None: [])
    (d.jobs if active else d.dead_repositories)["job"] = types.SimpleNamespace(repository=theirs, name="job") if active else theirs

    async def go():
        api, port, stop = await api_server(d, {"secret": "me"})
        try:
            job, _ = job_for(c, mine, [])
            from backy.daemon.api import ClientManager

            c.p.set(sch, "ClientManager", ClientManager)
            job.daemon.peers = {"peer": {"url": f"http://127.0.0.1:{port}", "token": "secret"}}
            eq(await job.pull_metadata(), 0, "errors of the pull")
            there = disk(theirs.path)
            here = disk(mine.path)
            eq({u: m[:4] + (m[5],) for u, m in here.items() if m[6] == "peer"}, {u: m[:4] + (m[5],) for u, m in there.items() if not m[6] and "duration" in m[2]}, "pulled revisions")
            expect(all(m[3] == m[4] for m in here.values() if m[6]), "pulled revisions have pending edits")
            mine.scan()
            # edits here, and one conflicting edit there
            mine.tags("add", "t1", {"manual:new"})
            mine.rm([mine.find_by_uuid("t2")])
            mine.tags("set", "t3", {"weekly"}, force=True)
            conflict = r.random() < 0.5
            if conflict:
                theirs.tags("add", "t3", {"manual:conflict"})
            pending = {u: m for u, m in disk(mine.path).items() if m[6] and m[3] != m[4]}
            t0 = disk(theirs.path)
            e = await job.push_metadata()
            t1, h1 = disk(theirs.path), disk(mine.path)
            if active:
                eq(t1, t0, "revisions of an active job of the peer")
                eq({u: h1[u] for u in pending}, pending, "edits which were refused")
                expect(e or not pending, "no error reported")
                return
            eq(t1["t1"][3], pending["t1"][3], "tags at the origin")
            expect("t2" not in t1 and "t2" not in h1, "the removal was not synchronised")
            expect((theirs.path / ".purge_pending").exists(), "no purge requested")
            if conflict and "t3" in pending:
                eq(t1["t3"], t0["t3"], "tags at the origin after a conflict")
                eq(h1["t3"], pending["t3"], "edit which was refused")
                expect(e, "no error reported")
            elif "t3" in pending:
                eq((t1["t3"][3], h1["t3"][3], h1["t3"][4]), (frozenset({"weekly"}),) * 3, "tags after the push")
            eq({u: m for u, m in t1.items() if u not in pending}, {u: m for u, m in t0.items() if u not in pending}, "other revisions of the origin")
            eq(h1["mine"], here["mine"], "own revision")
            eq(t1["foreign"], there["foreign"], "revision of a third server")
        finally:
            await stop()

    asyncio.run(go())
