"""C19: authentication and protection of the API."""
import asyncio
import json
import pathlib
import types

import aiohttp
from h import *
from backy.daemon.api import BackyAPI


async def api_server(daemon, tokens):
    from aiohttp.web import TCPSite

    api = BackyAPI(daemon, Log())
    await api.start()
    await api.reconfigure(tokens, [], 0)
    site = TCPSite(api.runner, "127.0.0.1", 0)
    await site.start()
    port = site._server.sockets[0].getsockname()[1]
    return api, port, api.stop


class Jobs:
    def __init__(self, repository, name, effects):
        self.repository, self.name = repository, name
        self.run_immediately = types.SimpleNamespace(set=lambda: effects.append(("run", name)))

    def to_dict(self):
        return {"name": self.name}


class World:
    def __init__(self, c):
        r = c.rng
        self.base = pathlib.Path(c.dir) / "base"
        self.base.mkdir()
        self.effects = []
        self.repos = {}
        for name in ("active", "active2", "dead", "dead2"):
            (self.base / name).mkdir()
            rp = self.repos[name] = repo(self.base / name)
            for i in range(3):
                rev(rp, r.choice([{"daily"}, {"daily", "manual:a"}, set()]), ts=ts(i * 100), duration=1.0 if i != 1 else None, uuid=f"{name}-{i}", server="peer" if r.random() < 0.2 else "")
            rp.scan()
        self.daemon = types.SimpleNamespace(
            jobs={n: Jobs(self.repos[n], n, self.effects) for n in ("active", "active2")},
            dead_repositories={n: self.repos[n] for n in ("dead", "dead2")},
            reload=lambda: self.effects.append(("reload",)),
            status=lambda f=None: self.effects.append(("status", f.pattern if f else None)) or [{"job": "active"}],
        )

    def state(self):
        import os

        return {n: (disk(rp.path), os.stat(rp.path).st_mtime_ns if n else 0, (rp.path / ".purge_pending").exists()) for n, rp in self.repos.items()}

    def content(self):
        return {n: (disk(rp.path), (rp.path / ".purge_pending").exists()) for n, rp in self.repos.items()}


def requests(r):
    out = [("GET", "/v1/status", None), ("GET", "/v1/status?filter=act", None), ("POST", "/v1/reload", None), ("GET", "/v1/jobs", None), ("GET", "/v1/backups", None)]
    for n in ("active", "dead", "nosuch"):
        out += [("POST", f"/v1/jobs/{n}/run", None), ("POST", f"/v1/backups/{n}/purge", None), ("POST", f"/v1/backups/{n}/touch", None), ("GET", f"/v1/backups/{n}/revs", None), ("GET", f"/v1/backups/{n}/revs?only_clean=1", None),
                ("PUT", f"/v1/backups/{n}/revs/{n}-0/tags", {"old_tags": ["daily"], "new_tags": ["manual:new"]}), ("PUT", f"/v1/backups/{n}/revs/all/tags?autoremove=1", {"old_tags": [], "new_tags": []})]
    out += [("GET", "/", None), ("GET", "/v1/nothing", None), ("DELETE", "/v1/jobs", None)]
    return out


@scenario("C19", 8, 60)
def unauthenticated(c):
    """every route with missing, malformed, unknown and former tokens: 401 and no effect"""
    r = c.rng
    w = World(c)
    tokens = {"good": "cli", "other": "cli2", "nameless": "", "Bearer good": None}

    async def go():
        api, port, stop = await api_server(w.daemon, {"old": "former"})
        await api.reconfigure(tokens, [], 0)
        before = w.state()
        bad = [None, "", "good", "Bearer", "Bearer ", "Bearer  good", "bearer good", "Bearer goo", "Bearer good ", "Bearer goodx", "Bearer old", "Basic good", "Bearer cli", "Token good", "Bearer\tgood", "Bearer GOOD", "Bearer None", "Bearer nameless", "Bearer Bearer good"]
        try:
            async with aiohttp.ClientSession(f"http://127.0.0.1:{port}") as s:
                for m, path, body in requests(r):
                    for tok in bad if c.index == 0 else r.sample(bad, 4) + ["Bearer old"]:
                        h = {} if tok is None else {"Authorization": tok}
                        if tok and tok.strip() == "Bearer good":
                            continue  # surrounding blanks are not part of a header
                        if path == "/" or "nothing" in path or m == "DELETE":
                            pass
                        async with s.request(m, path, json=body, headers=h) as resp:
                            text = await resp.text()
                            if resp.status != 401:
                                raise Violation(f"{m} {path} with authorization {tok!r} is answered with {resp.status}: {short(text)}")
                eq(w.state(), before, "backups after unauthenticated requests")
                eq(w.effects, [], "effects of unauthenticated requests")
                # the current tokens are accepted
                for tok in ("good", "other"):
                    async with s.get("/v1/jobs", headers={"Authorization": f"Bearer {tok}"}) as resp:
                        eq(resp.status, 200, f"status with token {tok}")
                # reconfiguring replaces the tokens
                await api.reconfigure({"next": "x"}, [], 0)
                for tok, st in (("good", 401), ("next", 200)):
                    async with s.get("/v1/backups", headers={"Authorization": f"Bearer {tok}"}) as resp:
                        eq(resp.status, st, f"status with token {tok} after a new configuration")
        finally:
            await stop()

    asyncio.run(go())


@scenario("C19", 60, 1500)
def authenticated(c):
    """tag changes, purges and touches of dead, active and unknown backups"""
    r = c.rng
    w = World(c)
    h = {"Authorization": "Bearer good"}

    async def go():
        api, port, stop = await api_server(w.daemon, {"good": "cli"})
        try:
            async with aiohttp.ClientSession(f"http://127.0.0.1:{port}", headers=h) as s:
                for _ in range(12):
                    n = r.choice(["active", "dead", "dead2", "nosuch", "active2"])
                    k = r.choice(["tags", "tags", "tags", "purge", "run", "revs", "touch"])
                    before = w.content()
                    w.effects.clear()
                    if k == "tags":
                        ids = sorted(before[n][0]) if n in before else ["x"]
                        if r.random() < 0.3 and n in w.repos:
                            # the revision changes behind the API's back
                            x = repo(w.repos[n].path)
                            if x.history:
                                y = r.choice(x.history)
                                y.tags = {"behind"}
                                y.write_info()
                                before = w.content()
                        u = r.choice(ids + ["nosuch"])
                        spec = r.choice([u, u, u, "last", "0"])
                        cur = before[n][0] if n in before else {}
                        order = sorted(cur.values(), key=lambda m: m[1])
                        sel = (order[-1][0] if order else None) if spec in ("last", "0") else (u if u in cur else None)
                        old = set(cur[sel][3]) if sel and r.random() < 0.6 else set(r.sample(["daily", "manual:a", "x"], r.randrange(0, 3)))
                        new = set(r.sample(["daily", "manual:b", "unknown"], r.randrange(0, 3)))
                        auto = r.random() < 0.5
                        body = {"old_tags": list(old), "new_tags": list(new)}
                        missing = r.random() < 0.1
                        if missing:
                            del body[r.choice(["old_tags", "new_tags"])]
                        lock = r.random() < 0.15 and n in w.repos
                        import contextlib

                        with (repo(w.repos[n].path).lock(".backup", "exclusive") if lock else contextlib.nullcontext()):
                            async with s.put(f"/v1/backups/{n}/revs/{spec}/tags" + ("?autoremove=1" if auto else r.choice(["", "?autoremove=0"])), json=body) as resp:
                                st = resp.status
                        c.note("put_tags", n, spec, body, "autoremove", auto, "locked", lock, "->", st)
                        after = w.content()
                        if n not in ("dead", "dead2") or missing or sel is None or old != set(cur[sel][3]) or lock:
                            expect(st >= 400, f"tags of {n}/{spec}: {body} is answered with {st}")
                            eq(after, before, f"backups after a refused change of {n}/{spec}")
                            if missing:
                                eq(st, 400, "status")
                            elif n.startswith("active"):
                                eq(st, 403, "status for an active job")
                            elif n == "nosuch":
                                eq(st, 404, "status for an unknown backup")
                            elif lock:
                                eq(st, 503, "status while locked")
                            elif sel is None:
                                eq(st, 404, "status for an unknown revision")
                            else:
                                eq(st, 412, "status for other tags")
                        else:
                            eq(st, 204, "status of an accepted change")
                            want = dict(before)
                            d = dict(cur)
                            m = d[sel]
                            if not new and auto and not m[6]:
                                del d[sel]
                            else:
                                d[sel] = m[:3] + (frozenset(new),) + m[4:]
                            want[n] = (d, before[n][1])
                            eq(after, want, "backups after an accepted change")
                    elif k == "purge":
                        async with s.post(f"/v1/backups/{n}/purge") as resp:
                            st = resp.status
                        c.note("purge", n, st)
                        want = dict(before)
                        if n.startswith("dead"):
                            want[n] = (before[n][0], True)
                        eq(st, {"a": 403, "d": 202, "n": 404}[n[0]], f"status of purging {n}")
                        eq(w.content(), want, "backups after a purge request")
                    elif k == "run":
                        async with s.post(f"/v1/jobs/{n}/run") as resp:
                            st = resp.status
                        eq(st, 202 if n[0] == "a" else 404, f"status of running {n}")
                        eq(w.effects, [("run", n)] if n[0] == "a" else [], "effects of running a job")
                        eq(w.content(), before, "backups")
                    elif k == "revs":
                        clean = r.random() < 0.5
                        async with s.get(f"/v1/backups/{n}/revs" + ("?only_clean=1" if clean else "")) as resp:
                            st = resp.status
                            body = await resp.text()
                        eq(st, 404 if n == "nosuch" else 200, f"status of revisions of {n}")
                        if st == 200:
                            eq(sorted(d["uuid"] for d in json.loads(body)), sorted(u for u, m in before[n][0].items() if not m[6] and (not clean or "duration" in m[2])), f"revisions of {n}")
                        eq(w.content(), before, "backups")
                    else:
                        async with s.post(f"/v1/backups/{n}/touch") as resp:
                            st = resp.status
                        eq(st, 404 if n == "nosuch" else 204, f"status of touching {n}")
                        eq(w.content(), before, "backups")
        finally:
            await stop()

    asyncio.run(go())
