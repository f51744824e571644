"""C23: exit codes."""
import asyncio
import os
import pathlib
import types

import yaml
from rbdfake import *
import backy.logging
from backy.file import FileSource
from backy.repository import Repository
from backy.source import AsyncCmdLineSource, CmdLineSource, Source
from backy.cli import Command
import backy.daemon.scheduler as sch
from backy.daemon.scheduler import Job


class Boom(Exception):
    pass


ERRORS = [Boom("x"), RuntimeError("x"), OSError(5, "io"), BlockingIOError(11, "locked"), OSError(35, "deadlock"), KeyError("rev"), IndexError(), AssertionError(), ValueError("x"), TimeoutError(), FileNotFoundError(2, "x")]


def no_logging(c):
    c.p.set(backy.logging, "init_logging", lambda *a, **kw: None)


def world(c, type_="file"):
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    src = pathlib.Path(c.dir) / "src"
    src.write_bytes(b"data")
    conf = {"type": "file", "filename": str(src)} if type_ == "file" else CONF
    rp = repo(path)
    CmdLineSource(rp, conf, Log()).store()
    return path, rp


@scenario("C23", 150, 2000)
def source_command(c):
    """the source commands: every operation and outcome"""
    r = c.rng
    no_logging(c)
    cls = r.choice([FileSource, RBDSource])
    path, rp = world(c, cls.type_)
    v = rev(rp, {"daily"}, ts=ts(5))
    op = r.choice(["backup", "restore", "gc", "verify"])
    out = r.choice(["good", "good", "error", "error", "false", "norev", "noconf"])
    ran = []

    def f(self, *a, **kw):
        ran.append(a)
        if out == "error":
            raise err
        return out != "false"

    err = r.choice(ERRORS)
    c.p.set(cls, op, f)
    if out == "noconf":
        (path / "config").unlink() if r.random() < 0.5 else (path / "config").write_text("{")
    args = [f"backy-{cls.type_}", "-C", str(path), op]
    if op != "gc":
        args.append("nope" if out == "norev" else v.uuid)
    if op == "restore":
        args.append(str(pathlib.Path(c.dir) / "target"))
    rc = cls.main(*args)
    c.note(args[3:], out, repr(err) if out == "error" else "", "->", rc)
    bad = out in ("error", "noconf") or (out == "norev" and op != "gc") or (out == "false" and op == "backup")
    eq(rc, int(bad), f"exit code of {op} ({out} {err!r})")
    if not bad:
        eq(len(ran), 1, "calls of the operation")
        if op in ("backup", "verify", "restore"):
            eq(ran[0][0].uuid, v.uuid, "revision")


@scenario("C23", 12, 60)
def locked_repository(c):
    """real operations on a free and on a locked repository"""
    r = c.rng
    no_logging(c)
    w = World(c)
    w.set_image(image_data(r, 300))
    uid = w.add_rev(w.image, ts(10), snap=False)
    CmdLineSource(repo(w.path), CONF, Log()).store()
    op = ["gc", "verify", "backup"][c.index % 3]
    args = ["backy-rbd", "-C", str(w.path), op]
    if op == "verify":
        args.append(uid)
    if op == "backup":
        args.append(w.new_rev(ts(20)))
    with repo(w.path).lock(".purge" if op != "backup" else ".backup", r.choice(["shared", "exclusive"])):
        eq(RBDSource.main(*args), 1, f"exit code of {op} while locked")
    eq(RBDSource.main(*args), 0, f"exit code of {op}")
    if op == "backup":
        # the source is gone, or shows something else than exported
        n = w.new_rev(ts(30))
        if r.random() < 0.5:
            (w.state / "image").unlink()
        else:
            dev = pathlib.Path(c.dir) / "dev"
            dev.write_bytes(bytes(x ^ 1 for x in w.image))
            w.faultmap({"map": {"device": str(dev)}})
        eq(RBDSource.main(*args[:-1], n), 1, "exit code of a failed backup")


class FakeApi:
    def __init__(self, jobs, errors):
        self.jobs, self.errors, self.run = jobs, errors, []

    async def get_jobs(self):
        return self.jobs

    async def run_job(self, name):
        self.run.append(name)
        if name in self.errors:
            raise self.errors[name]


@scenario("C23", 120, 1500)
def command_line(c):
    """the backy command: several repositories and operations"""
    r = c.rng
    n = r.choice([1, 1, 2, 3])
    codes = {}
    paths = []
    jobs = []
    for i in range(n):
        p = pathlib.Path(c.dir) / f"repo{i}"
        p.mkdir()
        rp = repo(p)
        code = r.choice([0, 0, 1, 2])
        if code == 2:
            rev(rp, {"daily"}, ts=ts(5), duration=1.0)  # far too old
        if code == 1 or r.random() < 0.3 and code == 2:
            (p / "quarantine" / "x.report").write_text("x: 1")
        codes[p.name] = code
        jobs.append({"name": p.name, "path": str(p), "schedule": rp.schedule.to_dict()})
        CmdLineSource(rp, {"type": "file", "filename": "x"}, Log()).store()
        paths.append(p)
    k = r.choice(["check", "check", "verify", "verify", "restore", "backup", "gc", "error", "bg"])
    sel = None
    if k in ("check", "bg") and r.random() < 0.6:
        sel = r.choice([".*", "^repo0$", "repo[01]"])
    cmd = Command(paths[0], pathlib.Path(c.dir) / "conf", False, sel, Log())
    import re

    chosen = [p.name for p in paths if (re.search(sel, p.name) if sel else p == paths[0])]
    api = FakeApi(jobs, {})
    cmd.__dict__["api"] = api
    run = lambda name, **kw: asyncio.run(cmd(name, kw))
    c.note(k, sel, codes)
    if k == "check":
        eq(run("check"), max(codes[x] for x in chosen), "exit code of check")
        return
    if k == "bg":
        if r.random() < 0.4:
            from peers import failure

            api.errors[r.choice(chosen)] = failure(r.choice([404, 403, 500, "connection", "other"]))
        rc = run("backup", bg=True, tags="manual:x", force=True)
        bad = any(x in api.errors for x in chosen)
        eq(rc, int(bad), "exit code of triggering jobs")
        if not bad:
            eq(sorted(api.run), sorted(chosen), "triggered jobs")
        return
    p = paths[0]
    rp = repo(p)
    for i in range(r.choice([1, 2, 3])):
        rev(rp, {"daily"}, ts=ts(100 + i), duration=1.0, trust="distrusted")
    rcs = []
    calls = []

    def invoke(self, *a):
        calls.append(a)
        rc = r.choice([0, 0, 1, 3, -9, -15])
        rcs.append(rc)
        return rc

    c.p.set(CmdLineSource, "invoke", invoke)
    if k == "verify":
        rc = run("verify", revision="trust:distrusted&local")
        eq(len(calls), len(repo(p).find_revisions("trust:distrusted&local")), "verified revisions")
    elif k == "restore":
        rc = run("restore", revision="latest", target=pathlib.Path(c.dir) / "t")
    elif k == "backup":
        rc = run("backup", bg=False, tags="manual:x", force=False)
    elif k == "gc":
        rc = run("gc", expire=r.random() < 0.5, local=True)
    else:
        what = r.choice(["tags", "find", "locked", "jobs", "attr"])
        c.note(what)
        if what == "tags":
            rc = run("backup", bg=False, tags="nosuchtag", force=False)
        elif what == "find":
            rc = run("restore", revision="nope", target=pathlib.Path(c.dir) / "t")
        elif what == "locked":
            with repo(p).lock(".backup", "exclusive"):
                rc = run("tags", tag_action="set", autoremove=False, expect=None, revision="all", tags="manual:y", force=False)
        elif what == "jobs":
            cmd = Command(paths[0], pathlib.Path(c.dir) / "conf", False, "nomatch", Log())
            cmd.__dict__["api"] = api
            rc = asyncio.run(cmd("check", {}))
        else:
            rc = run("nosuchcommand")
        eq(rc, 1, f"exit code of an unexpected error ({what})")
        eq(calls, [], "calls of the source command")
        return
    c.note("codes", rcs, "->", rc)
    expect(rcs, "the source command has not been called")
    expect(bool(rc) == any(rcs), "{}: exit code {} although the source commands gave {}", k, rc, rcs)
    if all(x >= 0 for x in rcs):
        eq(rc, max(rcs), f"exit code of {k}")
    elif len(rcs) == 1:
        expect(rc % 256 == rcs[0] % 256 or rc == abs(rcs[0]), "exit code of {}: {} for {}", k, rc, rcs)


@scenario("C23", 30, 300)
def daemon_backup(c):
    """the daemon's view of the exit code of a backup"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    job = Job.__new__(Job)
    job.name, job.log, job.taskid = "repo", Log(), "t"
    rc = r.choice([0, 0, 1, 2, 255, -1, -9, -15])
    started = []

    class Proc:
        pid = 1
        returncode = rc

        async def wait(self):
            await asyncio.sleep(0)
            return rc

        async def communicate(self, x=None):
            return b"", b""

    async def exe(*a, **kw):
        started.append(a)
        return Proc()

    c.p.set(asyncio, "create_subprocess_exec", exe)
    job.source = AsyncCmdLineSource(rp, {"type": "file", "filename": "x"}, Log())
    c.note("code", rc)
    tags = {"daily"}
    if rc:
        with raises(Exception, f"backup which ended with {rc}"):
            asyncio.run(job.run_backup(tags))
    else:
        asyncio.run(job.run_backup(tags))
    eq(len(started), 1, "started commands")
    fresh = repo(path)
    eq(len(fresh.history), 1, "revisions")
    v = fresh.history[0]
    expect(v.uuid in started[0] and "backup" in started[0], "command {}", started)
    eq(v.tags, tags, "tags of the new revision")
    expect("duration" not in v.stats, "the new revision is already complete")
