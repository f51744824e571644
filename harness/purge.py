"""C22: purging of old directories."""
import asyncio
import os
import pathlib
import shutil
import time
import types

import aiofiles.os as aos
import aioshutil
from h import *
import backy.daemon
import backy.utils
from backy.daemon import BackyDaemon

DAY = 24 * 3600
LIMIT = 93 * DAY
NOW = 1_700_000_000.0


class Stop(BaseException):
    pass


def build(r, d, depth, outside, files):
    """a random tree with links; everything gets its time afterwards"""
    for i in range(r.choice([0, 1, 2, 3])):
        f = os.path.join(d, f"n{i}")
        k = r.random()
        if k < 0.4:
            open(f, "wb").write(b"x")
        elif k < 0.6:
            os.symlink(r.choice([outside, os.path.join(outside, "f"), "/nonexistent", "n0", d]), f)
        elif depth:
            os.mkdir(f)
            build(r, f, depth - 1, outside, files)
        else:
            open(f, "wb").write(b"y")
        files.append(f)


def is_recent(path, ref):
    if os.lstat(path).st_mtime >= ref:
        return True
    if os.path.islink(path) or not os.path.isdir(path):
        return False
    return any(is_recent(os.path.join(path, n), ref) for n in os.listdir(path))


def everything(path):
    out = [path]
    if os.path.isdir(path) and not os.path.islink(path):
        for n in os.listdir(path):
            out += everything(os.path.join(path, n))
    return out


def daemon_for(c, base):
    d = BackyDaemon(pathlib.Path(c.dir) / "conf", Log())
    d.base_dir = pathlib.Path(base)
    return d


@scenario("C22", 250, 6000)
def purge_old(c):
    """random trees, times and links; failing or vanishing entries"""
    r = c.rng
    base = os.path.join(c.dir, "base")
    outside = os.path.join(c.dir, "outside")
    os.mkdir(base), os.mkdir(outside)
    open(os.path.join(outside, "f"), "wb").write(b"f")
    cands = []
    for i in range(r.choice([1, 2, 4])):
        p = os.path.join(base, f"c{i}")
        k = r.random()
        if k < 0.75:
            os.mkdir(p)
            build(r, p, r.choice([0, 1, 2, 4]), outside, [])
        elif k < 0.85:
            open(p, "wb").write(b"file")
        else:
            os.symlink(r.choice([outside, "/nonexistent", base]), p)
        cands.append(p)
    # times: mostly old; recent ones at random places
    for p in cands:
        allp = everything(p)
        for f in allp:
            os.utime(f, (NOW, NOW - r.choice([LIMIT + 1, LIMIT + 3600, LIMIT + DAY, 4000 * DAY])), follow_symlinks=False)
        if r.random() < 0.5:
            for f in r.sample(allp, min(len(allp), r.choice([1, 1, 2]))):
                os.utime(f, (NOW - 4000 * DAY, NOW - r.choice([-DAY, 0, LIMIT - 1, LIMIT - 3600, LIMIT - 2 * DAY])), follow_symlinks=False)
    for f in (outside, os.path.join(outside, "f")):
        t = NOW - r.choice([0, LIMIT + DAY])
        os.utime(f, (t, t))
    want = sorted(p for p in cands if os.path.isdir(p) and not os.path.islink(p) and not is_recent(p, NOW - LIMIT))
    c.note("candidates", [(os.path.basename(p), os.path.islink(p), os.path.isdir(p)) for p in cands])
    c.note("to be deleted", [os.path.basename(p) for p in want])
    before = tree(c.dir)
    # stand-ins record what would be deleted
    deleted = []

    async def armtree(p, *a, **kw):
        deleted.append(os.fspath(p))

    c.p.set(aioshutil, "rmtree", armtree)
    c.p.set(shutil, "rmtree", lambda p, *a, **kw: deleted.append(os.fspath(p)))
    for n in ("unlink", "rmdir", "remove"):
        c.p.set(aos, n, armtree)
    c.p.set(time, "time", lambda: NOW)

    async def sleep(*a):
        raise Stop()

    c.p.set(asyncio, "sleep", sleep)
    broken = None
    if r.random() < 0.3:
        cand = r.choice(cands)
        bad = r.choice(everything(cand))
        how = r.choice([PermissionError(13, "no"), FileNotFoundError(2, "gone"), OSError(5, "io")])
        what = r.choice(["stat", "scandir"])
        real = getattr(aos, what)
        hit = []

        async def failing(p, *a, **kw):
            if os.fspath(p) == bad:
                hit.append(p)
                raise how
            return await real(p, *a, **kw)

        c.p.set(aos, what, failing)
        broken = cand
        c.note("failing", what, bad, repr(how))
    d = daemon_for(c, base)
    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(d.purge_old_files())
    except Stop:
        pass
    finally:
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
    c.p.close()
    eq(tree(c.dir), before, "files (deleting was only recorded)")
    deleted.sort()
    if broken and hit:
        expect(broken not in deleted, "{} is deleted though looking at it failed", broken)
        expect(set(deleted) <= set(want), "deleted {}, old are only {}", deleted, want)
    else:
        eq(deleted, want, "deleted directories")
    c.nontrivial = bool(want) and len(want) < len(cands)


@scenario("C22", 30, 300)
def really_deleted(c):
    """the whole of an old directory goes, links are not followed"""
    r = c.rng
    base = os.path.join(c.dir, "base")
    outside = os.path.join(c.dir, "outside")
    os.mkdir(base), os.mkdir(outside)
    open(os.path.join(outside, "f"), "wb").write(b"f")
    p = os.path.join(base, "old")
    os.mkdir(p)
    os.mkdir(os.path.join(p, "sub"))
    os.symlink(outside, os.path.join(p, "link"))
    build(r, p if not os.listdir(p) else os.path.join(p, "sub"), 2, outside, [])
    os.symlink(outside, os.path.join(base, "alink"))
    os.mkdir(os.path.join(base, "young"))
    for f in everything(base):
        os.utime(f, (NOW, NOW - LIMIT - 100), follow_symlinks=False)
    os.utime(os.path.join(base, "young"), (NOW, NOW))
    for f in (outside, os.path.join(outside, "f")):
        os.utime(f, (0, 0))
    c.p.set(time, "time", lambda: NOW)

    async def sleep(*a):
        raise Stop()

    c.p.set(asyncio, "sleep", sleep)
    d = daemon_for(c, base)
    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(d.purge_old_files())
    except Stop:
        pass
    finally:
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
    eq(sorted(os.listdir(base)), ["alink", "young"], "left below the base directory")
    eq(os.listdir(outside), ["f"], "files outside")
