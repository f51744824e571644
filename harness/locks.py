"""C17: repository locks."""
import asyncio
import fcntl
import os
import pathlib
import signal
import subprocess
import sys
import threading
import time

from rbdfake import *
import backy.rbd
import backy.utils


def state(path, target):
    """how others see the lock: free, shared or exclusive"""
    p = pathlib.Path(path) / target
    if not p.exists():
        return "free"
    fd = os.open(p, os.O_RDONLY)
    try:
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            return "free"
        except BlockingIOError:
            pass
        try:
            fcntl.flock(fd, fcntl.LOCK_SH | fcntl.LOCK_NB)
            return "shared"
        except BlockingIOError:
            return "exclusive"
    finally:
        os.close(fd)


class Held:
    """another process which holds a lock"""

    def __init__(self, path, target, mode):
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(60)
                rp = repo(path)
                with rp.lock(target, mode):
                    os.write(w, b"1")
                    time_sleep(1000)
            finally:
                os._exit(1)
        os.close(w)
        got = os.read(r, 1)
        os.close(r)
        if not got:
            os.waitpid(self.pid, 0)
            raise Violation(f"lock {target} can not be acquired ({mode}) in a fresh process")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


time_sleep = time.sleep


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


@scenario("C17", 24, 100)
def primitive(c):
    """lock modes against holders in the same and in other processes, nesting, release on all exits"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp, other = repo(path), repo(path)
    target = r.choice([".backup", ".purge", "x"])
    modes = ["shared", "exclusive"]
    a, b = modes[c.index % 2], modes[c.index // 2 % 2]
    c.note("holder", a, "request", b, target)
    ran = []
    # within this process (another repository object), and from another process
    for outside in (False, True):
        holder = Held(path, target, a) if outside else other.lock(target, a)
        with holder:
            eq(state(path, target), a, "lock as seen by others")
            if a == b == "shared":
                with rp.lock(target, b):
                    ran.append(1)
                    eq(state(path, target), "shared", "lock as seen by others")
                eq(state(path, target), "shared", "lock of the remaining holder")
            elif b == "exclusive":
                t = real_time()
                for _ in range(2):
                    try:
                        with rp.lock(target, b):
                            raise Violation(f"exclusive lock granted while held ({a})")
                    except BlockingIOError:
                        pass
                expect(real_time() - t < 5, "the conflicting request did not fail immediately")
                eq(state(path, target), a, "lock of the holder after a refused request")
            else:
                # a shared request has to wait for the exclusive holder
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.alarm(60)
                        x = repo(path)
                        os.write(wr, b"s")
                        with x.lock(target, "shared"):
                            os.write(wr, b"g")
                    finally:
                        os._exit(0)
                os.close(wr)
                eq(os.read(rd, 1), b"s", "child")
                time_sleep(0.1)
                os.set_blocking(rd, False)
                try:
                    got = os.read(rd, 1)
                except BlockingIOError:
                    got = b""
                    waiting = True
                else:
                    waiting = False
                if not waiting:
                    os.waitpid(pid, 0)
                    raise Violation("a shared request did not wait for the exclusive holder" if got else "a shared request failed instead of waiting")
        if a == "exclusive" and b == "shared":
            os.set_blocking(rd, True)
            eq(os.read(rd, 1), b"g", "shared request after the release")
            os.waitpid(pid, 0)
            os.close(rd)
        eq(state(path, target), "free", "lock after use")
        with rp.lock(target, b):
            eq(state(path, target), b, "lock after a former request")
        eq(state(path, target), "free", "lock after use")
    # nesting within the same object
    for m in modes:
        with rp.lock(target, a):
            with raises(Exception, "nested request"):
                with rp.lock(target, m):
                    pass
            eq(state(path, target), a, "outer lock after a refused nested request")
            with rp.lock("another", m):
                eq(state(path, "another"), m, "lock on another target")
                eq(state(path, target), a, "outer lock")
        eq(state(path, target), "free", "lock after nesting")
    # exits
    for e in (Boom("x"), BoomBase("x"), KeyboardInterrupt()):
        try:
            with rp.lock(target, a):
                raise e
            raise Violation("the error was swallowed")
        except (Boom, BoomBase, KeyboardInterrupt):
            pass
        eq(state(path, target), "free", f"lock after {type(e).__name__}")

    def early():
        with rp.lock(target, a):
            return 5

    eq(early(), 5, "return from within")
    eq(state(path, target), "free", "lock after return")
    with raises(ValueError, "unknown mode"):
        with rp.lock(target, "sharedd"):
            pass
    eq(state(path, target), "free", "lock after an unknown mode")
    # acquiring fails for other reasons
    for e in (OSError(5, "io"), KeyboardInterrupt(), InterruptedError()):
        def broken(*a_):
            raise e

        c.p.set(fcntl, "flock", broken)
        try:
            with rp.lock(target, a):
                raise Violation("lock granted although flock failed")
        except (OSError, KeyboardInterrupt):
            pass
        c.p.close()
        eq(state(path, target), "free", "lock after a failed request")
        with rp.lock(target, a):
            pass
    if os.path.isdir("/proc/self/fd"):
        left = [l for l in (os.readlink(f"/proc/self/fd/{n}") for n in os.listdir("/proc/self/fd") if os.path.islink(f"/proc/self/fd/{n}")) if l.startswith(str(path))]
        eq(left, [], "open files of the repository after use")


@scenario("C17", 20, 60)
def decorator(c):
    """the decorator for functions and coroutines"""
    from backy.repository import Repository

    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    mode = r.choice(["shared", "exclusive"])
    seen = []

    class Owner:
        repository = rp

        @Repository.locked(target=".x", mode=mode, repo_attr="repository")
        def f(self, a, b=2):
            seen.append((state(path, ".x"), a, b))
            if a == "boom":
                raise Boom()
            return a

        @Repository.locked(target=".x", mode=mode, repo_attr="repository")
        async def g(self, a, b=2):
            seen.append((state(path, ".x"), a, b))
            await asyncio.sleep(0)
            seen.append((state(path, ".x"), a, b))
            if a == "boom":
                raise Boom()
            return a

    o = Owner()
    eq(o.f(1, b=3), 1, "result")
    eq(asyncio.run(o.g(1, b=3)), 1, "result of the coroutine")
    eq(seen, [(mode, 1, 3)] * 3, "lock while running")
    seen.clear()
    with raises(Boom, "error of the function"):
        o.f("boom")
    with raises(Boom, "error of the coroutine"):
        asyncio.run(o.g("boom"))
    eq(seen, [(mode, "boom", 2)] * 3, "lock while running")
    eq(state(path, ".x"), "free", "lock afterwards")
    seen.clear()
    eq(o.f(7, skip_lock=True), 7, "result without lock")
    eq(seen, [("free", 7, 2)], "without lock")
    seen.clear()
    with Held(path, ".x", "exclusive" if mode == "exclusive" or r.random() < 0 else "exclusive"):
        if mode == "exclusive":
            with raises(BlockingIOError, "function while locked"):
                o.f(1)
            with raises(BlockingIOError, "coroutine while locked"):
                asyncio.run(o.g(1))
            eq(seen, [], "calls while locked")
    with rp.lock(".x", "shared"):
        with raises(RuntimeError, "nested"):
            o.f(1)
        eq(seen, [], "calls while the object holds the lock")
    eq(o.f(1), 1, "afterwards")


NEEDS = {
    "backup": {".backup": "exclusive", ".purge": "shared"},
    "gc": {".purge": "exclusive"},
    "verify": {".purge": "exclusive"},
    "restore_file": {".purge": "shared"},
    "restore_stdout": {".purge": "shared"},
    "tags": {".backup": "exclusive"},
    "distrust": {".backup": "exclusive"},
    "rm": {".backup": "exclusive"},
    "expire": {".backup": "exclusive"},
    "_clean": {".backup": "exclusive"},
    "push_metadata": {".backup": "exclusive"},
    "pull_metadata": {".backup": "exclusive"},
}


def operation(w, name, c):
    """the operation, over a fresh repository object; (callable, repository)"""
    s = w.source()
    rp = s.repository
    uid = w.uuids
    if name == "backup":
        new = w.new_rev()
        s = w.source()
        return (lambda: s.backup(s.repository.find_by_uuid(new))), s.repository
    if name == "gc":
        return s.gc, rp
    if name == "verify":
        return (lambda: s.verify(rp.find_by_uuid(uid[0]))), rp
    if name == "restore_file":
        return (lambda: s.restore(rp.find_by_uuid(uid[0]), backy.rbd.RBDRestoreArgs(str(w.path.parent / "target"), backy.rbd.RestoreBackend.PYTHON))), rp
    if name == "restore_stdout":
        def f():
            saved = os.dup(1)
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)
            os.close(n)
            try:
                s.restore(rp.find_by_uuid(uid[0]), backy.rbd.RBDRestoreArgs("-", backy.rbd.RestoreBackend.PYTHON))
            finally:
                os.dup2(saved, 1)
                os.close(saved)
        return f, rp
    if name == "tags":
        return (lambda: rp.tags("set", "local", {"manual:x"})), rp
    if name == "distrust":
        return (lambda: rp.distrust(rp.find_revisions("local"))), rp
    if name == "rm":
        return (lambda: rp.rm([rp.find_by_uuid(uid[0])])), rp
    if name == "expire":
        return rp.expire, rp
    if name == "_clean":
        return rp._clean, rp
    from peers import Peer, job_for

    job, mgr = job_for(c, rp, [Peer("peer")])
    return (lambda: asyncio.run(getattr(job, name)())), rp


@scenario("C17", 36, 240)
def operations(c):
    """every operation: needed locks are held during every step that touches data, refused if in conflict, released afterwards"""
    r = c.rng
    name = sorted(NEEDS)[c.index % len(NEEDS)]
    need = NEEDS[name]
    w = World(c)
    w.set_image(image_data(r, 640))
    now = backy.utils.now()
    w.uuids = [w.add_rev(image_data(r, 640), now - datetime.timedelta(days=40 + i), tags={"daily", "former"}) for i in range(2)]
    for i in range(4):
        w.add_rev(image_data(r, 100), now - datetime.timedelta(days=20 - i), server="" if i else "peer", orig={"x"})
    w.add_rev(b"x", now - datetime.timedelta(days=1), duration=None, tags={"former"})
    seen = []
    boom_at = 0

    def probe(what):
        seen.append((what, {t: state(w.path, t) for t in (".backup", ".purge")}))
        if len(seen) == boom_at:
            raise Boom(what)

    def hook(obj, attr):
        real = getattr(obj, attr)

        def f(*a, **kw):
            probe(f"{getattr(obj, '__name__', obj)}.{attr}")
            return real(*a, **kw)

        c.p.set(obj, attr, f)

    run, rp = operation(w, name, c)
    for obj, attr in [(Revision, "write_info"), (Revision, "remove"), (Store, "purge"), (Chunk, "_read_existing"), (Chunk, "flush"), (File, "flush"), (CephRBD, "create_snapshot"), (CephRBD, "_delete_old_snapshots"), (File, "read")]:
        if name in ("rm", "distrust", "tags", "expire", "_clean", "push_metadata", "pull_metadata") and obj is not Revision:
            continue
        hook(obj, attr)
    if name in ("push_metadata", "pull_metadata"):
        import peers

        hook(peers.FakeClient, "call")
    c.note("operation", name)
    # (the siblings of a failed task carry on in asyncio.gather, not here)
    if not name.endswith("_metadata") and (c.index >= len(NEEDS) * 2 or r.random() < 0.3):
        # an error in the middle
        boom_at = r.randrange(1, 7)
        try:
            run()
        except Boom:
            pass
        except Exception as e:
            c.note("raised", repr(e))
    else:
        run()
        c.nontrivial = bool(seen)
    for what, st in seen:
        for t, m in need.items():
            expect(st[t] == m or (m == "shared" and st[t] == "exclusive"), f"{name}: {t} is {st[t]} during {what}, needs {m}")
    for t in (".backup", ".purge"):
        eq(state(w.path, t), "free", f"{t} after {name}")
    eq(dict(rp._lock_fds), {}, "locks recorded as held")
    c.p.close()
    w.c.p.env("FAKE_RBD", str(w.state))
    c.p.set(Chunk, "CHUNK_SIZE", w.cs)
    c.p.set(time, "sleep", lambda s: None)
    # conflicts
    w.uuids = w.uuids[1:]
    for t, m in need.items():
        if m != "exclusive":
            continue
        run, rp = operation(w, name, c)
        before = tree(w.path)
        with Held(w.path, t, r.choice(["shared", "exclusive"])):
            try:
                run()
            except BlockingIOError:
                pass
            else:
                raise Violation(f"{name} ran although {t} is held")
            after = tree(w.path)
        for x in (before, after):
            x.pop(".backup", None), x.pop(".purge", None)
        eq(after, before, f"repository after a refused {name}")
        for t2 in (".backup", ".purge"):
            eq(state(w.path, t2), "free", f"{t2} after a refused {name}")
        eq(dict(rp._lock_fds), {}, "locks recorded as held")
