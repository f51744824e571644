"""C06: restoring revisions."""
import stat
import subprocess

from rbdfake import *
import backy.file
import backy.rbd
import backy.utils
from backy.rbd import RBDRestoreArgs, RestoreBackend

CS = 4 * 1024 * 1024


def big(r):
    """contents around multiples of the buffer size of 4 MiB"""
    n = r.choice([0, 1, CS - 1, CS, CS + 1, 2 * CS, 2 * CS + 17, 3000])
    out = bytearray(n)
    for _ in range(6):
        if n:
            i = r.randrange(n)
            x = r.randbytes(r.choice([1, 100, 5000]))
            out[i : i + len(x)] = x[: n - i]
    if n > CS and r.random() < 0.5:
        out[:CS] = bytes(CS)
    return bytes(out)


def old_target(r, path, data):
    k = r.choice(["absent", "empty", "shorter", "longer", "same", "other"])
    if k == "empty":
        path.write_bytes(b"")
    elif k == "shorter":
        path.write_bytes(b"\xff" * r.randrange(0, len(data) + 1))
    elif k == "longer":
        path.write_bytes(b"\xff" * (len(data) + r.choice([1, 1000, CS])))
    elif k == "same":
        path.write_bytes(data)
    elif k == "other":
        path.write_bytes(bytes([r.choice([0, 0xFF])]) * len(data))
    return k


def capture(fn, path):
    """standard output (the file descriptor) while fn runs"""
    saved = os.dup(1)
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.close(fd)
    try:
        fn()
    finally:
        os.dup2(saved, 1)
        os.close(saved)
    return open(path, "rb").read()


EXTRACT = """#!/bin/sh
if [ "$1" = --version ]; then
  %(version)s
fi
echo "$@" >> "$FAKE_RBD/extract"
%(act)s
"""


def extract(c, w, version, act):
    p = w.path.parent / "extract"
    p.write_text(EXTRACT % dict(version=version, act=act))
    p.chmod(0o755)
    c.p.set(backy.rbd, "BACKY_EXTRACT", str(p))


@scenario("C06", 40, 800)
def rbd(c):
    """images of small chunks to files and standard output, by all back ends"""
    r = c.rng
    large = c.index % 4 == 0
    w = World(c, cs=None if large else 64)
    data = big(r) if large else image_data(r)
    uuid = w.add_rev(data, ts(1))
    other = w.add_rev(image_data(r, 200), ts(2))
    s = w.source()
    v = s.repository.find_by_uuid(uuid)
    target = w.path.parent / "target"
    before = old_target(r, target, data)
    backend = r.choice([RestoreBackend.PYTHON, RestoreBackend.PYTHON, RestoreBackend.AUTO, RestoreBackend.RUST])
    ver = r.choice(["works", "works", "missing", "unknown", "fails"])
    fail = r.random() < 0.5
    src = w.path.parent / "content"
    src.write_bytes(data)
    act = ("head -c %d %s" % (len(data) // 2, src) if fail else f"cat {src}") + (' > "$2"' if True else "")
    end = r.choice(["exit 1", "exit 3", "exit 101", "kill -9 $$", "kill -15 $$"]) if fail else "exit 0"
    act = 'if [ "$2" = - ]; then %s; else %s > "$2"; fi; %s' % (act.split(" >")[0], act.split(" >")[0], end)
    extract(c, w, {"works": "echo backy-extract 1.1; exit 0", "missing": "exit 127", "unknown": "echo other 1.0; exit 0", "fails": "echo backy-extract; exit 1"}[ver], act)
    if ver == "missing" and r.random() < 0.5:
        (w.path.parent / "extract").unlink()
    stdout = r.random() < 0.4
    tname = "-" if stdout else str(target)
    used = w.state / "extract"
    rust = backend == RestoreBackend.RUST or (backend == RestoreBackend.AUTO and ver == "works" and len(data) % CS == 0)
    c.note("size", len(data), "target", before, tname if stdout else "file", "backend", backend, "extract", ver, "failing", fail, "chunks", w.cs)
    got = exc = None

    def run():
        nonlocal exc
        try:
            s.restore(v, RBDRestoreArgs(tname, backend))
        except Exception as e:
            exc = e

    if stdout:
        got = capture(run, w.path.parent / "out")
    else:
        run()
        got = target.read_bytes() if target.exists() else None
    c.note("result", repr(exc))
    if used.exists():
        eq([x.split() for x in used.read_text().splitlines()], [[str(w.path / uuid), tname]], "calls of backy-extract")
    if backend == RestoreBackend.RUST and ver == "missing" and not (w.path.parent / "extract").exists():
        expect(exc is not None, "a missing restore back end is not reported")
        return
    if used.exists() and fail:
        expect(exc is not None, "a failing restore back end is not reported as an error")
        return
    if exc is not None:
        raise exc
    if not rust:
        expect(not used.exists(), "backy-extract was used")
    eq(got, data, "restored content")


@scenario("C06", 10, 100)
def holes(c):
    """blocks of zeroes in the image overwrite what the target has there"""
    r = c.rng
    w = World(c, cs=None)
    data = bytearray(r.choice([2, 3]) * CS + r.choice([0, 0, 100]))
    for i in range(0, len(data), CS):
        if r.random() < 0.4:
            n = min(CS, len(data) - i)
            data[i : i + n] = b"d" * n
    data = bytes(data)
    uuid = w.add_rev(data, ts(1))
    s = w.source()
    target = w.path.parent / "target"
    target.write_bytes(b"\xff" * (len(data) + r.choice([0, 0, 1000, -1000, CS])))
    backend = r.choice([RestoreBackend.PYTHON, RestoreBackend.AUTO])
    extract(c, w, "exit 1", "exit 1")
    s.restore(s.repository.find_by_uuid(uuid), RBDRestoreArgs(str(target), backend))
    expect(target.read_bytes() == data, "restored content differs")


@scenario("C06", 16, 200)
def damaged(c):
    """a missing or damaged chunk makes restoring fail; errors of the target are reported"""
    r = c.rng
    w = World(c)
    data = r.randbytes(640)
    uuid = w.add_rev(data, ts(1))
    s = w.source()
    v = s.repository.find_by_uuid(uuid)
    k = r.choice(["missing", "damaged", "dir", "image", "full"])
    h = r.choice(sorted(w.hashes(uuid)))
    target = w.path.parent / "target"
    if k == "missing":
        os.unlink(w.chunks()[h])
    elif k == "damaged":
        os.chmod(w.chunks()[h], 0o640)
        open(w.chunks()[h], "wb").write(b"xx")
    elif k == "dir":
        target.mkdir()
    elif k == "image":
        (w.path / uuid).unlink()
    c.note(k)
    if k == "full":
        with raises(Exception, "full device"):
            s.restore(v, RBDRestoreArgs("/dev/full", RestoreBackend.PYTHON))
        return
    if r.random() < 0.5 and k != "dir":
        got = []

        def run():
            try:
                s.restore(v, RBDRestoreArgs("-", RestoreBackend.PYTHON))
                got.append(1)
            except Exception:
                pass

        capture(run, w.path.parent / "out")
        expect(not got, "restoring damaged data to standard output did not fail")
    else:
        with raises(Exception, f"restore ({k})"):
            s.restore(v, RBDRestoreArgs(str(target), RestoreBackend.PYTHON))


@scenario("C06", 16, 200)
def file_source(c):
    """the file source"""
    r = c.rng
    d = pathlib.Path(c.dir)
    (d / "repo").mkdir()
    rp = repo(d / "repo")
    src = d / "src"
    data = big(r)[: r.choice([0, 10, 10**7])]
    src.write_bytes(data)
    s = backy.file.FileSource.from_config(rp, {"type": "file", "filename": str(src)}, Log())
    v = Revision.create(rp, {"daily"}, Log())
    v.materialize()
    s.backup(v)
    src.write_bytes(b"changed")
    target = d / "target"
    k = old_target(r, target, data)
    c.note("size", len(data), "target", k)
    s.restore(v, backy.file.FileRestoreArgs(target))
    eq(target.read_bytes(), data, "restored content")
    eq((d / "repo" / v.uuid).read_bytes(), data, "backup after the restore")


@scenario("C06", 24, 400)
def copying(c):
    """utils.copy and utils.copy_overwrite between files"""
    r = c.rng
    d = pathlib.Path(c.dir)
    data = big(r)
    (d / "a").write_bytes(data)
    t = d / "b"
    k = old_target(r, t, data)
    if r.random() < 0.4:
        x = bytearray(data)
        if x:
            x[r.randrange(len(x))] ^= 1
        t.write_bytes(x)
    if not t.exists():
        t.write_bytes(b"")
    fn = r.choice([backy.utils.copy, backy.utils.copy_overwrite])
    c.note(fn.__name__ if hasattr(fn, "__name__") else fn, len(data), "target", k)
    with open(d / "a", "rb") as a, open(t, "r+b", buffering=r.choice([4096, CS])) as b:
        n = fn(a, b)
    eq(t.read_bytes(), data, "copied content")
    eq(n, len(data), "size returned")
