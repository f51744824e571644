"""C01, C02, C03: chunked files, chunks and their store."""
import io
import json
import os
import pathlib
import shutil

import lzo
import mmh3

from h import *
from backy.rbd.chunked import BackendException, Chunk, File, Store
from backy.rbd.chunked import chunk as chunkmod

CS = Chunk.CHUNK_SIZE


def fingerprint(data):
    """independent of the code under test"""
    return mmh3.hash_bytes(data).hex()


def chunk_files(path):
    out = {}
    for dp, dn, fn in os.walk(path):
        for n in fn:
            if n.endswith(".chunk.lzo"):
                out[n[: -len(".chunk.lzo")]] = os.path.join(dp, n)
    return out


def small(c, n):
    c.p.set(Chunk, "CHUNK_SIZE", n)
    return n


def block(r, n):
    """content with repetitions, zeros and random parts"""
    if n <= 0:
        return b""
    k = r.randrange(5)
    if k == 0:
        return b"\0" * n
    if k == 1:
        return bytes([r.randrange(1, 256)]) * n
    if k == 2:
        return (bytes(r.randrange(256) for _ in range(7)) * (n // 7 + 1))[:n]
    return r.randbytes(n)


class Flat:
    """reference: one flat byte file"""

    def __init__(self):
        self.data = bytearray()
        self.pos = 0

    def seek(self, off, whence):
        pos = [0, self.pos, len(self.data)][whence] + off
        if pos < 0:
            return None
        if pos > len(self.data):
            self.data.extend(b"\0" * (pos - len(self.data)))
        self.pos = pos
        return pos

    def read(self, n):
        end = len(self.data) if n == -1 else self.pos + n
        d = bytes(self.data[self.pos : end])
        self.pos += len(d)
        return d

    def write(self, d):
        if not d:
            return
        if self.pos > len(self.data):
            self.data.extend(b"\0" * (self.pos - len(self.data)))
        self.data[self.pos : self.pos + len(d)] = d
        self.pos += len(d)

    def truncate(self, n):
        n = self.pos if n is None else n
        if n <= len(self.data):
            del self.data[n:]
        else:
            self.data.extend(b"\0" * (n - len(self.data)))


def ops(c, cs, nops, maxsize, truncs=True):
    r = c.rng
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    name = d / "image"
    m = Flat()
    f = File(name, store, r.choice(["rw", "rwb", "r+"]))
    if r.random() < 0.6:
        f.flush_target = r.choice([0, 1, 1, 2, 3, 5])
    ft = f.flush_target
    c.note("chunk size", cs, "flush_target", ft)
    mode = "rw"
    for i in range(nops):
        eq(f.tell(), m.pos, "position")
        eq(f.size, len(m.data), "size")
        k = r.random()
        if k < 0.33:
            n = r.choice([1, cs, cs, 2 * cs, cs - 1, cs + 1, r.randrange(1, 3 * cs), r.randrange(1, 5 * cs)])
            n = min(n, max(0, maxsize - m.pos))
            b = block(r, n)
            c.note("write", m.pos, n)
            m.write(b)
            f.write(b)
        elif k < 0.55:
            n = r.choice([-1, 0, 1, cs, r.randrange(4 * cs), 10 * cs])
            c.note("read", m.pos, n)
            want = m.read(n)
            got = f.read() if n == -1 else f.read(n)
            if got != want:
                j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                raise Violation(f"read at {m.pos - len(want)} of {n}: {len(got)} bytes, expected {len(want)}; first difference at +{j}")
        elif k < 0.82:
            wh = r.choice([0, 0, 0, 1, 2])
            size = len(m.data)
            if wh == 0:
                off = r.choice([0, size, r.randrange(size + 1), (size // cs) * cs, r.randrange(size // cs + 1) * cs, min(maxsize, size + r.randrange(3 * cs)), max(0, r.randrange(size // cs + 1) * cs - 1), -1])
            elif wh == 1:
                off = r.choice([0, 1, -1, cs, -cs, r.randrange(-2 * cs, 2 * cs)])
            else:
                off = r.choice([0, 0, -1, -cs, -r.randrange(size + 1), 1, r.randrange(2 * cs)])
            if m.pos + off > maxsize and wh == 1:
                continue
            if size + off > maxsize and wh == 2:
                continue
            c.note("seek", off, wh)
            want = m.seek(off, wh)
            if want is None:
                with raises(ValueError, "seek before the beginning"):
                    f.seek(off, wh)
            else:
                eq(f.seek(off, wh) if wh else (f.seek(off) if r.random() < 0.5 else f.seek(off, 0)), want, "result of seek")
        elif k < 0.89 and truncs:
            n = r.choice([None, r.randrange(len(m.data) + 1), (len(m.data) // cs) * cs, max(0, len(m.data) - 1), min(maxsize, len(m.data) + r.randrange(2 * cs)), 0 if r.random() < 0.2 else None])
            c.note("truncate", n)
            m.truncate(n)
            f.truncate() if n is None else f.truncate(n)
        elif k < 0.93:
            c.note("flush")
            f.flush()
        else:
            f.close()
            mode = r.choice(["rw", "r+", "ra", "r+b", "rwb", "r+", "rw"])
            c.note("reopen", mode)
            if r.random() < 0.5:
                store = Store(d / "chunks", c.log)
            if r.random() < 0.3:
                # a reader sees the same
                with File(name, store, "r") as g:
                    got = g.read()
                    expect(got == bytes(m.data), "content seen by a reader after closing differs")
                    eq(g.tell(), len(m.data), "position at the end")
            f = File(name, store, mode)
            f.flush_target = ft
            m.pos = len(m.data) if "a" in mode else 0
    eq(f.tell(), m.pos, "position")
    eq(f.size, len(m.data), "size")
    f.seek(0)
    got = f.read()
    expect(got == bytes(m.data), "final content differs: {} bytes, expected {}", len(got), len(m.data))
    f.close()
    with File(name, Store(d / "chunks", c.log), "rb") as g:
        eq(g.size, len(m.data), "size after reopening")
        got = g.read()
        expect(got == bytes(m.data), "content after reopening differs")
        eq(len(got), len(m.data), "length after reopening")


@scenario("C01", 220, 6000)
def flat_file_small_chunks(c):
    """random operations on a chunked file with small chunks against a flat byte file"""
    cs = small(c, c.rng.choice([1, 2, 3, 8, 16, 64, 100]))
    ops(c, cs, c.rng.choice([10, 30, 80]), cs * c.rng.choice([6, 25, 40]))


@scenario("C01", 60, 1500)
def flat_file_without_truncate(c):
    """random operations without truncation, many chunks"""
    cs = small(c, c.rng.choice([4, 16, 50]))
    ops(c, cs, 150, cs * 60, truncs=False)


@scenario("C01", 4, 60)
def flat_file_real_chunks(c):
    """random operations with the real chunk size"""
    ops(c, CS, 10, CS * 6)


@scenario("C01", 3, 30)
def many_real_chunks(c):
    """more chunks than are kept in memory, with the real chunk size and default eviction"""
    r = c.rng
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    n = 24
    cs = CS
    want = {}
    with File(d / "image", store, "w") as f:
        order = list(range(n))
        f.seek(n * cs)
        if c.index:
            r.shuffle(order)
        for i in order:
            off, b = r.choice([(0, bytes([i + 1]) * cs), (r.randrange(cs), bytes([i + 1]))])
            f.seek(i * cs + off)
            f.write(b)
            want[i] = (off, b)
        for i in r.sample(order, 8):
            off = r.randrange(cs)
            f.seek(i * cs + off)
            f.write(b"\xee")
            o, b = want[i]
            x = bytearray(cs)
            x[o : o + len(b)] = b
            x[off] = 0xEE
            want[i] = (0, bytes(x))
    with File(d / "image", store, "r") as f:
        eq(f.size, n * cs, "size")
        for i in range(n):
            o, b = want[i]
            x = bytearray(cs)
            x[o : o + len(b)] = b
            got = f.read(cs)
            expect(got == bytes(x), "chunk {} differs", i)


# ----------------------------------------------------------------- C02
def damage(r, path, others):
    raw = open(path, "rb").read()
    kind = r.choice(["truncate", "flip", "exchange", "empty", "missing", "garbage", "append", "other-data", "zeros", "directory", "shorter-data", "permuted"])
    os.chmod(path, 0o640)
    if kind == "truncate":
        new = raw[: r.randrange(len(raw))]
    elif kind == "flip":
        # leave the length in the header alone, a huge one only costs memory
        pos = r.choice([0] + list(range(4, len(raw)))) if len(raw) > 4 else 0
        x = bytearray(raw)
        x[pos] ^= 1 << r.randrange(8)
        new = bytes(x)
    elif kind == "exchange" and others:
        new = open(r.choice(others), "rb").read()
    elif kind == "empty":
        new = b""
    elif kind == "garbage":
        new = r.randbytes(r.randrange(1, 40))
        new = b"\xf0\0\0\0" + new
    elif kind == "append":
        new = raw + r.randbytes(3)
    elif kind == "other-data":
        new = lzo.compress(r.randbytes(r.randrange(1, 50)))
    elif kind == "shorter-data":
        new = lzo.compress(lzo.decompress(raw)[:-1])
    elif kind == "permuted":
        d = lzo.decompress(raw)
        new = lzo.compress(d[1:] + d[:1])
    elif kind == "zeros":
        new = lzo.compress(b"\0" * len(lzo.decompress(raw)))
    else:
        os.unlink(path)
        if kind == "directory":
            os.mkdir(path)
        return kind
    with open(path, "wb") as f:
        f.write(new)
    return kind


def true_content(path, hash):
    """data with this fingerprint stored in the file, or None"""
    try:
        d = lzo.decompress(open(path, "rb").read())
    except (lzo.error, OSError):
        return None
    return d if fingerprint(d) == hash else None


@scenario("C02", 250, 4000)
def damaged_chunk(c):
    """reading a damaged, undecodable, exchanged or missing chunk fails as a backend failure"""
    r = c.rng
    store = Store(pathlib.Path(c.dir), c.log)
    hs = {}
    for _ in range(3):
        d = r.randbytes(r.randrange(2, 200)) if r.random() < 0.7 else bytes([r.randrange(256)]) * r.randrange(2, 5000)
        ch = Chunk(store, None)
        ch.write(0, d)
        hs[ch.flush()] = d
    for h, d in hs.items():
        eq(h, fingerprint(d), "identifier of a chunk")
    fs = chunk_files(c.dir)
    eq(set(fs), set(hs), "stored chunks")
    h = r.choice(sorted(hs))
    kind = damage(r, fs[h], [fs[x] for x in fs if x != h])
    c.note("damage", kind, h)
    intact = true_content(fs[h], h)
    off, n = r.choice([(0, -1), (0, 1), (1, 5), (0, 10**6)])
    store2 = Store(pathlib.Path(c.dir), c.log)
    how = r.randrange(4)
    ch = Chunk(store2, h)
    try:
        if how == 0:
            got = ch.read(off, n)[0]
        elif how == 1:
            got = ch.read(off)[0]
            n = -1
        elif how == 2:
            # partial write needs the rest of the chunk
            ch.write(1, b"x")
            ch.clean = True
            got = ch.read(off, n)[0]
            intact = None if intact is None else intact[:1] + b"x" + intact[2:]
        else:
            ch._read_existing()
            got = ch.read(off, n)[0]
    except BackendException as e:
        expect(isinstance(e, IOError), "the error is not recognisable as an I/O error")
        expect(intact is None, "reading an intact chunk failed")
        # once more: the failure is not forgotten
        with raises(BackendException, "second attempt to read a damaged chunk"):
            Chunk(store2, h).read(0)
        with raises(BackendException, "second attempt with the same object"):
            ch.read(off, n)
        return
    expect(intact is not None, "damaged chunk ({}) was passed off as data: {} bytes", kind, len(got))
    want = intact[off:] if n == -1 else intact[off : off + n]
    expect(got == want, "wrong data from an intact chunk")


@scenario("C02", 150, 3000)
def damaged_image(c):
    """reading an image with damaged, missing or short chunks fails instead of returning other data"""
    r = c.rng
    cs = small(c, r.choice([16, 50, 64]))
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    n = r.randrange(2, 7)
    data = r.randbytes(cs * n - r.randrange(0, cs))
    with File(d / "image", store, "w") as f:
        f.write(data)
    kind = r.choice(["chunk", "unmapped", "short", "size", "last-short", "none", "wrong"])
    raw = json.load(open(d / "image"))
    i = r.randrange(n)
    ids = {int(k): v for k, v in raw["mapping"].items()}
    bad = i * cs
    if kind == "chunk":
        fs = chunk_files(c.dir)
        p = fs[ids[i]]
        kind += "/" + damage(r, p, [fs[x] for x in fs if x != ids[i]])
        if true_content(p, ids[i]) is not None:
            bad = None
        else:
            bad = min(k for k, v in ids.items() if v == ids[i]) * cs
    elif kind == "unmapped":
        del raw["mapping"][str(i)]
    elif kind in ("short", "last-short"):
        i = n - 1 if kind == "last-short" else i
        part = data[i * cs : (i + 1) * cs]
        keep = r.randrange(1, len(part)) if len(part) > 1 else 0
        if not keep:
            del raw["mapping"][str(i)]
        else:
            ch = Chunk(store, None)
            ch.write(0, part[:keep])
            raw["mapping"][str(i)] = ch.flush()
        bad = i * cs + keep
    elif kind == "size":
        bad = len(data)
        raw["size"] = len(data) + r.randrange(1, 3 * cs)
    elif kind == "wrong":
        # a hash nothing is stored for
        raw["mapping"][str(i)] = fingerprint(b"nothing")
        bad = i * cs
    else:
        bad = None
    json.dump(raw, open(d / "image", "w"))
    c.note(kind, "first missing byte", bad)
    f = File(d / "image", Store(d / "chunks", c.log), "r")
    f.flush_target = r.choice([1, 10])
    how = r.randrange(4)
    start = r.randrange(len(data)) if how in (1, 2) else 0
    pos = start
    limit = raw["size"]
    full = data
    try:
        f.seek(start)
        while pos < limit:
            k = -1 if how == 0 or how == 1 else r.choice([1, cs, cs + 1, 3 * cs])
            got = f.read(k)
            want = full[pos:] if k == -1 else full[pos : pos + k]
            expect(bad is None or pos + len(got) <= bad or start > bad and pos // cs > bad // cs, "bytes were made up at {}..{} (first missing byte {})", pos, pos + len(got), bad)
            expect(got == want[: len(got)], "wrong bytes at {}", pos)
            expect(len(got) > 0 or k == 0, "empty read before the end at {}", pos)
            if k == -1:
                expect(pos + len(got) == limit, "short read")
            else:
                expect(len(got) == min(k, limit - pos), "short read at {}: {} of {}", pos, len(got), k)
            pos += len(got)
    except (OSError, ValueError) as e:
        if kind.startswith("chunk"):
            expect(isinstance(e, BackendException), "not recognisable as backend failure: {}", repr(e))
        expect(bad is not None, "an intact image could not be read: {}", repr(e))


@scenario("C02", 2, 20)
def real_size_chunk(c):
    """a full-size chunk is read back intact, or not at all after damage"""
    r = c.rng
    store = Store(pathlib.Path(c.dir), c.log)
    data = r.randbytes(CS)
    ch = Chunk(store, None)
    eq(ch.write(0, data), (CS, b""), "write of a whole chunk")
    h = ch.flush()
    eq(h, fingerprint(data), "identifier")
    expect(Chunk(store, h).read(0)[0] == data, "content differs")
    p = chunk_files(c.dir)[h]
    x = bytearray(open(p, "rb").read())
    x[r.randrange(5, len(x))] ^= 0x10
    os.chmod(p, 0o640)
    open(p, "wb").write(x)
    if true_content(p, h) is None:
        with raises(BackendException, "reading a damaged chunk"):
            Chunk(store, h).read(0)


# ----------------------------------------------------------------- C03
def check_store(path, damaged=()):
    for h, p in chunk_files(path).items():
        if h in damaged and damaged[h] == open(p, "rb").read():
            continue
        try:
            d = lzo.decompress(open(p, "rb").read())
        except lzo.error as e:
            raise Violation(f"chunk {h} is visible but incomplete ({e})")
        expect(fingerprint(d) == h, "chunk {} is visible but holds other data", h)


def check_maps(d, names):
    have = chunk_files(d / "chunks")
    for n in names:
        p = d / n
        if not p.exists():
            continue
        try:
            m = json.load(open(p))
        except ValueError:
            continue  # not readable as a map: not visible
        for k, h in m["mapping"].items():
            expect(h in have, "map {} refers to chunk {} which is not in the store", n, h)


def backup_like(c, store, name, plan, mode="w"):
    with File(name, store, mode) as f:
        f.flush_target = 1
        for op, a, b in plan:
            if op == "seek":
                f.seek(a)
            elif op == "write":
                f.write(b)
            elif op == "flush":
                f.flush()
            elif op == "truncate":
                f.truncate(a)


def make_plan(r, cs, size):
    plan = []
    for _ in range(r.randrange(2, 8)):
        plan.append(("seek", r.randrange(size), None))
        plan.append(("write", 0, block(r, r.choice([cs, 1, 2 * cs, cs + 3]))))
        if r.random() < 0.2:
            plan.append(("flush", 0, None))
        if r.random() < 0.1:
            plan.append(("truncate", r.randrange(size), None))
    return plan


def c03_setup(c):
    r = c.rng
    cs = small(c, r.choice([8, 16, 32]))
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    old = r.randbytes(cs * 4 + 3)
    with File(d / "old", store, "w") as f:
        f.write(old)
    if r.random() < 0.7:
        shutil.copy(d / "old", d / "new")
    store = Store(d / "chunks", c.log)
    store.force_writes = r.random() < 0.5
    plan = make_plan(r, cs, cs * 5)
    if r.random() < 0.5:
        plan += [("seek", 0, None), ("write", 0, old[: 2 * cs])]
    return d, store, plan, cs


@scenario("C03", 9, 400)
def crash_points(c):
    """the writing process dies at some line: chunks are complete, maps refer to stored chunks"""
    r = c.rng
    d, store, plan, cs = c03_setup(c)
    c.note("plan", plan, "force", store.force_writes)
    shutil.copytree(d, str(d) + ".ref", symlinks=True)
    try:
        run_ = lambda: backup_like(c, store, d / "new", plan)
        total = in_child(lambda: count_lines(run_))
        if total[0] != "ok":
            raise Violation(f"writing failed: {total}")
        n = total[1]
        points = sorted(r.sample(range(1, n + 1), min(n, 40 if c.tier == "quick" else 150)))
        for at in points:
            for x in d.iterdir():
                shutil.rmtree(x) if x.is_dir() else x.unlink()
            shutil.copytree(str(d) + ".ref", d, dirs_exist_ok=True)
            st = crash(run_, at)
            expect(st in (77, 0), "the writing process ended with {}", st)
            check_store(d / "chunks")
            check_maps(d, ["old", "new"])
    finally:
        shutil.rmtree(str(d) + ".ref", ignore_errors=True)


@scenario("C03", 12, 300)
def failing_points(c):
    """an error or interrupt at some line: chunks are complete, maps refer to stored chunks"""
    r = c.rng
    d, store, plan, cs = c03_setup(c)
    run_ = lambda: backup_like(c, store, d / "new", plan)
    n = None
    shutil.copytree(d, str(d) + ".ref")
    try:
        total = in_child(lambda: count_lines(run_))
        n = total[1]
        for at in sorted(r.sample(range(1, n + 1), min(n, 40 if c.tier == "quick" else 150))):
            for x in d.iterdir():
                shutil.rmtree(x) if x.is_dir() else x.unlink()
            shutil.copytree(str(d) + ".ref", d, dirs_exist_ok=True)
            store.seen = set()
            exc = r.choice([OSError(28, "No space left on device"), KeyboardInterrupt(), MemoryError()])
            try:
                interrupted(run_, at, exc)
            except BaseException as e:
                if isinstance(e, (Timeout, Violation)):
                    raise
            check_store(d / "chunks")
            check_maps(d, ["old", "new"])
    finally:
        shutil.rmtree(str(d) + ".ref", ignore_errors=True)


class Full(io.RawIOBase):
    pass


@scenario("C03", 40, 600)
def disk_full(c):
    """writing runs out of space (file size limit) at some point"""
    import resource

    r = c.rng
    d, store, plan, cs = c03_setup(c)
    lim = r.choice([0, 1, 5, 8, 12, 20, 30, 60, 100, 200])
    c.note("limit", lim, plan)

    def child():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        backup_like(c, store, d / "new", plan)

    in_child(child)
    check_store(d / "chunks")
    check_maps(d, ["old"])


@scenario("C03", 25, 600)
def stored_and_purged(c):
    """one store object used for writing, collecting garbage and writing again"""
    r = c.rng
    cs = small(c, r.choice([8, 16]))
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    parts = [r.randbytes(cs) for _ in range(4)]
    images = {}
    for step in range(r.randrange(3, 7)):
        if images and r.random() < 0.5:
            for n in r.sample(sorted(images), r.randrange(1, len(images) + 1)):
                del images[n]
                os.unlink(d / n)
            if r.random() < 0.3:
                store.force_writes = True
            used = set()
            for n in images:
                with File(d / n, store, "r") as f:
                    used |= set(f._mapping.values())
            c.note("purge, keeping", len(used))
            store.purge(used)
            c.nontrivial = True
        else:
            n = f"img{step}"
            data = b"".join(r.choice(parts) for _ in range(r.randrange(1, 5)))
            c.note("write", n, len(data))
            with File(d / n, store, "w") as f:
                f.write(data)
            images[n] = data
        check_maps(d, sorted(images))
        for n, want in images.items():
            with File(d / n, Store(d / "chunks", c.log), "r") as f:
                expect(f.read() == want, "content of {} differs", n)
    check_store(d / "chunks")


@scenario("C03", 60, 1500)
def forced_writes(c):
    """with forced writing each stored chunk is written anew, otherwise existing files are left alone"""
    r = c.rng
    cs = small(c, r.choice([8, 16]))
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    parts = [r.randbytes(cs) for _ in range(5)] + [b"\0" * cs]
    with File(d / "old", store, "w") as f:
        for p in parts[:4]:
            f.write(p)
    have = chunk_files(d / "chunks")
    stamp = {}
    damaged = {}
    for h, p in have.items():
        if r.random() < 0.5:
            os.chmod(p, 0o640)
            with open(p, "wb") as f:
                f.write(b"damaged")
            damaged[h] = b"damaged"
        os.utime(p, ns=(1, 1))
        st = os.stat(p)
        stamp[h] = (st.st_ino, st.st_mtime_ns, open(p, "rb").read())
    store = Store(d / "chunks", c.log)
    force = r.random() < 0.7
    store.force_writes = force
    written = []
    names = ["new", "new2"]
    content = {}
    for name in names[: r.randrange(1, 3)]:
        # a new image, or one that has the same chunks already
        like = r.random() < 0.5
        if like:
            shutil.copy(d / "old", d / name)
        with File(d / name, store, "w") as f:
            f.flush_target = r.choice([1, 2])
            content[name] = b""
            for i in range(r.randrange(1, 9)):
                p = r.choice(parts)
                if like and i < 4 and r.random() < 0.7:
                    p = parts[i]
                f.write(p)
                content[name] += p
                written.append(fingerprint(p))
            if like:
                content[name] += b"".join(parts[i + 1 : 4])
    c.note("force", force, "stored", written, "damaged", sorted(damaged))
    now = chunk_files(d / "chunks")
    for h in set(written):
        expect(h in now, "chunk {} is not in the store", h)
        st = os.stat(now[h])
        cur = (st.st_ino, st.st_mtime_ns, open(now[h], "rb").read())
        if force:
            if h in stamp:
                expect(cur[:2] != stamp[h][:2], "existing chunk {} was not written anew", h)
            expect(true_content(now[h], h) is not None, "chunk {} is damaged after a forced write", h)
        elif h in stamp:
            expect(cur == stamp[h], "existing chunk {} was touched", h)
    for h in set(stamp) - set(written):
        expect(h in now and open(now[h], "rb").read() == stamp[h][2], "chunk {} which was not stored has changed", h)
    for n in names:
        check_maps(d, [n])
    if force and set(damaged) <= set(written):
        for n, want in content.items():
            with File(d / n, Store(d / "chunks", c.log), "r") as f:
                expect(f.read() == want, "content of {} differs", n)
    check_store(d / "chunks", {} if force and set(damaged) <= set(written) else damaged)
