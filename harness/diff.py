"""C04: integrating RBD diffs."""
import io
import os
import pathlib
import struct

from h import *
from backy.rbd.chunked import Chunk, File, Store
from backy.rbd.rbd import RBDDiffV1

HEADER = b"rbd diff v1\n"


def s_name(tag, n):
    return tag + struct.pack("<i", len(n)) + n


def make(r, old, cs, newsize, big=False):
    """stream bytes, new content, sum of lengths"""
    new = bytearray(old[:newsize]) + b"\0" * max(0, newsize - len(old))
    out = HEADER
    md = [s_name(b"f", b"backy-old"), s_name(b"t", b"backy-new"), b"s" + struct.pack("<Q", newsize)]
    if r.random() < 0.3:
        r.shuffle(md)
    if r.random() < 0.2:
        md = [m for m in md if m[:1] not in r.choice([b"f", b"t", b"ft", b""])]
    out += b"".join(md)
    total = 0
    pos = 0
    recs = []
    n = r.randrange(0, 12)
    ranges = []
    for _ in range(n):
        if newsize == 0:
            break
        a = r.randrange(newsize)
        if r.random() < 0.3:
            a = a // cs * cs
        l = min(newsize - a, r.choice([1, cs, 2 * cs, r.randrange(1, 4 * cs), cs - a % cs]))
        if l > 0:
            ranges.append((a, l))
    if r.random() < 0.7:
        # as rbd emits them: ascending, not overlapping
        ranges.sort()
        rs, end = [], 0
        for a, l in ranges:
            if a >= end:
                rs.append((a, l))
                end = a + l
        ranges = rs
    for a, l in ranges:
        if r.random() < 0.35:
            out += b"z" + struct.pack("<QQ", a, l)
            new[a : a + l] = b"\0" * l
        else:
            d = r.choice([b"\0" * l, r.randbytes(l), b"w" * l, b"e" * l])
            out += b"w" + struct.pack("<QQ", a, l) + d
            new[a : a + l] = d
        recs.append((a, l))
        total += l
    out += b"e"
    return out, bytes(new), total, recs


class Pipe(io.RawIOBase):
    pass


def pipe_of(data):
    """a buffered pipe like that of the exporting command"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(wfd, mv[:777]) :]
        except BaseException:
            pass
        os._exit(0)
    os.close(wfd)
    return os.fdopen(rfd, "rb", buffering=4096), pid


def image(c, r, cs):
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    old = r.randbytes(r.choice([0, 1, cs, 3 * cs, r.randrange(8 * cs)]))
    if r.random() < 0.3:
        old = b"\0" * len(old)
    with File(d / "image", store, "w") as f:
        f.write(old)
    return d, store, old


@scenario("C04", 250, 6000)
def well_formed(c):
    """a well-formed diff into an image with the old content gives the new content"""
    r = c.rng
    cs = Chunk.CHUNK_SIZE
    cs = r.choice([8, 32, 64])
    c.p.set(Chunk, "CHUNK_SIZE", cs)
    d, store, old = image(c, r, cs)
    newsize = r.choice([len(old), len(old), r.randrange(10 * cs), len(old) // 2, len(old) + cs])
    stream, new, total, recs = make(r, old, cs, newsize)
    c.note("old", len(old), "new", newsize, "records", recs)
    pid = None
    if c.index % 10 == 0:
        src, pid = pipe_of(stream)
    else:
        src = io.BytesIO(stream)
    f = File(d / "image", store, r.choice(["w", "wb", "rw"]))
    f.flush_target = r.choice([1, 2, 10])
    try:
        got = RBDDiffV1(src).integrate(f, b"backy-old".decode(), "backy-new")
    finally:
        if pid:
            src.close()
            os.waitpid(pid, 0)
    f.close()
    eq(got, total, "number of bytes integrated")
    with File(d / "image", Store(d / "chunks", c.log), "r") as g:
        eq(g.size, newsize, "size of the image")
        data = g.read()
    if data != new:
        j = next((j for j in range(min(len(data), len(new))) if data[j] != new[j]), None)
        raise Violation(f"content differs at {j} (records {recs})")


@scenario("C04", 120, 2000)
def plain_file_target(c):
    """the same for a plain file as target (zeroed ranges by hole punching)"""
    r = c.rng
    cs = 512
    p = os.path.join(c.dir, "t")
    old = r.randbytes(r.randrange(0, 9000))
    open(p, "wb").write(old)
    newsize = max(len(old), r.randrange(12000)) if r.random() < 0.5 else r.randrange(1, 12000)
    stream, new, total, recs = make(r, old, cs, newsize)
    c.note("old", len(old), "new", newsize, "records", recs)
    with open(p, "r+b") as f:
        got = RBDDiffV1(io.BytesIO(stream)).integrate(f, "backy-old", "backy-new")
    eq(got, total, "number of bytes integrated")
    data = open(p, "rb").read()
    # a plain file is not extended by seeking, zeros may be left out at the end
    data += b"\0" * (len(new) - len(data))
    if data != new:
        j = next((j for j in range(min(len(data), len(new))) if data[j] != new[j]), None)
        raise Violation(f"content differs at {j}: {len(data)} / {len(new)} bytes (records {recs})")


def must_fail(c, d, store, stream, what, frm="backy-old", to="backy-new"):
    f = File(d / "image", store, "w")
    try:
        RBDDiffV1(io.BytesIO(stream)).integrate(f, frm, to)
    except Exception as e:
        return e
    raise Violation(f"{what}: integrated without an error")


@scenario("C04", 60, 800)
def early_end(c):
    """a stream which ends early makes the integration fail"""
    r = c.rng
    cs = 32
    c.p.set(Chunk, "CHUNK_SIZE", cs)
    d, store, old = image(c, r, cs)
    stream, new, total, recs = make(r, old, cs, r.randrange(1, 8 * cs))
    cuts = list(range(len(stream)))
    if len(cuts) > 25:
        cuts = sorted(set(r.sample(cuts, 18) + list(range(len(stream) - 4, len(stream))) + [0, 3, 12, 13]))
    c.note("records", recs, "cuts", cuts)
    for cut in cuts:
        must_fail(c, d, store, stream[:cut], f"stream cut at {cut} of {len(stream)} bytes")


@scenario("C04", 60, 800)
def malformed(c):
    """wrong header, unknown record, other snapshot names"""
    r = c.rng
    cs = 32
    c.p.set(Chunk, "CHUNK_SIZE", cs)
    d, store, old = image(c, r, cs)
    size = r.randrange(1, 8 * cs)
    body = b"w" + struct.pack("<QQ", 0, 1) + b"x"
    f, t, s = s_name(b"f", b"backy-old"), s_name(b"t", b"backy-new"), b"s" + struct.pack("<Q", size)
    for h in (b"rbd diff v2\n", b"rbd diff v1 ", b"RBD diff v1\n", b"", b"rbd diff v1"):
        must_fail(c, d, store, h + f + t + s + body + b"e", "wrong header")
    for bad in (b"x", b"\0", b"W", b"r", b"_", b"i", b"\xff", b"F", b"E", b" "):
        for place in range(4):
            parts = [f, t + s, body, b""]
            parts[place] += bad
            must_fail(c, d, store, HEADER + b"".join(parts) + b"e", f"unknown record {bad!r}")
    for f2, t2 in ((b"backy-other", b"backy-new"), (b"backy-old", b"backy-other"), (b"backy-new", b"backy-old"), (b"", b"backy-new"), (b"backy-old", b""), (b"backy-ol", b"backy-new"), (b"backy-old", b"backy-newx")):
        order = [s_name(b"f", f2), s_name(b"t", t2), s]
        r.shuffle(order)
        must_fail(c, d, store, HEADER + b"".join(order) + body + b"e", f"snapshot names {f2} {t2}")
        must_fail(c, d, store, HEADER + b"".join(order) + b"e", f"snapshot names {f2} {t2}, no data")
    # metadata after the first data record
    must_fail(c, d, store, HEADER + f + t + s + body + b"s" + struct.pack("<Q", 1) + b"e", "size after data")
    must_fail(c, d, store, HEADER + f + t + s + body + s_name(b"f", b"backy-other") + b"e", "name after data")


@scenario("C04", 2, 12)
def real_sizes(c):
    """records longer than the internal block size, real chunk size"""
    r = c.rng
    d = pathlib.Path(c.dir)
    store = Store(d / "chunks", c.log)
    CS = Chunk.CHUNK_SIZE
    old = r.randbytes(1000) * (2 * CS // 1000)
    with File(d / "image", store, "w") as f:
        f.write(old)
    size = 4 * CS + 17
    new = bytearray(old + b"\0" * (size - len(old)))
    out = HEADER + s_name(b"f", b"a") + s_name(b"t", b"b") + b"s" + struct.pack("<Q", size)
    total = 0
    for a, l, z in ((5, 2 * CS + 3, 0), (CS, CS + 100, 1), (3 * CS - 1, CS + 5, 0)):
        if z:
            out += b"z" + struct.pack("<QQ", a, l)
            new[a : a + l] = b"\0" * l
        else:
            x = r.randbytes(4096) * (l // 4096 + 1)
            x = x[:l]
            out += b"w" + struct.pack("<QQ", a, l) + x
            new[a : a + l] = x
        total += l
    out += b"e"
    with File(d / "image", store, "w") as f:
        eq(RBDDiffV1(io.BytesIO(out)).integrate(f, "a", "b"), total, "bytes")
    with File(d / "image", store, "r") as g:
        expect(g.read() == bytes(new), "content differs")
    cut = r.choice([len(out) - 2, len(out) - CS, 12 + 30 + CS])
    must_fail(c, d, store, out[:cut], "early end in a long record", "a", "b")
