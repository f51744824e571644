"""C24: comparison of sources and backups, problem reports."""
import asyncio
import datetime
import hashlib
import io
import os
import pathlib

import yaml
from rbdfake import *
import backy.utils
from backy.report import ChunkMismatchReport


class Spy(io.BytesIO):
    """records what has been read"""

    def __init__(self, data):
        super().__init__(data)
        self.seen = []

    def read(self, n=-1):
        p = self.tell()
        d = super().read(n)
        self.seen.append((p, len(d)))
        return d

    def covered(self):
        s = set()
        for p, n in self.seen:
            s |= set(range(p, p + n))
        return s


def pair(r, bs):
    n = r.choice([0, 1, bs - 1, bs, bs + 1, 3 * bs, 5 * bs + 3, r.randrange(20 * bs)])
    a = image_data(r, n)
    k = r.choice(["same", "same", "byte", "shorter", "longer", "zeros", "swap"])
    b = bytearray(a)
    if k == "byte" and b:
        for _ in range(r.choice([1, 1, 3])):
            b[r.choice([0, len(b) - 1, r.randrange(len(b))])] ^= 1 << r.randrange(8)
    elif k == "shorter":
        b = b[: r.choice([0, max(len(b) - 1, 0), len(b) // 2, len(b) // bs * bs])]
    elif k == "longer":
        b += r.choice([b"\0", b"x", bytes(bs), r.randbytes(3 * bs)])
    elif k == "zeros":
        b += bytes(r.randrange(2 * bs))
    elif k == "swap" and len(b) >= 2 * bs:
        b = b[bs : 2 * bs] + b[:bs] + b[2 * bs :]
    b = bytes(b)
    return (a, b) if r.random() < 0.5 else (b, a)


@scenario("C24", 400, 10000)
def full(c):
    """full comparison: equal exactly if identical; every mismatch passed on"""
    r = c.rng
    bs = r.choice([1, 4, 16, 64])
    c.p.set(backy.utils, "CHUNK_SIZE", bs)
    a, b = pair(r, bs)
    got = []
    if r.random() < 0.2:
        fa, fb = os.path.join(c.dir, "a"), os.path.join(c.dir, "b")
        open(fa, "wb").write(a)
        open(fb, "wb").write(b)
        with open(fa, "rb") as x, open(fb, "rb") as y:
            res = backy.utils.files_are_equal(x, y, report=lambda *v: got.append(v))
    else:
        res = backy.utils.files_are_equal(Spy(a), Spy(b), report=lambda *v: got.append(v))
    eq(bool(res), a == b, "files_are_equal")
    for x, y, o in got:
        expect(x != y and a[o : o + bs] == x and b[o : o + bs] == y, "reported difference at {} is none", o)
    want = [o for o in range(0, len(a), bs) if a[o : o + bs] != b[o : o + bs]]
    offs = [o for _, _, o in got]
    eq([o for o in offs if o < len(a)], want, "offsets of the reported differences")
    c.nontrivial = a != b


@scenario("C24", 400, 10000)
def sampled(c):
    """sampled comparison: number of blocks, verdict, time limit"""
    r = c.rng
    bs = r.choice([1, 4, 16])
    if r.random() < 0.4:
        n = r.choice([99, 100, 101, 199, 200, 250, 1000, r.randrange(3000)]) * bs + r.choice([0, 0, 1])
        a = bytes(r.randrange(256) for _ in range(8)) * (n // 8) + bytes(n % 8)
        b = bytearray(a)
        if b and r.random() < 0.5:
            for _ in range(r.choice([1, len(b) // 20 + 1])):
                b[r.randrange(len(b))] ^= 1
        b = bytes(b)
    else:
        a, b = pair(r, bs)
    frac = r.choice([None, None, 0.01, 0.5, 1.0])
    step = r.choice([0, 0, 0, 1, 100, 400])
    ck = Clock(c)
    t0 = ck.t
    calls = []

    def now():
        ck.t += datetime.timedelta(seconds=step)
        calls.append(ck.t)
        return ck.t

    c.p.set(backy.utils, "now", now)
    if r.random() < 0.7:
        import random

        random.seed(r.random())
    x, y = Spy(a), Spy(b)
    got = []
    kw = {} if frac is None else {"samplesize": frac}
    res = backy.utils.files_are_roughly_equal(x, y, blocksize=bs, report=lambda *v: got.append(v), **kw)
    x.seen = [s for s in x.seen]
    blocks = len(a) // bs
    wanted = max(int((frac or 0.01) * blocks), 1)
    seen = {p // bs for p, n in x.seen}
    common = {p for p, n in x.seen} & {p for p, n in y.seen}
    for p in {p for p, n in x.seen}:
        expect(p in common, "only one side has been read at {}", p)
    diff = [p for p in common if a[p : p + bs] != b[p : p + bs]]
    eq(bool(res), not diff, f"verdict (blocks compared {sorted(common)[:20]})")
    stopped = step and calls and (calls[-1] - calls[0]).total_seconds() > 300
    for s, t, o in got:
        expect(s != t and s == a[o : o + bs] and t == b[o : o + bs], "reported difference at {} is none", o)
    if res:
        eq(got, [], "reported differences though equal")
        if not stopped:
            expect(len(seen) >= wanted, "{} of {} blocks have been compared, needs {}", len(seen), blocks, wanted)
        for p, n in x.seen:
            expect(n == min(bs, len(a) - p) or n == 0, "block at {} has been read partially", p)
    else:
        eq(len(got), 1, "reported differences")
    c.nontrivial = bool(diff) or len(seen) > 1


def reports_on_disk(path):
    out = {}
    q = path / "quarantine"
    for f in q.glob("*.report"):
        out[f.name.removesuffix(".report")] = yaml.safe_load(f.read_text())
    return out


@scenario("C24", 40, 500)
def reports(c):
    """mismatches are kept with both contents until they are deleted; exactly the named ones are"""
    from backy.cli import Command

    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    pool = [b"", b"x", b"\0" * 100, r.randbytes(50), r.randbytes(3000), "äöü: |\n".encode() * 50]
    want = {}
    chunks = {}
    for i in range(r.choice([1, 2, 4])):
        s, t = r.sample(pool, 2)
        o = r.choice([0, 64, 2**41])
        rep = ChunkMismatchReport(s, t, o)
        rp.add_report(rep)
        want[rep.uuid] = (hashlib.md5(s).hexdigest(), hashlib.md5(t).hexdigest(), o, rep.timestamp)
        chunks[hashlib.md5(s).hexdigest()] = s
        chunks[hashlib.md5(t).hexdigest()] = t
        if r.random() < 0.3:
            rp.add_report(rep) if False else rep.store(rp.report_path, Log())
    eq(sorted(rp.report_ids), sorted(want), "known reports")

    def check(what):
        got = reports_on_disk(path)
        eq(sorted(got), sorted(want), f"reports {what}")
        for u, (s, t, o, ti) in want.items():
            d = got[u]
            eq((d["uuid"], d["source_hash"], d["target_hash"], d["offset"]), (u, s, t, o), f"report {u} {what}")
            for h_ in (s, t):
                eq((path / "quarantine" / "chunks" / h_).read_bytes(), chunks[h_], f"content kept for report {u} {what}")
        eq(sorted(repo(path).report_ids), sorted(want), f"reports found {what}")

    check("after adding")
    # a scan, a removed revision and garbage collection keep them
    repo(path)._clean()
    check("after cleaning")
    cmd = Command(path, path / "conf", False, None, Log())
    for _ in range(2):
        if not want:
            break
        k = r.choice(["one", "some", "all", "unknown"])
        c.note("delete", k)
        fresh = repo(path)
        if k == "all":
            cmd.reports_delete(repo=fresh, reports=None)
            want.clear()
        elif k == "unknown":
            with raises(Exception, "deleting an unknown report"):
                cmd.reports_delete(repo=fresh, reports="nope")
        else:
            ids = sorted(want)[:1] if k == "one" else r.sample(sorted(want), r.randrange(1, len(want) + 1))
            cmd.reports_delete(repo=fresh, reports=",".join(ids))
            for i in ids:
                del want[i]
        check(f"after deleting {k}")


@scenario("C24", 20, 300)
def backup_reports(c):
    """a mismatch found after a backup ends up as a report with both blocks"""
    r = c.rng
    w = World(c)
    w.set_image(image_data(r, r.choice([64, 640])))
    uid = w.new_rev(ts(1000))
    # the device shows something else than what has been exported
    other = bytes(x ^ 0xFF for x in w.image)
    dev = pathlib.Path(c.dir) / "other"
    dev.write_bytes(other)
    fault = r.random() < 0.8
    if fault:
        w.faultmap({"map": {"device": str(dev)}})
    ok = w.backup(uid)
    got = reports_on_disk(w.path)
    eq(bool(ok), not fault, "result of the backup")
    eq(len(got), int(fault), "number of reports")
    for u, d in got.items():
        s = (w.path / "quarantine" / "chunks" / d["source_hash"]).read_bytes()
        t = (w.path / "quarantine" / "chunks" / d["target_hash"]).read_bytes()
        o = d["offset"]
        expect(s and other[o : o + len(s)] == s, "source block of the report")
        expect(t and w.image[o : o + len(t)] == t, "target block of the report")
    c.nontrivial = fault
