"""C07: garbage collection, C08: verification."""
import os
import pathlib

from rbdfake import *
from backy.file import FileSource
import locks


def local_uuids(path):
    return {u for u, m in disk(path).items() if not m[6]}


def referenced(w, uuids):
    out = set()
    for u in uuids:
        if (w.path / u).exists():
            out |= w.hashes(u)
    return out


def population(c, w, n=None):
    """revisions which share some of their chunks, and garbage in the store"""
    r = c.rng
    base = image_data(r, 640)
    out = []
    for i in range(n if n is not None else r.choice([0, 1, 2, 4, 6])):
        base = mutate(r, base)
        kw = {}
        if r.random() < 0.3:
            kw["duration"] = None
        if r.random() < 0.25:
            kw["server"] = "peer"
        if r.random() < 0.6:
            kw["trust"] = r.choice(["trusted", "distrusted", "verified"])
        out.append(w.add_rev(base, ts(i * 1000), snap=False, tags=r.choice([("daily",), (), ("manual:x", "daily")]), **kw))
    return out


def garbage(c, w):
    r = c.rng
    uid = w.add_rev(image_data(r, 900), ts(99999), snap=False)
    (w.path / f"{uid}.rev").unlink()
    (w.path / uid).unlink()


def rev_files(path):
    return {n: open(os.path.join(path, n), "rb").read() for n in os.listdir(path) if os.path.isfile(os.path.join(path, n)) and not n.startswith(".")}


@scenario("C07", 60, 1500)
def collect(c):
    """chunks left by collecting garbage, with revisions added and removed by others after loading"""
    r = c.rng
    w = World(c)
    uids = population(c, w)
    if r.random() < 0.8:
        garbage(c, w)
    s = w.source()
    broken = None
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        k = r.choice(["add", "add", "remove", "complete", "server"])
        c.note("meanwhile", k)
        if k == "add":
            uids.append(w.add_rev(image_data(r, 700), ts(r.randrange(100000)), snap=False, duration=r.choice([None, 3.0])))
        elif uids:
            u = r.choice(uids)
            o = repo(w.path)
            if u not in o._by_uuid:
                continue
            v = o.find_by_uuid(u)
            if k == "remove":
                v.remove(force=True)
            elif k == "complete":
                v.stats["duration"] = 2.0
                v.write_info()
            else:
                v.server = "" if v.server else "peer"
                v.write_info()
    if r.random() < 0.2:
        (w.path / ".purge_pending").touch()
    if r.random() < 0.1 and local_uuids(w.path):
        broken = r.choice(sorted(local_uuids(w.path)))
        (w.path / broken).unlink()
    before, files = w.chunks(), rev_files(w.path)
    need = referenced(w, local_uuids(w.path))
    c.note("chunks", len(before), "needed", len(need))
    c.nontrivial = bool(before)
    try:
        s.gc()
    except Exception:
        if not broken:
            raise
    after = w.chunks()
    for h_ in need & set(before):
        expect(h_ in after, "chunk {} of a present local revision has been deleted", h_)
        eq(after[h_], before[h_], f"chunk {h_}")
    if not broken:
        eq(set(after), need & set(before), "chunks left")
    eq(rev_files(w.path), files, "metadata and maps after gc")
    for u in local_uuids(w.path):
        if u != broken:
            w.content(u)
    # once more with nothing changed, over a new object
    if not broken:
        w.source().gc()
        eq(set(w.chunks()), set(after), "chunks left by a second run")


@scenario("C07", 8, 200)
def after_backups(c):
    """collecting garbage between backups made with the same objects"""
    r = c.rng
    w = World(c)
    w.set_image(image_data(r, 640))
    s = w.source()
    keep = {}
    for i in range(r.choice([2, 3, 4])):
        uid = w.new_rev(ts(i * 1000))
        s.repository.scan()
        expect(s.backup(s.repository.find_by_uuid(uid)), "backup failed")
        keep[uid] = w.image
        if r.random() < 0.5 and len(keep) > 1:
            x = r.choice(sorted(keep))
            s.repository.find_by_uuid(x).remove()
            del keep[x]
        if r.random() < 0.3:
            s = w.source()
        s.gc()
        for u, d in keep.items():
            eq(w.content(u), d, f"content of {u}")
        eq(set(w.chunks()), referenced(w, keep), "chunks left")
        w.set_image(r.choice([mutate(r, w.image), w.image, image_data(r, 640)]))


@scenario("C07", 40, 600)
def collect_files(c):
    """collecting garbage of a file source"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    src = pathlib.Path(c.dir) / "src"
    src.write_bytes(b"data")
    rp = repo(path)
    names = []
    for i in range(r.choice([0, 1, 3, 5])):
        v = rev(rp, {"daily"}, ts=ts(i * 100), duration=r.choice([None, 1.0]), server=r.choice(["", "", "peer"]))
        (path / v.uuid).write_bytes(b"x%d" % i)
        names.append(v.uuid)
    s = FileSource.from_config(repo(path), {"type": "file", "filename": str(src)}, Log())
    for _ in range(r.choice([0, 0, 1, 2])):
        if r.random() < 0.6:
            v = rev(rp, {"daily"}, ts=ts(r.randrange(9999)), duration=r.choice([None, 1.0]))
            (path / v.uuid).write_bytes(b"y")
        elif names:
            o = repo(path)
            o.history and r.choice(o.history).remove(force=True)
    (path / "unrelated").write_bytes(b"u")
    before = rev_files(path)
    s.gc()
    after = rev_files(path)
    eq(after, before, "files after gc")


# ------------------------------------------------------------------- C08
def damage(c, w, h_):
    r = c.rng
    f = w.path / "chunks" / h_[:2] / f"{h_}.chunk.lzo"
    k = r.choice(["missing", "flip", "truncate", "empty", "garbage", "other"])
    c.note("damage", h_, k)
    d = f.read_bytes()
    f.chmod(0o640)
    if k == "missing":
        f.unlink()
    elif k == "flip":
        i = r.randrange(len(d)) if d else 0
        f.write_bytes(d[:i] + bytes([d[i] ^ (1 << r.randrange(8))] if d else [1]) + d[i + 1 :])
    elif k == "truncate":
        f.write_bytes(d[: r.randrange(len(d))] if d else b"x")
    elif k == "empty":
        f.write_bytes(b"")
    elif k == "garbage":
        f.write_bytes(r.randbytes(r.choice([1, 40])))
    else:
        import lzo

        f.write_bytes(lzo.compress(r.randbytes(64)))


def bad_chunks(w):
    """chunks whose file is missing or has other contents, read independently"""
    import lzo

    out = set()
    for u in os.listdir(w.path):
        if (w.path / u).is_file() and (w.path / f"{u}.rev").exists():
            for h_ in w.hashes(u):
                f = w.path / "chunks" / h_[:2] / f"{h_}.chunk.lzo"
                try:
                    if fingerprint(lzo.decompress(f.read_bytes())) != h_:
                        out.add(h_)
                except (OSError, lzo.error):
                    out.add(h_)
    return out


@scenario("C08", 120, 3000)
def verify(c):
    """verification with damaged, missing and shared chunks and all trust states"""
    r = c.rng
    w = World(c)
    uids = population(c, w, r.choice([1, 2, 3, 4, 5]))
    d0 = disk(w.path)
    local = [u for u in uids if not d0[u][6]]
    if not local:
        c.nontrivial = False
        return
    target = r.choice(local)
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        pool = sorted(w.hashes(target)) if r.random() < 0.7 else sorted(referenced(w, uids))
        pool = [h_ for h_ in pool if h_ in w.chunks()]
        if pool:
            damage(c, w, r.choice(pool))
    if r.random() < 0.4:
        garbage(c, w)
    bad = bad_chunks(w)
    skip = referenced(w, [u for u in local if d0[u][5] == "verified" and "duration" in d0[u][2]])
    check = w.hashes(target) - skip
    before, maps = w.chunks(), {u: (w.path / u).read_bytes() for u in uids}
    s = w.source()
    if r.random() < 0.15:
        # somebody reads or adds chunks: verification has to wait or to fail
        with repo(w.path).lock(".purge", "shared"):
            t = tree(w.path)
            try:
                s.verify(s.repository.find_by_uuid(target))
            except BlockingIOError:
                pass
            else:
                raise Violation("verified (and collected garbage) while the chunks were in use")
            eq(tree(w.path), t, "repository after a refused verification")
        return
    s.verify(s.repository.find_by_uuid(target))
    d1 = disk(w.path)
    after = w.chunks()
    c.note("target", d0[target], "to check", len(check), "bad", len(check & bad))
    others = {u: m for u, m in d0.items() if u != target}
    eq({u: m for u, m in d1.items() if u != target}, others, "other revisions")
    for u in others:
        eq((w.path / u).read_bytes(), maps[u], f"map of {u}")
    if check & bad:
        expect(target not in d1, "the revision is still there (trust {}) though chunks {} are damaged or missing", d1.get(target, [0] * 6)[5], sorted(check & bad))
        gone = {h_ for h_ in check & bad if h_ not in after}
        expect(gone, "no damaged chunk has been deleted")
    else:
        m = d0[target]
        eq(d1.get(target), m[:5] + ("verified",) + m[6:], "revision after a successful verification")
    need = referenced(w, [u for u in d1 if not d1[u][6]])
    for h_ in need:
        if h_ in before and h_ not in check & bad:
            eq(after.get(h_), before[h_], f"chunk {h_} of a present revision")
    # nothing is verified with chunks that nobody has checked
    now_skip = referenced(w, [u for u, m in d1.items() if not m[6] and m[5] == "verified" and "duration" in m[2]])
    if not skip & bad:
        expect(not (d1.get(target, [0] * 6)[5] == "verified" and w.hashes(target) & bad), "verified though a chunk is bad")


@scenario("C08", 30, 500)
def verify_all(c):
    """verifying all revisions one after the other with the same objects leaves only intact ones"""
    r = c.rng
    w = World(c)
    uids = population(c, w, r.choice([2, 3, 4]))
    o = repo(w.path)
    for v in list(o.history):
        if v.trust == Trust.VERIFIED:
            v.trust = Trust.TRUSTED
            v.write_info()
    for _ in range(r.choice([0, 1, 2, 3])):
        pool = sorted(w.chunks())
        if pool:
            damage(c, w, r.choice(pool))
    intact = {}
    bad = bad_chunks(w)
    for u in sorted(local_uuids(w.path)):
        if not w.hashes(u) & bad:
            intact[u] = w.content(u)
    s = w.source()
    for v in list(s.repository.get_history(local=True)):
        s.verify(v)
    d = disk(w.path)
    eq({u for u, m in d.items() if not m[6]}, set(intact), "revisions left")
    for u, x in intact.items():
        eq(d[u][5], "verified", f"trust of {u}")
        eq(w.content(u), x, f"content of {u}")
