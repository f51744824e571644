"""C05, C09, C10: backups of RBD images."""
from rbdfake import *


def history(w, r, n, trusts=("trusted", "verified", "distrusted"), p_snap=0.7, p_remote=0.2, t0=0):
    """n complete revisions with different contents; oldest first"""
    data = image_data(r, r.choice([300, 640, 1000]))
    out = []
    for i in range(n):
        data = mutate(r, data)
        remote = r.random() < p_remote
        snap = r.random() < p_snap
        tr = r.choice(trusts)
        u = w.add_rev(data, ts(t0 + 100 * i), snap=snap, trust=tr, server="peer" if remote else "")
        out.append(dict(uuid=u, data=data, remote=remote, snap=snap, trust=tr))
    return out, data


def good(w, uuid):
    d = disk(w.path)
    return uuid in d and "duration" in d[uuid][2]


FAULTS = ["none", "none", "export-rc", "export-cut", "export-cut-rc", "export-swap", "device", "device-short", "snap-create", "map", "unmap", "showmapped", "image-info",
          "lost-chunk", "damaged-chunk", "parent-chunk", "snap-ls", "snap-rm", "device-missing"]


@scenario("C05", 45, 700)
def backup_with_faults(c):
    """one backup with a fault in the source, the transfer, the store or the comparison"""
    r = c.rng
    w = World(c)
    full = r.random() < 0.25
    w.conf["full-always"] = full
    h_, data = history(w, r, r.randrange(0, 4), trusts=("trusted", "verified"), p_snap=0.8)
    new = mutate(r, data) if r.random() < 0.7 else image_data(r, r.choice([64, 700, 1000]))
    if not new:
        new = b"x"
    w.set_image(new)
    uuid = w.new_rev()
    parents = [x for x in h_ if not x["remote"] and x["snap"] and x["trust"] != "distrusted"]
    parent = parents[-1] if parents and not full else None
    exp = "export-diff" if parent else "export"
    f = FAULTS[c.index % len(FAULTS)] if c.index < 2 * len(FAULTS) else r.choice(FAULTS)
    chunkdir = str(w.path / "chunks")
    outcome = "ok"
    size = len(new)
    # what the exporting command emits
    if f == "export-rc":
        w.faultmap({exp: {"rc": r.choice([1, 5, 22, 255])}})
        outcome = "error"
    elif f == "export-cut":
        cut = r.randrange(size) if not parent else r.randrange(12, 40)
        w.faultmap({exp: {"cut": cut}})
        outcome = "error" if parent else "mismatch"
    elif f == "export-cut-rc":
        w.faultmap({exp: {"cut": r.randrange(size), "rc": 1}})
        outcome = "error"
    elif f == "export-swap":
        if parent:
            f = "none"
        else:
            pos = r.randrange(size)
            w.faultmap({exp: {"swap": pos}})
            outcome = "mismatch" if new[pos] != 0x55 else "ok"
    elif f in ("device", "device-short"):
        x = bytearray(new)
        if f == "device":
            x[r.randrange(size)] ^= 0x40
        else:
            x = x[: size - 1] if r.random() < 0.5 else x + b"\0"
        (w.state / "other").write_bytes(x)
        w.faultmap({"map": {"device": str(w.state / "other")}})
        outcome = "mismatch"
    elif f == "snap-create":
        w.faultmap({"snap create": {"fail_before": 1}})
        outcome = "error"
    elif f == "map":
        w.faultmap({"map": {"fail_before": 1}})
        outcome = "error"
    elif f == "unmap":
        w.faultmap({"unmap": {"fail_before": 1}})
        outcome = "error"
    elif f == "showmapped":
        w.faultmap({"showmapped": {"fail_before": 1}})
        outcome = "error"
    elif f == "device-missing":
        w.faultmap({"map": {"device": str(w.state / "nothing")}})
        outcome = "error"
    elif f == "image-info":
        w.faultmap({"info test/disk": {"fail_before": r.choice([1, 2])}})
        outcome = "error"
    elif f == "lost-chunk":
        w.faultmap({"map": {"run": f"rm -f {chunkdir}/*/*.chunk.lzo"}})
        outcome = "backend"
    elif f == "damaged-chunk":
        w.faultmap({"map": {"run": f"for f in {chunkdir}/*/*.chunk.lzo; do echo damaged > $f; done"}})
        outcome = "backend"
    elif f == "parent-chunk":
        used = w.hashes(parent["uuid"]) if parent else set()
        if not used:
            f = "none"
        else:
            for hh in used:
                os.unlink(w.chunks()[hh])
            outcome = "backend"
    elif f == "snap-ls":
        w.faultmap({"snap ls": {"fail_before": 1}})
        outcome = "error"
    elif f == "snap-rm":
        w.faultmap({"snap rm": {"fail_before": 1}})
    c.note("fault", f, "outcome", outcome, "parent", parent and parent["uuid"], "full", full, "size", size)
    before = disk(w.path)
    s = w.source()
    seq = []
    try:
        res = w.backup(uuid, s)
    except Exception as e:
        c.note("raised", repr(e))
        res = e
    d = disk(w.path)
    complete = good(w, uuid)
    if f == "parent-chunk" and res is True:
        # whole chunks have been overwritten only
        outcome = "ok"
    if outcome == "ok":
        expect(res is True, "backup without a (fatal) fault did not succeed: {}", repr(res))
        expect(complete, "successful backup is not recorded as complete")
        eq(w.content(uuid), new, "content of the backup")
        for u in before:
            if u != uuid:
                expect(u in d, "another revision vanished")
    elif outcome == "mismatch":
        expect(not isinstance(res, Exception), "failed comparison raised {}", repr(res))
        expect(not res, "failed comparison was reported as success")
        expect(uuid not in d, "revision with a failed comparison is kept")
        expect(len(list((w.path / "quarantine").glob("*.report"))) == 1, "no problem report about the mismatch")
        for u in before:
            if u != uuid:
                eq(d.get(u), before[u], "another revision after a failed comparison")
    elif outcome == "backend":
        expect(not isinstance(res, Exception), "backend failure raised {}", repr(res))
        expect(not res, "backend failure was reported as success")
        expect(uuid not in d, "revision with a backend failure is kept")
        local = [x for x in h_ if not x["remote"]]
        for i, x in enumerate(local):
            if x is local[-1]:
                # has been verified at once: kept as verified, or removed as damaged
                if x["uuid"] in d:
                    expect(d[x["uuid"]][5] in ("verified", "distrusted"), "newest revision is {}", d[x["uuid"]][5])
                    if d[x["uuid"]][5] == "verified":
                        eq(w.content(x["uuid"]), x["data"], "content of a verified revision")
                continue
            expect(x["uuid"] in d, "revision vanished")
            eq(d[x["uuid"]][5], "distrusted", "trust of a local revision after a backend failure")
        for x in h_:
            if x["remote"]:
                eq(d.get(x["uuid"]), before[x["uuid"]], "remote revision after a backend failure")
    else:
        expect(isinstance(res, Exception), "fault {} was not reported, result {}", f, repr(res))
        expect(not complete, "revision is recorded as complete in spite of an error ({})", f)
        for u in before:
            if u != uuid:
                eq(d.get(u), before[u], "another revision after an error")


@scenario("C05", 12, 200)
def interrupted_backup(c):
    """an error, an interrupt or the end of the process at some line of the backup: a revision recorded as complete is complete"""
    r = c.rng
    w = World(c)
    h_, data = history(w, r, r.randrange(0, 3), trusts=("trusted",), p_snap=0.9, p_remote=0)
    new = mutate(r, data) or b"y"
    w.set_image(new)
    uuid = w.new_rev()
    shutil.copytree(c.dir, c.dir + ".ref", symlinks=True)
    try:
        fn = lambda: w.backup(uuid)
        total = in_child(lambda: count_lines(fn))
        if total[0] != "ok":
            raise Violation(f"backup failed: {total}")
        for at in sorted(r.sample(range(1, total[1] + 1), 4)):
            shutil.rmtree(c.dir)
            shutil.copytree(c.dir + ".ref", c.dir, symlinks=True)
            how = r.choice(["crash", "crash", OSError(5, "I/O error"), KeyboardInterrupt(), RuntimeError("x")])
            c.note("at line", at, "of", total[1], how)
            if how == "crash":
                crash(fn, at)
                failed = True
            else:
                def child():
                    try:
                        return [interrupted(fn, at, how)]
                    except BaseException as e:
                        return repr(e)
                res = in_child(child)
                failed = res != ("ok", [True])
            if good(w, uuid):
                eq(w.content(uuid), new, "content of a revision recorded as complete")
            elif not failed:
                raise Violation("successful backup is not recorded as complete")
            for x in h_:
                expect(x["uuid"] in disk(w.path), "other revision vanished")
                eq(w.content(x["uuid"]), x["data"], "content of another revision")
    finally:
        shutil.rmtree(c.dir + ".ref", ignore_errors=True)


@scenario("C05", 6, 60)
def file_source(c):
    """the file source records completion only after copying"""
    import backy.file
    r = c.rng
    d = pathlib.Path(c.dir)
    (d / "repo").mkdir()
    src = d / "src"
    data = r.randbytes(r.randrange(1, 5000))
    src.write_bytes(data)
    rp = repo(d / "repo")
    s = backy.file.FileSource.from_config(rp, {"type": "file", "filename": str(src)}, Log())
    v = Revision.create(rp, {"daily"}, Log())
    v.materialize()
    if r.random() < 0.4:
        src.unlink()
        with raises(Exception, "backup of a missing file"):
            s.backup(v)
        expect("duration" not in disk(d / "repo")[v.uuid][2], "failed backup is recorded as complete")
    else:
        expect(s.backup(v) is True, "backup failed")
        expect("duration" in disk(d / "repo")[v.uuid][2], "not recorded as complete")
        eq((d / "repo" / v.uuid).read_bytes(), data, "content")


# --------------------------------------------------------------------- C09
@scenario("C09", 30, 500)
def forced_backup(c):
    """with a distrusted complete local revision every chunk is written anew and the base is not distrusted"""
    r = c.rng
    w = World(c)
    h_, data = history(w, r, r.randrange(1, 4), p_remote=0.25)
    if r.random() < 0.3:
        # incomplete ones do not count
        w.add_rev(data, ts(5000), snap=False, trust="distrusted", duration=None, server=r.choice(["", "peer"]))
    new = mutate(r, data) if r.random() < 0.6 else data
    new = new or b"z"
    w.set_image(new)
    uuid = w.new_rev()
    dis = any(x["trust"] == "distrusted" and not x["remote"] for x in h_)
    stamp = {}
    for hh, p in w.chunks().items():
        os.utime(p, ns=(1, 1))
        st = os.stat(p)
        stamp[hh] = (st.st_ino, st.st_mtime_ns)
    for x in h_:
        c.note({k: v for k, v in x.items() if k != "data"})
    # the source is created before ...
    s = w.source()
    w.clear_calls()
    eq(bool(s.repository.contains_distrusted), dis, "contains_distrusted")
    # the verification at the end is not of interest here
    c.p.set(RBDSource, "verify", lambda *a, **k: None)
    res = w.backup(uuid, s)
    expect(res is True, "backup failed")
    eq(w.content(uuid), new, "content of the backup")
    diffs = [x for x in w.calls() if x[0] == "export-diff"]
    base = diffs[0][diffs[0].index("--from-snap") + 1][len("backy-") :] if diffs else None
    for x in h_:
        if x["uuid"] == base:
            expect(x["trust"] != "distrusted", "backup is based on a distrusted revision")
    now = w.chunks()
    inherited = w.hashes(base) if base else set()
    for hh in w.hashes(uuid):
        st = os.stat(now[hh])
        fresh = hh not in stamp or (st.st_ino, st.st_mtime_ns) != stamp[hh]
        if dis:
            expect(fresh or hh in inherited, "chunk {} was not written anew", hh)
        elif hh in stamp:
            expect(not fresh, "existing chunk {} was written again", hh)


@scenario("C09", 80, 1500)
def forcing(c):
    """opening for writing forces rewriting exactly if a complete local revision is distrusted"""
    r = c.rng
    w = World(c)
    n = r.randrange(0, 5)
    want = False
    for i in range(n):
        tr = r.choice(["trusted", "trusted", "distrusted", "verified"])
        comp = r.random() < 0.6
        srv = r.choice(["", "", "peer"])
        w.add_rev(b"abc", ts(i), snap=False, image=True, trust=tr, duration=3.0 if comp else None, server=srv)
        want = want or (tr == "distrusted" and comp and not srv)
        c.note(tr, comp, srv)
    s = w.source()
    u = w.new_rev()
    s = w.source()
    v = s.repository.find_by_uuid(u)
    mode = r.choice(["wb", "w", "rw", "r+b", "r+"])
    f = s.open(v, "wb")
    eq(s.store.force_writes, want, "forced writing")
    f.write(b"abc")
    f.close()
    s2 = w.source()
    v = s2.repository.find_by_uuid(u)
    g = s2.open(v)
    expect(s2.store.force_writes is False, "forced writing is on for reading")
    g.close()
    g = s2.open(v, mode)
    eq(s2.store.force_writes, want, f"forced writing (mode {mode})")


@scenario("C09", 80, 1500)
def distrusting(c):
    """distrusting marks exactly the selected revisions, on disk, and is refused for remote ones"""
    r = c.rng
    d = pathlib.Path(c.dir)
    rp = repo(d)
    us = []
    for i in range(r.randrange(1, 6)):
        v = rev(rp, ("daily",), ts=ts(i), duration=1.0 if r.random() < 0.8 else None, server=r.choice(["", "", "peer"]) if c.index % 3 else "", trust=r.choice(["trusted", "distrusted", "verified"]))
        us.append(v.uuid)
    rp = repo(d)
    before = disk(d)
    sel = [u for u in us if r.random() < 0.5]
    revs = [rp.find_by_uuid(u) for u in sel]
    via_cli = r.random() < 0.4
    remote = any(before[u][6] for u in sel)
    spec = ",".join(sel)
    try:
        if via_cli and sel:
            from backy.cli import Command
            cmd = Command(d, d / "nope", False, None, Log())
            cmd.distrust(rp, spec)
        else:
            rp.distrust(revs)
        ok = True
    except Exception as e:
        ok = False
        if not remote:
            raise Violation(f"distrusting local revisions failed: {e!r}")
    expect(not (ok and remote), "distrusting a remote revision was not refused")
    after = disk(d)
    eq(set(after), set(before), "revisions")
    for u in us:
        b, a = before[u], after[u]
        if u in sel and ok:
            eq(a, b[:5] + ("distrusted",) + b[6:], "selected revision on disk")
            eq(rp.find_by_uuid(u).trust.value, "distrusted", "selected revision in memory")
        elif b[6] or u not in sel:
            eq(a, b, "revision on disk")
            if not (u in sel):
                eq(rp.find_by_uuid(u).trust.value, b[5], "revision in memory")


# --------------------------------------------------------------------- C10
@scenario("C10", 45, 800)
def base_selection(c):
    """the backup is based on the newest usable revision, with the difference of exactly these snapshots"""
    r = c.rng
    w = World(c)
    always = r.random() < 0.15
    w.conf["full-always"] = always
    h_, data = history(w, r, r.randrange(0, 6), p_snap=r.choice([0.3, 0.6, 1.0]))
    for x in h_:
        c.note({k: v for k, v in x.items() if k != "data"})
    now = None
    later = None
    if r.random() < 0.2:
        # a revision from the future
        later = w.add_rev(data, ts(10**9), snap=True, trust="trusted")
    if r.random() < 0.2:
        w.add_snap("other", b"")
        w.add_snap("backy-", b"")
    new = mutate(r, data) or b"n"
    w.set_image(new)
    cand = [x for x in h_ if not x["remote"] and x["trust"] != "distrusted" and x["snap"]]
    want = cand[-1]["uuid"] if cand and not always else None
    uuid = w.new_rev()
    c.p.set(RBDSource, "verify", lambda *a, **k: None)
    w.clear_calls()
    res = w.backup(uuid)
    expect(res is True, "backup failed: {}", repr(res))
    diffs = [x for x in w.calls() if x[0] == "export-diff"]
    fulls = [x for x in w.calls() if x[0] == "export"]
    if want:
        expect(len(diffs) == 1 and not fulls, "expected a difference from {}: {}", want, diffs + fulls)
        eq(diffs[0][diffs[0].index("--from-snap") + 1], "backy-" + want, "base of the difference")
        expect(f"test/disk@backy-{uuid}" in diffs[0], "difference to another snapshot: {}", diffs[0])
    else:
        expect(len(fulls) == 1 and not diffs, "expected a full export: {}", diffs + fulls)
        expect(f"test/disk@backy-{uuid}" in fulls[0], "export of another snapshot: {}", fulls[0])
    eq(w.content(uuid), new, "content of the backup")
    for x in h_:
        eq(w.content(x["uuid"]), x["data"], "content of an older revision")


@scenario("C10", 120, 3000)
def parent_choice(c):
    """CephRBD.get_parent for random histories"""
    r = c.rng
    d = pathlib.Path(c.dir)
    rp = repo(d)
    n = r.randrange(0, 8)
    xs = []
    for i in range(n):
        v = rev(rp, ("daily",), ts=ts(10 * i), duration=1.0, server=r.choice(["", "", "", "peer"]), trust=r.choice(["trusted", "verified", "distrusted"]))
        xs.append(dict(uuid=v.uuid, remote=bool(v.server), trust=v.trust.value, snap=r.random() < 0.5))
    pos = r.choice([n, n, r.randrange(n + 1)])
    me = rev(rp, ("daily",), ts=ts(10 * pos - 5), trust="trusted")
    rp = repo(d)
    ceph = CephRBD("test", "disk", Log(), always_full=r.random() < 0.15)
    have = {f"test/disk@backy-{x['uuid']}" for x in xs if x["snap"]}
    asked = []

    def exists(spec):
        asked.append(spec)
        return {"name": "x"} if spec in have else False

    c.p.set(ceph.rbd, "exists", exists)
    ceph(rp.find_by_uuid(me.uuid))
    got = ceph.get_parent()
    cand = [x for x in xs[:pos] if not x["remote"] and x["trust"] != "distrusted" and x["snap"]]
    want = cand[-1]["uuid"] if cand and not ceph.always_full else None
    c.note(xs, "position", pos, "full", ceph.always_full)
    eq(got.uuid if got else None, want, "base revision")


@scenario("C09", 60, 2000)
def trusted_base(c):
    """a distrusted revision is never the base, wherever snapshots exist"""
    r = c.rng
    rp = repo(pathlib.Path(c.dir))
    have = set()
    for i in range(r.randrange(1, 9)):
        v = rev(rp, ("daily",), ts=ts(10 * i), duration=1.0, server=r.choice(["", "", "", "peer"]), trust=r.choice(["trusted", "verified", "distrusted"]))
        if r.random() < 0.5:
            have.add(f"test/disk@backy-{v.uuid}")
        c.note(v.uuid, v.server, v.trust.value, f"test/disk@backy-{v.uuid}" in have)
    me = rev(rp, ("daily",), ts=ts(1000))
    rp = repo(pathlib.Path(c.dir))
    ceph = CephRBD("test", "disk", Log(), always_full=False)
    c.p.set(ceph.rbd, "exists", lambda spec: {"name": "x"} if spec in have else False)
    ceph(rp.find_by_uuid(me.uuid))
    got = ceph.get_parent()
    if got:
        fresh = repo(pathlib.Path(c.dir)).find_by_uuid(got.uuid)
        expect(fresh.trust.value != "distrusted", "the distrusted revision {} is the base of the backup", got.uuid)
        c.nontrivial = True
