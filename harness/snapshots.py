"""C11: housekeeping of snapshots and snapshot requests."""
from rbdfake import *
import consulate
import backy.rbd
import backy.utils


class Boom(Exception):
    pass


FOREIGN = ["other", "xbacky-1", "Backy-2", "backy", "manual-backy-3", "backup-1", "fc-qemu"]


@scenario("C11", 60, 900)
def housekeeping(c):
    """random snapshots and revisions, failing removals, failing backups"""
    r = c.rng
    w = World(c)
    full = r.random() < 0.3
    w.conf["full-always"] = full
    w.set_image(b"x" * 100)
    local, allr = [], []
    for i in range(r.randrange(0, 5)):
        srv = r.choice(["", "", "peer"])
        u = w.add_rev(b"abc", ts(10 * i + 1), snap=r.random() < 0.7, image=True, server=srv, duration=r.choice([1.0, 1.0, None]), trust=r.choice(["trusted", "distrusted", "verified"]))
        allr.append((ts(10 * i + 1), u, srv))
    for x in r.sample(FOREIGN, r.randrange(0, 4)):
        w.add_snap(x, b"")
    for i in range(r.randrange(0, 3)):
        w.add_snap(f"backy-stray{i}", b"")
    t = ts(r.choice([1000, 1000, 15, 0]))
    uuid = w.new_rev(t)
    allr.append((t, uuid, ""))
    before = w.snaps()
    if r.random() < 0.2:
        w.add_snap("backy-" + uuid + "x", b"")
        before = w.snaps()
    newest = [u for _, u, s in sorted(allr) if not s][-1]
    keep = None if full else "backy-" + newest
    after_create = before + ["backy-" + uuid]
    removable = [s for s in after_create if s.startswith("backy-") and s != keep]
    failing = [s for s in removable if r.random() < 0.3]
    w.faultmap({f"snap rm test/disk@{s}": {"fail_before": r.choice([1, 2, 16, 39])} for s in failing})
    s = w.source()
    ceph = s.ceph_rbd
    v = s.repository.find_by_uuid(uuid)
    w.clear_calls()
    err = r.choice([None, None, Boom("x"), KeyboardInterrupt(), backy.rbd.BackendException("x")])
    c.note("before", before, "revision", uuid, "newest local", newest, "full", full, "failing", failing, "error", err)
    try:
        with ceph(v) as src:
            expect("backy-" + uuid in w.snaps(), "no snapshot was created")
            if err:
                raise err
        expect(err is None, "the error was swallowed")
    except (Boom, KeyboardInterrupt, backy.rbd.BackendException) as e:
        expect(e is err, "another error: {}", repr(e))
    eq(w.snaps(), [x for x in after_create if x not in removable or x in failing], "snapshots afterwards")
    tried = [x[2] for x in w.calls() if x[:2] == ["snap", "rm"]]
    eq(sorted(tried), sorted(f"test/disk@{x}" for x in removable), "removals tried")


@scenario("C11", 20, 250)
def whole_backup(c):
    """complete backups, successful or not"""
    r = c.rng
    w = World(c)
    full = r.random() < 0.3
    w.conf["full-always"] = full
    w.set_image(b"x" * r.choice([100, 640]))
    for i in range(r.randrange(0, 3)):
        w.add_rev(b"abc" * 50, ts(10 * i + 1), server=r.choice(["", "", "peer"]), duration=1.0)
    for x in r.sample(FOREIGN, r.randrange(0, 3)):
        w.add_snap(x, b"")
    w.add_snap("backy-stray", b"")
    uuid = w.new_rev()
    after_create = w.snaps() + ["backy-" + uuid]
    keep = None if full else "backy-" + uuid
    f = r.choice([{}, {}, {"export": {"rc": 1}}, {"export-diff": {"rc": 1}}, {"map": {"fail_before": 1}}, {"export": {"cut": 3}}])
    failing = ["backy-stray"] if r.random() < 0.5 else []
    w.faultmap(dict(f, **{f"snap rm test/disk@{s}": {"fail_before": 1} for s in failing}))
    c.note("faults", f, failing, "full", full)
    try:
        ok = w.backup(uuid)
    except Exception as e:
        ok = repr(e)
        expect(f, "backup failed because of a failing removal: {}", ok)
    if not f:
        expect(ok is True, "backup was not successful because of a failing removal")
    eq(w.snaps(), [s for s in after_create if not s.startswith("backy-") or s == keep or s in failing], "snapshots afterwards")


class KV(dict):
    def __init__(self, world):
        super().__init__()
        self.world, self.deleted, self.on_set, self.vanish = world, [], None, set()

    def find(self, prefix):
        return {k: v for k, v in self.items() if k.startswith(prefix)}

    def __setitem__(self, k, v):
        super().__setitem__(k, json.dumps(v) if isinstance(v, dict) else v)
        if self.on_set:
            self.on_set(k, v)

    def __getitem__(self, k):
        if k in self.vanish:
            raise KeyError(k)
        return super().__getitem__(k)

    def __delitem__(self, k):
        self.deleted.append(k)
        super().__delitem__(k)


@scenario("C11", 80, 2000)
def requests(c):
    """snapshot requests through Consul: foreign requests stay, own ones go, also after timeouts and errors"""
    r = c.rng
    w = World(c)
    w.set_image(b"x" * 100)
    vm = "vm1"
    ceph = CephRBD("test", "disk", Log(), vm=vm, consul_acl_token="token")
    now = [1000.0]
    c.p.set(time, "time", lambda: now[0])
    c.p.set(time, "sleep", lambda s: now.__setitem__(0, now[0] + s))
    kv = KV(w)
    stay, go = {}, {}
    keys = [f"snapshot/{i}" for i in range(r.randrange(0, 7))]
    for k in keys:
        kind = r.choice(["other-vm", "own-foreign", "own-backy", "garbage", "vanish", "other-vm-manual", "own-prefix"])
        val = {
            "other-vm": {"vm": "vm2", "snapshot": "backy-x"},
            "other-vm-manual": {"vm": "vm10", "snapshot": "manual"},
            "own-foreign": {"vm": vm, "snapshot": r.choice(["manual", "backy", "xbacky-1"])},
            "own-backy": {"vm": vm, "snapshot": "backy-old"},
            "own-prefix": {"vm": "vm", "snapshot": "backy-old"},
            "garbage": r.choice(["", "{", "not json"]),
            "vanish": {"vm": vm, "snapshot": "backy-old"},
        }[kind]
        kv[k] = val
        if kind == "vanish":
            kv.vanish.add(k)
        elif kind in ("own-backy", "garbage"):
            go[k] = val
        else:
            stay[k] = val
    other = {"other/x": {"vm": vm, "snapshot": "backy-old"}}
    for k, v in other.items():
        kv[k] = v
    v = Revision(w.repo(), Log())
    name = "backy-" + v.uuid
    delay = r.choice([0, 1, 3, None, None])  # number of polls until the snapshot is there
    polls = [0]
    real_ls = ceph.rbd.snap_ls
    err = r.choice([None, None, None, "ls", "interrupt"])

    asked = []
    kv.on_set = lambda k, v: asked.append((k, v))

    def ls(image):
        polls[0] += 1
        if err == "ls" and polls[0] == 2:
            raise subprocess_error()
        if err == "interrupt" and polls[0] == 2:
            raise KeyboardInterrupt()
        if delay is not None and polls[0] > delay and name not in w.snaps():
            w.add_snap(name, w.image)
        return real_ls(image)

    def subprocess_error():
        import subprocess

        return subprocess.CalledProcessError(1, ["rbd"])

    c.p.set(ceph.rbd, "snap_ls", ls)

    class Consul:
        def __init__(self, *a, token=None, **kw):
            self.kv = kv

    c.p.set(consulate, "Consul", Consul)
    if r.random() < 0.2:
        w.add_snap("other", b"")
    t0 = now[0]
    c.note("requests", dict(kv), "appears after polls", delay, "error", err)
    ceph(v)
    failed = None
    try:
        ceph.create_snapshot(name)
    except (Exception, KeyboardInterrupt) as e:
        failed = e
    c.note("result", repr(failed), "deleted", kv.deleted, "polls", polls[0])
    if err and (delay is None or delay >= 2 or (delay == 1 and False)):
        expect(failed is not None, "the error was swallowed")
    elif not err or delay == 0 or polls[0] < 2:
        if failed:
            raise failed
        expect(name in w.snaps(), "there is no snapshot")
        expect(now[0] - t0 <= 200, f"waited {now[0] - t0} seconds")
    eq(len(asked), 1, "snapshot requests made")
    eq(asked[0][1], {"vm": vm, "snapshot": name}, "snapshot request")
    left = {k: dict.__getitem__(kv, k) for k in kv}
    want = {k: json.dumps(x) for k, x in dict(stay, **other, **{k: {"vm": vm, "snapshot": "backy-old"} for k in kv.vanish}).items()}
    eq(left, want, "requests afterwards")


@scenario("C11", 10, 60)
def direct(c):
    """without Consul the snapshot is created directly"""
    w = World(c)
    w.set_image(b"x" * 100)
    tok, vm = [(None, "vm"), ("t", None), (None, None), ("", "vm"), ("t", "")][c.index % 5]

    def no(*a, **kw):
        raise Violation("Consul is used")

    c.p.set(consulate, "Consul", no)
    ceph = CephRBD.from_config(dict(w.conf, vm=vm, consul_acl_token=tok), Log())
    ceph.create_snapshot("backy-x")
    eq(w.snaps(), ["backy-x"], "snapshots")
    if c.index >= 5:
        w.faultmap({"snap create": {"fail_before": 5}})
        with raises(Exception, "failing creation"):
            ceph.create_snapshot("backy-y")
