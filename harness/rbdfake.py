"""An RBD source over a stand-in for the rbd command."""
import json
import os
import pathlib
import shutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ["BACKY_RBD"] = os.path.join(HERE, "fakerbd")

from h import *
from backy.rbd import CephRBD, RBDSource
from backy.rbd.chunked import Chunk, File, Store
from backy.revision import Revision, Trust
from chunked import chunk_files, fingerprint, true_content

CONF = {"type": "rbd", "pool": "test", "image": "disk"}


class World:
    def __init__(self, c, cs=64, conf=None):
        self.c, self.r = c, c.rng
        d = pathlib.Path(c.dir)
        self.state = d / "rbd"
        self.state.mkdir()
        c.p.env("FAKE_RBD", str(self.state))
        self.path = d / "repo"
        self.path.mkdir()
        if cs:
            c.p.set(Chunk, "CHUNK_SIZE", cs)
        self.cs = Chunk.CHUNK_SIZE
        self.sleeps = []
        c.p.set(time, "sleep", lambda s: self.sleeps.append(s))
        c.p.set(os, "sync", lambda: None)
        self.conf = dict(CONF, **(conf or {}))
        self.image = b""

    # the source side
    def set_image(self, data):
        self.image = data
        (self.state / "image").write_bytes(data)

    def snaps(self):
        try:
            return json.load(open(self.state / "snaps.json"))
        except FileNotFoundError:
            return []

    def add_snap(self, name, data):
        s = self.snaps()
        s.append(name)
        json.dump(s, open(self.state / "snaps.json", "w"))
        (self.state / f"snap-{name}").write_bytes(data)

    def del_snap(self, name):
        json.dump([x for x in self.snaps() if x != name], open(self.state / "snaps.json", "w"))

    def faults(self, **kw):
        json.dump({k.replace("_", "-") if k.startswith("export") else k.replace("_", " "): v for k, v in kw.items()}, open(self.state / "faults.json", "w"))

    def faultmap(self, m):
        json.dump(m, open(self.state / "faults.json", "w"))

    def calls(self):
        try:
            return [json.loads(x) for x in open(self.state / "log")]
        except FileNotFoundError:
            return []

    def clear_calls(self):
        (self.state / "log").unlink(missing_ok=True)

    # the repository side
    def repo(self):
        return repo(self.path)

    def source(self, r=None):
        return RBDSource.from_config(r or self.repo(), self.conf, Log())

    def add_rev(self, data, ts, snap=True, image=True, **kw):
        r = repo(self.path)
        kw.setdefault("duration", 5.0)
        v = rev(r, kw.pop("tags", ("daily",)), ts=ts, **kw)
        if image and data is not None:
            st = Store(self.path / "chunks", Log())
            with File(self.path / v.uuid, st, "w") as f:
                f.write(data)
        if snap:
            self.add_snap("backy-" + v.uuid, data)
        return v.uuid

    def content(self, uuid):
        with File(self.path / uuid, Store(self.path / "chunks", Log()), "r") as f:
            return f.read()

    def hashes(self, uuid):
        m = json.load(open(self.path / uuid))
        return set(m["mapping"].values())

    def chunks(self):
        return chunk_files(self.path / "chunks")

    def new_rev(self, ts=None):
        r = repo(self.path)
        v = Revision.create(r, {"daily"}, Log())
        if ts:
            v.timestamp = ts
        v.materialize()
        return v.uuid

    def backup(self, uuid, source=None):
        s = source or self.source()
        return s.backup(s.repository.find_by_uuid(uuid))


def image_data(r, n=None):
    n = n if n is not None else r.choice([0, 1, 64, 640, 700, 1000, 2000])
    out = b""
    while len(out) < n:
        out += r.choice([b"\0" * 64, bytes([r.randrange(256)]) * 64, r.randbytes(64), r.randbytes(13)])
    return out[:n]


def mutate(r, d):
    x = bytearray(d)
    for _ in range(r.randrange(1, 6)):
        if x:
            i = r.randrange(len(x))
            l = r.choice([1, 10, 64, 200])
            x[i : i + l] = r.choice([b"\0" * len(x[i : i + l]), r.randbytes(len(x[i : i + l]))])
    if r.random() < 0.3:
        x = x[: r.randrange(len(x) + 1)]
    elif r.random() < 0.3:
        x += r.randbytes(r.randrange(1, 300))
    return bytes(x)
