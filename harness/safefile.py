"""C16: metadata round trip and atomic replacement of files."""
import asyncio
import os
import pathlib

import yaml

from h import *
from backy.report import ChunkMismatchReport
from backy.revision import Revision, Trust
from backy.utils import SafeFile

WORDS = ["daily", "manual:x", "ä€ü", "a b", "yes", "null", "123", "1.5", "#no", "- x", "'q'", '"', "a: b", "~", "", "2024-01-01", "\U0001f4be", "a\nb", "{x}", "[", "tag,", "true", "0x10", "!!str", "&a", "*a", "%", "@", "|", "\t", " lead", "trail "]


def word(r):
    return r.choice(WORDS) if r.random() < 0.7 else "".join(r.choice("abc:é,# \"'-") for _ in range(r.randrange(0, 12)))


def stamp(r):
    return datetime.datetime(r.choice([1, 1970, 2024, 2038, 9999]), r.randrange(1, 13), r.randrange(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1, 999999, 120000, r.randrange(10**6)]), tzinfo=UTC)


def stats(r):
    s = {"bytes_written": r.choice([0, 1, 2**40, 12345])}
    if r.random() < 0.7:
        s["duration"] = r.choice([0, 0.0, 1, 3.25, 1e-7, 1e20, r.random() * 1000])
    if r.random() < 0.3:
        s["ceph-verification"] = r.choice(["partial", "", "full"])
    if r.random() < 0.3:
        s["chunk_stats"] = {"write_full": 3, "write_partial": 0}
    return s


@scenario("C16", 120, 4000)
def roundtrip(c):
    """random metadata is written and read back, by the file, the history and the API's dictionary"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    if r.random() < 0.4:
        rev(rp, {"daily"}, ts=ts(0), duration=1.0)
        rp.scan()
    kw = {"uuid": r.choice([None, "abc", "u-1", "x.y", "0", "1e5", "null", "a.rev"])}
    v = Revision(rp, Log(), uuid=kw["uuid"], timestamp=stamp(r))
    v.stats = stats(r)
    v.tags = {word(r) for _ in range(r.randrange(0, 5))}
    v.orig_tags = {word(r) for _ in range(r.randrange(0, 3))}
    v.trust = r.choice(list(Trust))
    v.server = r.choice(["", "peer", word(r)])
    want = meta(v)
    c.note("revision", want)
    d = v.to_dict()
    x = Revision.from_dict(d, rp, Log())
    eq(meta(x), want, "from_dict(to_dict())")
    api = dict(d, timestamp=d["timestamp"].isoformat())
    eq(meta(Revision.from_dict(api, rp, Log())), want, "from_dict with a textual timestamp")
    v.materialize()
    eq(v.info_filename, path.resolve() / (v.uuid + ".rev"), "name of the metadata file")
    eq(meta(v), want, "the revision after writing")
    eq(meta(Revision.load(v.info_filename, rp, Log())), want, "load after write_info")
    for _ in range(r.randrange(0, 3)):
        v.tags = {word(r) for _ in range(r.randrange(0, 3))}
        v.trust = r.choice(list(Trust))
        v.stats = stats(r)
        v.write_info()
    want = meta(v)
    rp2 = repo(path)
    y = rp2.find_by_uuid(v.uuid)
    eq(meta(y), want, "scan after write_info")
    y.write_info()
    eq(meta(repo(path).find_by_uuid(v.uuid)), want, "written, read, written and read")
    eq(disk(path)[v.uuid], want, "independent reading of the file")
    eq(sorted(n for n in os.listdir(path) if n.endswith(".rev")), sorted(x.uuid + ".rev" for x in rp2.history), "metadata files")


@scenario("C16", 6, 20)
def defaults(c):
    """metadata of older versions"""
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    f = path / "old.rev"
    f.write_text("uuid: old\ntimestamp: 2015-08-30 01:25:00+00:00\nparent: ''\n" + ("stats: {}\n" if c.index % 2 else "") + ("tags: [daily]\n" if c.index % 3 else ""))
    if c.index == 5:
        os.symlink("old.rev", path / "last.rev")
    rp = repo(path)
    eq([meta(x) for x in rp.history], [("old", datetime.datetime(2015, 8, 30, 1, 25, tzinfo=UTC), {}, frozenset({"daily"} if c.index % 3 else ()), frozenset(), "trusted", "")], "old metadata")


# --------------------------------------------------------------- SafeFile
class Boom(Exception):
    pass


class Fault:
    """makes the n-th operation on a file fail or end the process"""

    OPS = ["fsync", "rename", "chmod", "write", "flush", "close"]

    def __init__(self, case, n, crash):
        self.n, self.crash, self.k = n, crash, 0
        import tempfile

        outer = self

        def wrap(name, real):
            def f(*a, **kw):
                outer.tick(name)
                return real(*a, **kw)

            return f

        for name in ("fsync", "rename", "chmod", "unlink", "replace"):
            case.p.set(os, name, wrap(name, getattr(os, name)))
        case.p.set(tempfile, "NamedTemporaryFile", wrap("mkstemp", tempfile.NamedTemporaryFile))

    def tick(self, name):
        if self.k == self.n:
            self.k += 1
            if self.crash:
                os._exit(77)
            raise Boom(name)
        self.k += 1


def writers(c, path):
    """the three users of SafeFile: revision metadata, reports and the configuration"""
    r = c.rng
    path.mkdir(exist_ok=True)
    rp = repo(path)
    kind = r.choice(["rev", "rev", "report", "config", "config", "plain"])
    if kind == "rev":
        v = rev(rp, {"daily", "old"}, ts=ts(5), duration=1.0, uuid="therev")
        target = path / "therev.rev"
        v.tags = {"new", "manual:" + "x" * r.choice([1, 20000])}
        v.stats["duration"] = 7.5

        def act():
            v.write_info()

    elif kind == "report":
        rep = ChunkMismatchReport(b"a" * 5000, b"b" * 5000, 4096)
        target = path / "quarantine" / (rep.uuid + ".report")

        def act():
            rep.store(path / "quarantine", Log())

    elif kind == "config":
        from backy.source import CmdLineSource

        s = CmdLineSource(rp, {"type": "file", "filename": "x" * 3000}, Log())
        target = path / "config"
        if r.random() < 0.8:
            target.write_text("path: old\nsource: {}\n")

        def act():
            s.store()

    else:
        target = path / "plain"
        if r.random() < 0.7:
            target.write_bytes(b"old" * 1000)
        parts = [b"n" * r.choice([0, 1, 9000]) for _ in range(r.randrange(0, 4))]
        mode = r.choice(["wb", "wb", "copy"])
        wp = r.random() < 0.3

        def act():
            with SafeFile(str(target)) as f:
                if wp:
                    f.use_write_protection()
                if mode == "copy":
                    f.open_copy("ab")
                else:
                    f.open_new("wb")
                for x in parts:
                    f.write(x)

    return kind, target, act


def read(p):
    try:
        return p.read_bytes()
    except FileNotFoundError:
        return None


@scenario("C16", 60, 2000)
def atomic(c):
    """the process ends, or an operation fails, at any line or file operation: old or new content, never anything else"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    seed = r.random()
    import random

    def build(p):
        c.rng = random.Random(seed)
        return writers(c, p)

    kind, target, act = build(path)
    old = read(target)
    names0 = set(tree(path))
    # undisturbed
    lines_ = [0]

    def counted():
        lines_[0] = count_lines(act)

    counted()
    new = read(target)
    total = lines_[0]
    expect(new is not None, "nothing was written")
    if kind == "rev":
        eq(disk(path)["therev"][3], frozenset(t for t in disk(path)["therev"][3] if t == "new" or t.startswith("manual:")), "tags written")
    if kind != "report":
        eq(set(tree(path)) - names0 - {target.name}, set(), "files left over")
    names1 = set(tree(path))

    def same(a, b):
        # sets are written in arbitrary order, reports carry a traceback
        if a == b:
            return True
        if a is None or b is None or kind not in ("rev", "report"):
            return False
        try:
            x, y = yaml.safe_load(a), yaml.safe_load(b)
            if kind == "report":
                return set(x) == set(y)
            return {k: sorted(v) if k in ("tags", "orig_tags") else v for k, v in x.items()} == {k: sorted(v) if k in ("tags", "orig_tags") else v for k, v in y.items()}
        except Exception:
            return False

    rr = random.Random(seed)
    for _ in range(8 if c.tier == "quick" else 30):
        how = rr.choice(["crash", "error", "opcrash", "operror"])
        p2 = pathlib.Path(c.dir) / f"r{_}"
        kind, t2, act2 = build(p2)
        o2 = read(t2)
        before = set(tree(p2))
        at = rr.randrange(1, total + 1)
        n = rr.randrange(0, 6)
        if how == "crash":
            rc = crash(act2, at)
        elif how == "opcrash":
            def child():
                Fault(c, n, True)
                act2()

            rc = in_child(child)
        elif how == "error":
            try:
                interrupted(act2, at, Boom("line"))
            except Boom:
                pass
        else:
            f = Fault(c, n, False)
            try:
                act2()
            except Boom:
                pass
            finally:
                c.p.close()
        got = read(t2)
        c.note(kind, how, "line", at, "of", total, "operation", n, "->", "old" if got == o2 else "other")
        norm = lambda x: None if x is None else x.replace(str(p2).encode(), str(path).encode())
        if not (got == o2 or same(norm(got), new) or (kind == "report" and got is not None and same(got, new))):
            raise Violation(f"{kind}: after {how} (line {at}, operation {n}) the target holds neither the old nor the new content: {short(got)}")
    # an error in the body of the with statement
    for wp in (False, True):
        for pos in (0, 1, 2):
            p3 = pathlib.Path(c.dir) / f"e{wp}{pos}"
            p3.mkdir()
            kind = rr.choice([Boom, Boom, KeyboardInterrupt, asyncio.CancelledError, SystemExit, GeneratorExit, OSError])
            t = p3 / "t"
            if rr.random() < 0.7:
                t.write_bytes(b"old")
            o = read(t)
            try:
                with SafeFile(str(t), encoding="utf-8") as f:
                    if wp:
                        f.use_write_protection()
                    f.open_new("wb")
                    for i in range(3):
                        if i == pos:
                            raise kind("body")
                        f.write("x" * 10000)
                raise Violation("the error was swallowed")
            except kind:
                pass
            eq(read(t), o, "target after an error while writing")
            eq(os.listdir(p3), ["t"] if o is not None else [], "files after an error while writing")


@scenario("C16", 20, 200)
def failing_dump(c):
    """content which can not be written: old content and no temporary files"""
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path)
    v = rev(rp, {"daily"}, ts=ts(5), duration=1.0)
    before = tree(path)
    v.stats["x"] = object()
    with raises(yaml.YAMLError, "metadata which can not be represented"):
        v.write_info()
    eq(tree(path), before, "repository after a failing write_info")
    from backy.source import CmdLineSource

    s = CmdLineSource(rp, {"type": "file", "filename": "x"}, Log())
    s.store()
    before = tree(path)
    s.source_conf = {"type": object()}
    with raises(yaml.YAMLError, "configuration which can not be represented"):
        s.store()
    eq(tree(path), before, "repository after a failing store")
    s.source_conf = {"type": "file", "filename": "y"}
    s.store()
    eq(yaml.safe_load((path / "config").read_text()), s.to_config(), "stored configuration")
    eq(set(tree(path)), set(before), "files in the repository")
