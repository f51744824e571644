"""Common parts of the replay harnesses: they run the real code of /repo in
scratch directories and compare it with small reference models.

A case is one call of a scenario function with its own seeded random source;
(property, scenario, seed, index) identifies it and replays it.
"""
import atexit
import contextlib
import datetime
import json
import os
import re
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import uuid

REPO = os.environ.get("BACKY_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
UTC = datetime.timezone.utc
real_sleep = time.sleep
real_time = time.time

_root = None


def root():
    global _root
    if _root is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        try:
            _root = tempfile.mkdtemp(prefix="backyv-", dir=base)
        except OSError:
            _root = tempfile.mkdtemp(prefix="backyv-")
        _root = os.path.realpath(_root)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_root, ignore_errors=True))
    return _root


def scratch():
    return tempfile.mkdtemp(dir=root())


class Violation(Exception):
    """the property does not hold in this case"""


class Timeout(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[: n - 20] + f"...({len(r)} chars)"


@contextlib.contextmanager
def raises(exc, what):
    try:
        yield
    except exc:
        return
    raise Violation(f"{what}: no error was raised")


class Log:
    """silent logger"""

    def __init__(self, ctx=None):
        self._context = ctx or {}

    def bind(self, **kw):
        return Log(self._context | kw)

    def unbind(self, *a):
        return self

    def _n(self, *a, **kw):
        pass

    debug = info = warning = warn = error = critical = exception = msg = log = _n


class Patch:
    """attribute replacements which are undone at the end of the case"""

    def __init__(self):
        self.undo = []

    def set(self, obj, name, val):
        old = obj.__dict__.get(name, self) if hasattr(obj, "__dict__") else getattr(obj, name, self)
        self.undo.append((obj, name, old))
        setattr(obj, name, val)

    def env(self, name, val):
        old = os.environ.get(name)
        self.undo.append((None, name, old))
        os.environ[name] = val

    def close(self):
        for obj, name, old in reversed(self.undo):
            if obj is None:
                if old is None:
                    os.environ.pop(name, None)
                else:
                    os.environ[name] = old
            elif old is self:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.undo = []


class Case:
    def __init__(self, prop, scenario, seed, index, tier):
        self.rng = random.Random(f"{seed}:{prop}:{scenario}:{index}")
        self.p = Patch()
        self.tier = tier
        self.index = index
        self.trace = []
        self.log = Log()
        self._dir = None
        self.nontrivial = True

    @property
    def dir(self):
        if self._dir is None:
            self._dir = scratch()
        return self._dir

    def note(self, *a):
        self.trace.append(" ".join(x if isinstance(x, str) else short(x, 120) for x in a))

    def close(self):
        self.p.close()
        if self._dir:
            os.chdir("/")
            shutil.rmtree(self._dir, ignore_errors=True)


# children must not use the same identifiers as their parents
IDS, forks = [], [0]


def forked():
    forks[0] += 1


os.register_at_fork(after_in_parent=forked, after_in_child=lambda: [i.seed(f"child{forks[0]}:{i.random()}") for i in IDS])

SCENARIOS = {}  # property -> list of (name, fn, quick, thorough)


def scenario(prop, quick, thorough, name=None):
    def deco(fn):
        for p in prop.split():
            SCENARIOS.setdefault(p, []).append((name or fn.__name__, fn, quick, thorough))
        return fn

    return deco


def innermost(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        last = fr
    return last


def ours(e):
    """the code used something which the harness' stand-ins do not have"""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        t = o if isinstance(o, type) else type(o)
        m = sys.modules.get(getattr(t, "__module__", ""), None)
        return str(getattr(m, "__file__", "") or "").startswith(HERE)
    if isinstance(e, TypeError):
        x = re.match(r"([\w.<>]+)\(\) ", str(e))
        name = x and x.group(1)
        if name:
            for m in list(sys.modules.values()):
                if str(getattr(m, "__file__", "") or "").startswith(HERE):
                    o = m
                    for part in name.split("."):
                        o = getattr(o, part, None)
                    if o is not None and getattr(o, "__module__", "") == m.__name__:
                        return True
                    if "<locals>" in name and name.split(".")[0] in vars(m) and getattr(vars(m)[name.split(".")[0]], "__module__", "") == m.__name__:
                        return True
    return False


INTERNAL = (AttributeError, TypeError, ImportError, NameError)


def classify(e):
    """violation / incompatible (the harness does not fit the code any longer)

    Names and signatures inside the code may change without a change of behaviour: such errors
    in the harness' own use of the code do not count. Everything else - in particular files
    that are not where they should be - does."""
    if isinstance(e, (Violation, Timeout)):
        return "violation"
    frames = traceback.extract_tb(e.__traceback__)
    inrepo = [f for f in frames if "/src/backy/" in f.filename and HERE not in f.filename]
    if isinstance(e, INTERNAL):
        if not inrepo or frames[-1].filename.startswith(HERE) or ours(e):
            return "incompatible"
    return "violation"


def alarm(*a):
    raise Timeout("case did not finish in time")


def run_case(prop, name, fn, seed, index, tier, limit=120):
    c = Case(prop, name, seed, index, tier)
    # (the code's own random choices are repeatable as well)
    random.seed(f"{seed}:{prop}:{name}:{index}")
    ids = random.Random(f"uuid:{seed}:{prop}:{name}:{index}")
    IDS[:] = [ids]
    c.p.set(uuid, "uuid4", lambda: uuid.UUID(int=ids.getrandbits(128), version=4))
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        fn(c)
        return None, c
    except (KeyboardInterrupt, SystemExit) as e:
        return ("incompatible" if not isinstance(e, SystemExit) else "violation", f"{type(e).__name__}: {e}", traceback.format_exc()), c
    except BaseException as e:
        k = classify(e)
        msg = str(e) if isinstance(e, Violation) else f"unexpected {type(e).__name__}: {e}"
        return (k, msg, traceback.format_exc()), c
    finally:
        signal.alarm(0)
        c.close()


def run(prop, seed, tier, budget, only=None):
    out = {"evaluations": 0, "nontrivial": 0, "scenarios": {}, "failures": [], "incompatible": [], "samples": [], "skipped_for_time": 0}
    t0 = real_time()
    scs = SCENARIOS.get(prop, [])
    for i, (name, fn, quick, thorough) in enumerate(scs):
        n = quick if tier == "quick" else thorough
        t1 = real_time()
        # every scenario gets its share of the remaining time
        share = (t0 + budget - t1) / (len(scs) - i)
        done = bad = 0
        idxs = range(n)
        if only:
            if only[0] != name:
                continue
            idxs = [only[1]]
        for index in idxs:
            if index >= 1 and real_time() - t1 > share:
                out["skipped_for_time"] += n - index
                break
            r, c = run_case(prop, name, fn, seed, index, tier)
            done += 1
            out["evaluations"] += 1
            if c.nontrivial:
                out["nontrivial"] += 1
            if index == 0:
                out["samples"].append({"scenario": name, "case": index, "steps": c.trace[:12]})
            if r:
                d = {"scenario": name, "index": index, "kind": r[0], "what": r[1], "steps": c.trace[-60:], "traceback": r[2][-4000:]}
                (out["failures"] if r[0] == "violation" else out["incompatible"]).append(d)
                bad += 1
                if bad >= 2:
                    break
        out["scenarios"][name] = {"cases": done, "wall_s": round(real_time() - t1, 2), "what": (fn.__doc__ or "").strip()}
    return out


# -------------------------------------------------------------- backy bits
def setup():
    sys.path.insert(0, os.path.join(REPO, "src"))
    import structlog

    def drop(l, m, e):
        raise structlog.DropEvent

    structlog.configure(processors=[drop], wrapper_class=structlog.stdlib.BoundLogger, cache_logger_on_first_use=False)


class Clock:
    """replaces backy.utils.now"""

    def __init__(self, case, t=None):
        import backy.utils

        self.t = t or datetime.datetime(2024, 5, 17, 10, 0, tzinfo=UTC)
        case.p.set(backy.utils, "now", lambda: self.t)


def schedule(conf):
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(conf)
    return s


SIMPLE = {"daily": {"interval": "1d", "keep": 3}, "weekly": {"interval": "7d", "keep": 2}, "monthly": {"interval": "30d", "keep": 2}}


def repo(path, conf=None, log=None):
    import pathlib

    from backy.repository import Repository

    r = Repository(pathlib.Path(path), schedule(conf or SIMPLE), log or Log())
    r.connect()
    return r


def rev(repo, tags=(), ts=None, duration=None, server="", trust=None, uuid=None, orig=None, write=True):
    """a revision on disk (not in the loaded history)"""
    from backy.revision import Revision, Trust

    r = Revision(repo, Log(), uuid=uuid, timestamp=ts)
    r.tags = set(tags)
    r.orig_tags = set(orig if orig is not None else (tags if server else ()))
    if duration is not None:
        r.stats["duration"] = duration
    r.server = server
    if trust:
        r.trust = Trust(trust)
    if write:
        r.materialize()
    return r


def meta(r):
    return (r.uuid, r.timestamp, dict(r.stats), frozenset(r.tags), frozenset(r.orig_tags), r.trust.value, r.server)


def disk(path):
    """what is recorded on disk: uuid -> metadata (read independently)"""
    import yaml

    out = {}
    for n in sorted(os.listdir(path)):
        f = os.path.join(path, n)
        if n.endswith(".rev") and not os.path.islink(f):
            with open(f) as fh:
                d = yaml.safe_load(fh)
            out[d["uuid"]] = (d["uuid"], d["timestamp"], d.get("stats", {}), frozenset(d.get("tags", [])), frozenset(d.get("orig_tags", [])), d.get("trust", "trusted"), d.get("server", ""))
    return out


def ts(n, base=datetime.datetime(2024, 1, 1, tzinfo=UTC)):
    return base + datetime.timedelta(seconds=n)


def tree(path):
    """fingerprint of a directory tree"""
    import hashlib

    out = {}
    for dp, dn, fn in os.walk(path):
        for n in fn:
            f = os.path.join(dp, n)
            if os.path.islink(f):
                out[os.path.relpath(f, path)] = "->" + os.readlink(f)
            else:
                out[os.path.relpath(f, path)] = hashlib.sha1(open(f, "rb").read()).hexdigest()
        for n in dn:
            out[os.path.relpath(os.path.join(dp, n), path)] = "dir"
    return out


# ------------------------------------------------------------- interrupting
def lines(prefix=None):
    """number of lines executed below src/backy by calling fn"""


def count_lines(fn):
    n = 0
    src = os.path.join(REPO, "src", "backy")

    def tr(frame, ev, arg):
        nonlocal n
        if not frame.f_code.co_filename.startswith(src):
            return None
        if ev == "line":
            n += 1
        return tr

    sys.settrace(tr)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n


class Interrupt(BaseException):
    pass


def interrupted(fn, at, how):
    """run fn, and at its at-th line in src/backy end the process (how='crash',
    call in a child) or raise an exception (how=exception instance)"""
    n = 0
    src = os.path.join(REPO, "src", "backy")

    def tr(frame, ev, arg):
        nonlocal n
        if not frame.f_code.co_filename.startswith(src):
            return None
        if ev == "line":
            n += 1
            if n == at:
                if how == "crash":
                    os._exit(77)
                sys.settrace(None)
                raise how
        return tr

    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(None)


def crash(fn, at):
    """run fn in a child which dies at the at-th line; True if it died there"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            interrupted(fn, at, "crash")
            code = 0
        except BaseException:
            if os.environ.get("HDEBUG"):
                traceback.print_exc()
            code = 78
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def in_child(fn, timeout=60):
    """run fn in a child process, return ('ok', value) or ('exc', type name, text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(0)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("exc", type(e).__name__, str(e))
            os.write(w, json.dumps(res, default=str).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return tuple(json.loads(data)) if data else ("died",)
