"""C14: revision specifiers against an interpreter of the documented meaning."""
import contextlib
import io
import pathlib

from h import *

TAGS = ["daily", "weekly", "manual:x", "manual:first", "t1"]
SERVERS = ["", "", "peer1", "peer2"]
TRUSTS = ["trusted", "distrusted", "verified"]


class Err(Exception):
    pass


def uniq(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


def build(c, n=None):
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir(exist_ok=True)
    rp = repo(path)
    n = r.choice([0, 1, 2, 3, 5, 8]) if n is None else n
    revs = []
    times = sorted(r.sample(range(0, 100), n))
    order = list(range(n))
    r.shuffle(order)
    for i in order:
        v = rev(rp, r.sample(TAGS, r.randrange(0, 3)), ts=ts(86400 * times[i] + r.choice([0, 0.5])), duration=r.choice([None, 0, 1.5]), server=r.choice(SERVERS), trust=r.choice(TRUSTS), uuid=r.choice([None, f"rev{i}", f"x{i}y"]))
        revs.append(dict(uuid=v.uuid, ts=v.timestamp, tags=set(v.tags), server=v.server, trust=v.trust.value, clean="duration" in v.stats))
    revs.sort(key=lambda d: d["ts"])
    rp.scan()
    return rp, revs


class Gen:
    def __init__(self, r, revs):
        self.r, self.revs = r, revs
        self.ids = [x["uuid"] for x in revs]

    def one(self):
        """specifier of one revision: text, value or error"""
        r, ids = self.r, self.ids
        k = r.randrange(6)
        if k == 0:
            n = r.randrange(0, len(ids) + 3)
            return str(n), (ids[-n - 1] if n < len(ids) else Err)
        if k == 1:
            return r.choice(["last", "latest"]), (ids[-1] if ids else Err)
        if k == 2:
            return "first", (ids[0] if ids else Err)
        if k == 3 and ids:
            u = r.choice(ids)
            if r.random() < 0.15:
                u2 = r.choice([u + "x", u[:-1], u.upper() if u.upper() != u else u + "Z"])
                return u2, (u2 if u2 in ids else Err)
            return u, u
        if k == 4:
            return r.choice(["nosuch", "-1", "-2", "1.5", "firs", "alle", "trust", "tags", "tag"]), Err
        f = r.choice(["first", "last"])
        t, v = self.multi(1)
        return f"{f}({t})", (Err if v is Err or not v else v[0 if f == "first" else -1])

    def atom(self):
        r, R = self.r, self.revs
        k = r.randrange(9)
        if k == 0:
            return "all", list(self.ids)
        if k == 1:
            return "clean", [x["uuid"] for x in R if x["clean"]]
        if k == 2:
            return "local", [x["uuid"] for x in R if not x["server"]]
        if k == 3:
            return "remote", [x["uuid"] for x in R if x["server"]]
        if k == 4:
            t = r.choice(TAGS + ["none", ""])
            return f"tag:{t}", [x["uuid"] for x in R if t in x["tags"]]
        if k == 5:
            t = r.choice(TRUSTS)
            t2 = t.upper() if r.random() < 0.2 else t
            return f"trust:{t2}", [x["uuid"] for x in R if x["trust"] == t]
        if k == 6:
            t = r.choice(["", "peer1", "peer2", "peer"])
            return f"server:{t}", [x["uuid"] for x in R if x["server"] == t]
        t, v = self.one()
        return t, ([v] if v is not Err else Err)

    def bound(self):
        """end of a range: text, position (number in the history, may lie between) or error"""
        r = self.r
        if r.random() < 0.45:
            R = self.revs
            if R and r.random() < 0.6:
                d = r.choice(R)["ts"]
                if r.random() < 0.4:
                    d = d + datetime.timedelta(seconds=r.choice([-1, 1, -86400, 86400, 3600]))
            else:
                d = ts(86400 * r.randrange(-5, 110))
            below = sum(1 for x in R if x["ts"] < d)
            at = [i for i, x in enumerate(R) if x["ts"] == d]
            txt = d.isoformat() if r.random() < 0.7 else d.replace(tzinfo=None).isoformat()
            if r.random() < 0.2 and d.time() == datetime.time(0):
                txt = d.date().isoformat()
            if len(at) > 1:
                return txt, Err
            return txt, (at[0] if at else below - 0.5)
        t, v = self.one()
        return t, (self.ids.index(v) if v is not Err else Err)

    def range(self):
        r = self.r
        (ta, a), (tb, b) = self.bound(), self.bound()
        if r.random() < 0.25:
            ta, a = "", (0 if self.ids else Err)
        if r.random() < 0.25:
            tb, b = "", (len(self.ids) - 1 if self.ids else Err)
        s = r.choice(["", " "])
        txt = f"{ta}{s}..{s}{tb}"
        if a is Err or b is Err:
            return txt, Err
        lo, hi = min(a, b), max(a, b)
        return txt, [u for i, u in enumerate(self.ids) if lo <= i <= hi]

    def multi(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.3:
            return self.atom()
        if k < 0.5:
            return self.range()
        if k < 0.62:
            parts = [self.factor(depth - 1) for _ in range(r.choice([2, 2, 3]))]
            txt = r.choice([",", ", "]).join(p[0] for p in parts)
            if any(p[1] is Err for p in parts):
                return txt, Err
            return txt, uniq(sum((p[1] for p in parts), []))
        if k < 0.74:
            parts = [self.term(depth - 1) for _ in range(2)]
            txt = r.choice(["&", " & "]).join(p[0] for p in parts)
            if any(p[1] is Err for p in parts):
                return txt, Err
            return txt, uniq([x for x in parts[0][1] if x in parts[1][1]])
        f = r.choice(["not", "reverse", "first", "last", ""])
        t, v = self.multi(depth - 1)
        txt = f"{f}({t})"
        if v is Err:
            return txt, Err
        if f == "not":
            return txt, [u for u in self.ids if u not in v]
        if f == "reverse":
            return txt, list(reversed(v))
        if f in ("first", "last"):
            return txt, ([v[0 if f == "first" else -1]] if v else Err)
        return txt, v

    def term(self, depth):
        k = self.r.random()
        if k < 0.4:
            return self.atom()
        if k < 0.6:
            return self.range()
        t, v = self.multi(depth)
        return f"({t})", v

    def factor(self, depth):
        if self.r.random() < 0.3:
            (t1, a), (t2, b) = self.term(depth), self.term(depth)
            return f"{t1}&{t2}", (Err if a is Err or b is Err else uniq([x for x in a if x in b]))
        return self.term(depth)


def result(fn):
    try:
        return fn()
    except (KeyError, IndexError, ValueError, AssertionError) as e:
        return Err


@scenario("C14", 60, 3000)
def specifiers(c):
    """random histories and nested specifiers; result, order and errors"""
    rp, revs = build(c)
    g = Gen(c.rng, revs)
    c.note("history", [(x["uuid"], x["ts"].isoformat(), sorted(x["tags"]), x["server"], x["trust"], x["clean"]) for x in revs])
    for _ in range(60):
        txt, want = g.multi(c.rng.choice([0, 1, 2, 3]))
        got = result(lambda: [x.uuid for x in rp.find_revisions(txt)])
        if want is not got:
            c.note("spec", txt)
        eq("error" if got is Err else got, "error" if want is Err else want, f"find_revisions({txt!r})")
    for _ in range(30):
        txt, want = g.one()
        got = result(lambda: rp.find(txt).uuid)
        eq("error" if got is Err else got, "error" if want is Err else want, f"find({txt!r})")
    for _ in range(5):
        txt, want = g.multi(1)
        if want is Err:
            continue
        from backy.cli import Command

        cmd = Command.__new__(Command)
        cmd.log = Log()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            cmd.rev_parse(rp, txt, True)
        eq(out.getvalue().split(), want, f"rev-parse --uuid -r {txt!r}")


@scenario("C14", 12, 100)
def systematic(c):
    """every position of a history as number, identifier and date; all ranges between them"""
    rp, revs = build(c, c.index % 5 + 1)
    ids = [x["uuid"] for x in revs]
    n = len(ids)
    forms = []
    for i, x in enumerate(revs):
        for t in [str(n - 1 - i), x["uuid"], x["ts"].isoformat()] + (["first"] if i == 0 else []) + (["last", "latest"] if i == n - 1 else []):
            forms.append((t, i))
        forms.append(((x["ts"] + datetime.timedelta(seconds=10)).isoformat(), i + 0.5))
    forms.append(("2001-01-01", -0.5))
    for a, i in forms:
        if not a.startswith("20"):
            eq(rp.find(a).uuid, ids[i], f"find({a})")
            eq([r.uuid for r in rp.find_revisions(a)], [ids[i]], f"find_revisions({a})")
        for b, j in forms:
            want = [u for k, u in enumerate(ids) if min(i, j) <= k <= max(i, j)]
            eq([r.uuid for r in rp.find_revisions(f"{a}..{b}")], want, f"{a}..{b}")
    for bad in [str(n), str(n + 5), "-1", ids[0] + "0", "nothing", ""]:
        if bad in ids:
            continue
        eq(result(lambda: rp.find(bad).uuid), Err, f"find({bad!r})")
