"""C12 expiry, C13 scheduling, C15 tag edits, C18 health checks."""
import asyncio
import pathlib

from h import *

DAY = 86400
TAGS = ["daily", "weekly", "monthly"]
EXTRA = ["manual:keep", "manual:", "adhoc", "former", "xmanual:", "Manual:a"]
INTERVALS = [("60s", 60), ("15m", 900), ("6h", 6 * 3600), ("1d", DAY), ("36h", 36 * 3600), ("7d", 7 * DAY), ("1w", 7 * DAY), ("90", 90)]
NOW = datetime.datetime(2024, 5, 17, 10, 0, 30, 250000, tzinfo=UTC)


def sched(r, n=None):
    conf, ref = {}, {}
    for t in TAGS[: n or r.randrange(1, 4)]:
        text, sec = r.choice(INTERVALS)
        keep = r.choice([1, 1, 2, 3, 5])
        conf[t] = {"interval": text if r.random() < 0.9 or not text.isdigit() else text, "keep": keep}
        ref[t] = (sec, keep)
    return conf, ref


def fill(c, conf, ref, n, remote=0.25, incomplete=0.2, tags=None, future=False):
    r = c.rng
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir(exist_ok=True)
    rp = repo(path, conf)
    ages = set()
    while len(ages) < n:
        sec, keep = r.choice(list(ref.values()))
        k = r.choice([keep, 1, 1, 2, keep + 1, 0])
        a = k * sec * r.choice([1, 1, 0.5, 1.5]) + r.choice([0, 0, -1, 1, 0.000001, -0.000001, 1e-3, -1e-3, 5, 3600])
        if a < 0 and not future:
            continue
        ages.add(round(a, 6))
    order = list(ages)
    r.shuffle(order)
    for a in order:
        t = NOW - datetime.timedelta(seconds=a)
        own = [x for x in ref if r.random() < 0.7]
        extra = r.sample(tags if tags is not None else EXTRA, r.choice([0, 0, 1, 2]))
        server = r.choice(["peer1", "peer2"]) if r.random() < remote else ""
        tg = set(own + extra)
        rev(rp, tg, ts=t, duration=None if r.random() < incomplete else 1.0, server=server, trust=r.choice(["trusted", "verified", "distrusted"]), orig=(tg | {"daily"} if server and r.random() < 0.3 else (tg if server else ())))
    rp.scan()
    return rp


def check_memory(rp, want, what):
    got = {x.uuid: meta(x) for x in rp.history}
    eq(got, want, what)
    eq(sorted(rp._by_uuid), sorted(want), what + " (index)")
    eq([x.uuid for x in rp.history], [x.uuid for x in sorted(rp.history, key=lambda x: x.timestamp)], what + " (order)")


# ------------------------------------------------------------------ C12
def expire_ref(before, ref, now):
    """per tag: at least keep newer revisions carry it and it is older than keep * interval"""
    out = {}
    for u, m in before.items():
        tags = set()
        for t in m[3]:
            if t.startswith("manual:"):
                tags.add(t)
            elif t in ref:
                sec, keep = ref[t]
                newer = sum(1 for o in before.values() if t in o[3] and o[1] > m[1])
                if not (newer >= keep and m[1] < now - datetime.timedelta(seconds=keep * sec)):
                    tags.add(t)
        out[u] = m[:3] + (frozenset(tags),) + m[4:]
    return out


@scenario("C12", 150, 6000)
def expiry(c):
    """random schedules and histories with ages around the limits; tags, removals, memory and disk"""
    r = c.rng
    clk = Clock(c, NOW)
    conf, ref = sched(r)
    rp = fill(c, conf, ref, r.choice([0, 1, 2, 4, 7, 10]))
    before = disk(rp.path)
    c.note("schedule", conf, "now", NOW.isoformat())
    c.note("before", sorted((m[1].isoformat(), sorted(m[3]), m[6], u) for u, m in before.items()))
    if r.random() < 0.4 and before:
        # what is in memory is out of date
        rp2 = repo(rp.path, conf)
        u = r.choice(sorted(before))
        x = rp2.find_by_uuid(u)
        x.tags = set(r.sample(TAGS + EXTRA, 2))
        x.write_info()
        if r.random() < 0.5:
            rev(rp2, {"daily"}, ts=NOW - datetime.timedelta(days=r.randrange(20), seconds=11), duration=1.0)
        before = disk(rp.path)
    want = expire_ref(before, ref, NOW)
    gone = {u for u, m in want.items() if not m[3]}
    if r.random() < 0.5:
        removed = rp.schedule.expire(rp)
        eq(sorted(x.uuid for x in removed), sorted(gone), "removed revisions reported")
    else:
        rp.expire()
    want = {u: m for u, m in want.items() if u not in gone or m[6]}
    after = disk(rp.path)
    eq(after, want, "revisions on disk after expiry")
    check_memory(rp, want, "history after expiry")


@scenario("C12", 8, 100)
def expiry_boundary(c):
    """keep-1, keep, keep+1 newer revisions; ages one microsecond around the limit"""
    keep = c.index % 4 + 1
    conf = {"daily": {"interval": "1d", "keep": keep}}
    clk = Clock(c, NOW)
    for newer in (keep - 1, keep, keep + 1):
        for delta in (-1, 0, 1):
            for server in ("", "peer"):
                path = pathlib.Path(scratch())
                rp = repo(path, conf)
                old = rev(rp, {"daily"}, ts=NOW - datetime.timedelta(days=keep) - datetime.timedelta(microseconds=delta), duration=1, server=server)
                for i in range(newer):
                    rev(rp, {"daily", "manual:a"}, ts=NOW - datetime.timedelta(minutes=i), duration=1)
                rp.expire()
                d = disk(path)
                expired = newer >= keep and delta > 0
                if server:
                    eq(d[old.uuid][3], frozenset() if expired else frozenset({"daily"}), f"tags of the remote revision, keep {keep}, {newer} newer, {delta} µs over the limit")
                else:
                    eq(old.uuid in d, not expired, f"revision is kept, keep {keep}, {newer} newer, {delta} µs over the limit")
                eq(sum(1 for m in d.values() if m[0] != old.uuid and m[3] == {"daily", "manual:a"}), newer, "other revisions")


# ------------------------------------------------------------------ C13
def grid_next(now, sec, spread):
    """first instant of the tag's grid (multiples of its interval since year 1, shifted) after now"""
    base = datetime.datetime.min.replace(tzinfo=UTC)
    ref = (now - base) // datetime.timedelta(microseconds=1)
    step = sec * 10**6
    off = (spread * 10**6) % step
    k = (ref - off) // step
    return base + datetime.timedelta(microseconds=(k + 1) * step + off)


def close(a, b):
    return abs((a - b).total_seconds()) < 0.001


@scenario("C13", 150, 6000)
def next_backup(c):
    """random schedules, spreads, reference times and histories against the grid and the missed tags"""
    r = c.rng
    now = NOW + datetime.timedelta(seconds=r.randrange(10 * DAY), microseconds=r.randrange(10**6))
    clk = Clock(c, now)
    conf, ref = sched(r)
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path, conf)
    last = {}
    n = r.choice([0, 0, 1, 2, 4])
    only_incomplete = r.random() < 0.15
    for _ in range(n):
        sec, _k = r.choice(list(ref.values()))
        age = sec * r.choice([0, 0.5, 1, 1, 2]) + r.choice([0, 1, -1, 1e-6, -1e-6, 30])
        t = now - datetime.timedelta(seconds=max(age, -5))
        tg = set(r.sample(TAGS + ["manual:x", "other"], r.randrange(0, 4)))
        done = r.random() < 0.8 and not only_incomplete
        rev(rp, tg, ts=t, duration=1.0 if done else None, server=r.choice(["", "", "peer"]))
        if done:
            for x in tg:
                last[x] = max(last.get(x, t), t)
    rp.scan()
    spread = r.choice([0, 1, 59, 3600, r.randrange(0, 40 * DAY), min(s for s, _ in ref.values())])
    ideal = {t: grid_next(now, sec, spread) for t, (sec, _) in ref.items()}
    first = min(ideal.values())
    due = {t for t in ideal if ideal[t] == first}
    missed = {t for t, (sec, _) in ref.items() if not (t in last and last[t] > now - datetime.timedelta(seconds=sec))}
    c.note("now", now.isoformat(), "schedule", conf, "spread", spread, "last", {k: v.isoformat() for k, v in last.items()}, "missed", sorted(missed), "ideal", {k: v.isoformat() for k, v in ideal.items()})
    eq(rp.last_by_tag(), last, "last_by_tag")
    eq(rp.schedule._missed(rp), missed, "missed tags")
    # equal instants of the grid may be rounded differently: leave them out
    near = [t for t in ideal if ideal[t] != first and close(ideal[t], first)]
    if near or abs((first - now).total_seconds() - 300) < 0.01:
        c.nontrivial = False
        return
    conf0 = repr(rp.schedule.schedule)
    time, tags = rp.schedule.next(now, spread, rp)
    eq(repr(rp.schedule.schedule), conf0, "schedule after planning")
    if missed and n and (first - now).total_seconds() > 300:
        eq(time, now, "planned time (missed tags)")
        eq(set(tags), missed, "planned tags (missed tags)")
    else:
        expect(close(time, first), f"planned time is {time.isoformat()}, expected {first.isoformat()}")
        eq(set(tags), due | missed, "planned tags")
    for t, (sec, _) in ref.items():
        from backy.schedule import next_in_interval

        x = next_in_interval(now, datetime.timedelta(seconds=sec), spread)
        expect(close(x, ideal[t]), f"next time of {t} is {x.isoformat()}, expected {ideal[t].isoformat()}")
        if abs((ideal[t] - now).total_seconds()) > 0.001:
            expect(x > now, f"next time {x.isoformat()} of {t} is not after {now.isoformat()}")


@scenario("C13", 10, 300)
def durations(c):
    """texts of intervals"""
    from backy.schedule import parse_duration

    r = c.rng
    for _ in range(40):
        n = r.choice([0, 1, 2, 10, 36, 100, r.randrange(1000)])
        u, s = r.choice([("w", 7 * DAY), ("d", DAY), ("h", 3600), ("m", 60), ("s", 1), ("", 1)])
        eq(parse_duration(f"{n}{u}"), datetime.timedelta(seconds=n * s), f"parse_duration({n}{u})")
    conf, ref = sched(r)
    s = schedule(conf)
    eq({t: (x["interval"].total_seconds(), x["keep"]) for t, x in s.schedule.items()}, {t: (float(a), b) for t, (a, b) in ref.items()}, "configured schedule")
    eq(s.to_dict(), conf, "configuration of the schedule")


# ------------------------------------------------------------------ C15
@scenario("C15", 150, 5000)
def edits(c):
    """random edits over random selections, expectations, validation and stale histories"""
    r = c.rng
    conf, ref = sched(r)
    rp = fill(c, conf, ref, r.choice([1, 2, 3, 6]), tags=["manual:keep", "adhoc"])
    if r.random() < 0.4:
        # the disk changes after the history has been loaded
        rp2 = repo(rp.path, conf)
        x = r.choice(rp2.history)
        k = r.random()
        if k < 0.6:
            x.tags = set(r.sample(TAGS + EXTRA, r.randrange(0, 3)))
            x.write_info()
        elif k < 0.8 and len(rp2.history) > 1:
            x.remove(force=True)
        else:
            rev(rp2, {"daily"}, ts=NOW, duration=1.0)
    before = disk(rp.path)
    ids = [u for u, m in sorted(before.items(), key=lambda i: i[1][1])]
    spec, sel = r.choice([("all", ids), ("last", ids[-1:]), ("first", ids[:1]), ("local", [u for u in ids if not before[u][6]]), (ids[0], ids[:1]), ("tag:daily", [u for u in ids if "daily" in before[u][3]]),
                          ("first..last", ids), ("last,first", [ids[-1]] + ids[:1]), ("not(clean)", [u for u in ids if "duration" not in before[u][2]]), ("nosuch", None)])
    action = r.choice(["set", "add", "remove", "set", "add", "remove", "bogus"])
    pool = list(ref) + ["manual:a", "manual:keep"] + (["adhoc", "monthly", "manual", "Manual:x"] if r.random() < 0.35 else [])
    tags = set(r.sample(pool, min(len(pool), r.randrange(0, 4))))
    if r.random() < 0.2 and sel:
        tags = set(before[sel[0]][3])
    force = r.random() < 0.3
    auto = r.random() < 0.5
    k = r.random()
    exp = None
    if k < 0.25:
        exp = set()
    elif k < 0.6 and sel:
        exp = set(before[r.choice(sel)][3])
    elif k < 0.7:
        exp = set(tags)
    c.note("schedule", conf, "call", dict(action=action, spec=spec, tags=sorted(tags), expect=None if exp is None else sorted(exp), autoremove=auto, force=force))
    c.note("before", [(u, sorted(before[u][3]), before[u][6]) for u in ids])
    unknown = {t for t in tags if not t.startswith("manual:") and t not in ref}
    try:
        given = set(tags)
        res = rp.tags(action, spec, given, expect=None if exp is None else set(exp), autoremove=auto, force=force)
        c.note("result", res)
    except Exception as e:
        res = e
        c.note("raised", repr(e))
    after = disk(rp.path)
    if sel is None:
        expect(isinstance(res, Exception), "no error for an unknown revision")
        eq(after, before, "revisions after a refused edit")
        return
    if action != "remove" and not force and unknown:
        expect(isinstance(res, Exception), f"tags {sorted(unknown)} are not in the schedule, but the edit is not refused")
        eq(after, before, "revisions after an edit with unknown tags")
        return
    if exp is not None and any(set(before[u][3]) != exp for u in sel):
        eq(res, False, "result of an edit whose expectation does not hold")
        eq(after, before, "revisions after an edit whose expectation does not hold")
        return
    if action == "bogus":
        if sel:
            expect(isinstance(res, Exception), "no error for an unknown action")
            eq(after, before, "revisions after an unknown action")
        return
    if isinstance(res, Exception):
        raise res
    eq(res, True, "result of the edit")
    want = dict(before)
    for u in sel:
        m = before[u]
        new = {"set": tags, "add": m[3] | tags, "remove": m[3] - tags}[action]
        if not new and auto and not m[6]:
            del want[u]
        else:
            want[u] = m[:3] + (frozenset(new),) + m[4:]
    eq(after, want, "revisions after the edit")
    check_memory(rp, want, "history after the edit")
    # tags of different revisions are independent
    for x in rp.history:
        x.tags.add("probe-" + x.uuid)
    for x in rp.history:
        bad = [t for t in x.tags if t.startswith("probe-") and t != "probe-" + x.uuid]
        if bad and len(sel) > 1:
            x2 = disk(rp.path)  # shared sets are only a problem if they get recorded
            eq(x2, want, "revisions on disk")


@scenario("C15", 30, 300)
def cli_edits(c):
    """the tags command: parsing and exit code"""
    from backy.cli import Command

    r = c.rng
    conf, ref = sched(r, 3)
    rp = fill(c, conf, ref, 3, remote=0, tags=["manual:keep", "manual:y"])
    before = disk(rp.path)
    u = r.choice(sorted(before))
    cmd = Command.__new__(Command)
    cmd.log = Log()
    exp = r.choice([None, sorted(before[u][3]), ["daily", "nope"]])
    tags = r.sample(list(ref) + ["manual:b"], r.randrange(1, 3))
    action = r.choice(["set", "add", "remove"])
    sep = r.choice([",", ", "])
    ret = cmd.tags(rp, tag_action=action, autoremove=False, expect=None if exp is None else sep.join(exp), revision=u, tags=sep.join(tags), force=False)
    c.note("tags", action, tags, "expect", exp, "have", sorted(before[u][3]), "ret", ret)
    after = disk(rp.path)
    m = before[u]
    if exp is not None and set(exp or [""]) != m[3]:
        eq(ret, 1, "exit code")
        eq(after, before, "revisions")
        return
    eq(ret, 0, "exit code")
    new = {"set": set(tags), "add": m[3] | set(tags), "remove": m[3] - set(tags)}[action]
    want = dict(before)
    want[u] = m[:3] + (frozenset(new),) + m[4:]
    eq(after, want, "revisions")


# ------------------------------------------------------------------ C18
@scenario("C18", 150, 5000)
def sla(c):
    """age of the newest complete revision around one and a half intervals"""
    r = c.rng
    clk = Clock(c, NOW)
    conf, ref = sched(r)
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path, conf)
    limit = min(s for s, _ in ref.values()) * 1.5
    ages = []
    for _ in range(r.choice([0, 1, 2, 4])):
        a = round(r.choice([limit, limit, 0, limit / 2, limit * 2, max(s for s, _ in ref.values()) * 1.5]) + r.choice([0, 1, -1, 1e-6, -1e-6, 60]), 6)
        done = r.random() < 0.7
        rev(rp, r.sample(TAGS, r.randrange(3)), ts=NOW - datetime.timedelta(seconds=a), duration=r.choice([0, 1.0]) if done else None, server=r.choice(["", "", "peer"]), trust=r.choice(["trusted", "distrusted"]))
        if done:
            ages.append(datetime.timedelta(seconds=a))
    rp.scan()
    over = bool(ages) and min(ages) > datetime.timedelta(seconds=limit)
    c.note("schedule", conf, "ages", [str(a) for a in ages], "limit", limit)
    got = rp.sla_overdue
    if over:
        expect(abs(got - min(ages).total_seconds()) < 1e-3, f"sla_overdue is {got}, the newest complete revision is {min(ages).total_seconds()} s old")
    else:
        eq(got, 0, "sla_overdue")
    eq(rp.sla, not over, "sla")


@scenario("C18", 80, 1500)
def check_command(c):
    """exit codes of check over several repositories with reports, overdue and manual tags"""
    from backy.cli import Command
    from backy.report import ChunkMismatchReport

    r = c.rng
    clk = Clock(c, NOW)
    cmd = Command(pathlib.Path(c.dir), pathlib.Path("/nonexistent"), False, ".*", Log())
    repos, want = [], 0
    for i in range(r.choice([1, 1, 2, 3])):
        path = pathlib.Path(c.dir) / f"repo{i}"
        path.mkdir()
        rp = repo(path, {"daily": {"interval": "1d", "keep": 3}})
        k = r.choice(["none", "fresh", "old", "old-incomplete", "fresh-remote"])
        if k != "none":
            t = NOW - datetime.timedelta(hours=37 if k.startswith("old") else 3)
            rev(rp, {"daily", "manual:x"} if r.random() < 0.5 else {"daily"}, ts=t, duration=None if k == "old-incomplete" else 1.0, server="peer" if k == "fresh-remote" else "", orig={"foo"})
        if k == "old":
            want = max(want, 2)
        n = r.choice([0, 0, 1, 2])
        for j in range(n):
            rp.add_report(ChunkMismatchReport(b"a%d" % j, b"b", j))
        if n:
            want = max(want, 1)
        if r.random() < 0.3:
            # in the quarantine, but no report
            (path / "quarantine" / "chunks").mkdir(exist_ok=True)
            (path / "quarantine" / "notes.txt").write_text("x")
        if r.random() < 0.8:
            rp = repo(path, {"daily": {"interval": "1d", "keep": 3}})
        else:
            rp.scan()
        c.note(f"repo{i}", k, "reports", n)
        repos.append(rp)

    async def get_repos():
        return repos

    c.p.set(cmd, "get_repos", get_repos)
    eq(asyncio.run(cmd("check", {})), want, "exit code of check")


@scenario("C18", 20, 200)
def status(c):
    """the daemon's status of a job says the same"""
    import asyncio as aio
    import types

    from backy.daemon import BackyDaemon

    r = c.rng
    clk = Clock(c, NOW)
    d = BackyDaemon(pathlib.Path(c.dir) / "config", Log())
    path = pathlib.Path(c.dir) / "repo"
    path.mkdir()
    rp = repo(path, {"daily": {"interval": "1d", "keep": 3}})
    age = r.choice([0, 35.9, 36, 36.1, 50])
    n = r.choice([0, 1])
    if n:
        rev(repo(path), {"daily", "manual:x"}, ts=NOW - datetime.timedelta(hours=age), duration=3.0)
    job = types.SimpleNamespace(name="j", repository=rp, schedule=rp.schedule, status="", next_time=None, next_tags=None)
    d.jobs = {"j": job}
    s = d.status()[0]
    over = bool(n) and age > 36
    c.note("age in hours", age if n else None)
    eq(s["sla"], "TOO OLD" if over else "OK", "sla in status")
    eq(bool(s["sla_overdue"]), over, "sla_overdue in status")
    eq(s["local_revs"], n, "local revisions in status")
    eq(s["problem_reports"], 0, "problem reports in status")
