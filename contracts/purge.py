"""Purging old directories (C22).

The file system is a tree of names; it does not change during one pass (it
may change arbitrarily while the daemon sleeps)."""
from types import SimpleNamespace

from .base import *  # noqa
from . import base

FS = TOpq("FS")
TDent = TOpq("DirEntry")
SS, IS, RS, BS = z3.StringSort(), z3.IntSort(), z3.RealSort(), z3.BoolSort()
MT = z3.Function("mtime_of", FS.sort(), SS, RS)  # not following links
ISDIR = z3.Function("is_directory", FS.sort(), SS, BS)  # following links
LNK = z3.Function("is_symlink", FS.sort(), SS, BS)
CHILD = z3.Function("is_entry", FS.sort(), SS, SS, BS)
RECENT = z3.Function("changed_since", FS.sort(), SS, RS, BS)  # it, or anything reachable below it without following links
PTH = z3.Function("path_of_entry", TDent.sort(), SS)
TEnts = TList(TDent)
AGE = 93 * 24 * 60 * 60


def setup(u):
    m = base.setup(u)
    m.ghosts.update({"fs": FS, "wall": TReal, "removed": SetStr})
    m.fields[("BackyDaemon", "base_dir")] = TStr
    D = lambda fs, p: And(ISDIR(fs, p), Not(LNK(fs, p)))
    sp = lambda it, v: PTH(v.t) if isinstance(v, Sym) and v.ty is TDent else it.encode(v, TStr)

    def fails(it):
        if it.choose(2, "OSError"):
            raise it.exc("OSError")

    def stat(it, a, k):
        p = sp(it, it.force(a[0]))
        if it.force(k.get("follow_symlinks", True)) is not False:
            raise Unsupported("stat which follows links")
        fails(it)
        s = it.fresh("stat", ST.sort())
        it.assume(MTIME(s) == MT(it.get_ghost("fs"), p))
        return Sym(ST, s)

    ST = TOpq("stat_result")
    MTIME = z3.Function("st_mtime", ST.sort(), RS)
    m.opq_methods[ST.name, "st_mtime"] = property(lambda it, v: Sym(TReal, MTIME(v.t)))
    m.opq_methods[TDent.name, "path"] = property(lambda it, v: Sym(TStr, PTH(v.t)))

    def scandir(it, a, k):
        p, fs = sp(it, it.force(a[0])), it.get_ghost("fs")
        fails(it)
        t = it.fresh("entries", TEnts.sort())
        i, x = bound("i", IS), bound("x", SS)
        at = lambda i: PTH(S(TEnts.arr(t), i))
        it.assume(TEnts.len(t) >= 0)
        it.assume(FA([i], Imp(And(0 <= i, i < TEnts.len(t)), CHILD(fs, p, at(i))), [S(TEnts.arr(t), i)]))
        it.assume(FA([x], Imp(CHILD(fs, p, x), z3.Exists([i], And(0 <= i, i < TEnts.len(t), at(i) == x))), [CHILD(fs, p, x)]))
        return it.decode(t, TEnts)

    def rmtree(it, a, k):
        c, fs = it.vc.ctx, it.get_ghost("fs")
        x = sp(it, it.force(a[0]))
        root = S(it.heap_arr("BackyDaemon", "base_dir"), c.a("self"))
        it.vc.prove(it, "only what lies directly below the base directory is deleted", CHILD(fs, root, x))
        it.vc.prove(it, "only directories are deleted", ISDIR(fs, x))
        it.vc.prove(it, "no symbolic link is deleted", Not(LNK(fs, x)))
        it.vc.prove(it, "nothing in a deleted directory was modified within the last 93 days", Not(RECENT(fs, x, it.get_ghost("wall") - AGE)))
        it.set_ghost("removed", z3.Store(it.get_ghost("removed"), x, z3.BoolVal(True)))
        fails(it)

    def clock(it, a, k):
        t = it.fresh("time", RS)
        it.assume(t >= it.get_ghost("wall"))
        it.set_ghost("wall", t)
        return Sym(TReal, t)

    def sleep(it, a, k):
        it.set_ghost("fs", it.fresh("fs", FS.sort()))
        it.set_ghost("removed", it.fresh("removed", SetStr.sort()))
        clock(it, a, k)
        if it.choose(2, "cancelled"):
            raise it.exc("CancelledError")

    rel = lambda f: lambda it, a, k: it.decode(f(it.get_ghost("fs"), sp(it, it.force(a[0]))), TBool)
    m.ext.update({"aiofiles.os.stat": stat, "aiofiles.os.scandir": scandir, "aiofiles.os.path.isdir": rel(ISDIR), "aiofiles.os.path.islink": rel(LNK),
                  "aioshutil.rmtree": rmtree, "time.time": clock, "asyncio.sleep": sleep})

    def unfold(it, ctx, vals):
        """what it means that something has changed, for this path"""
        fs, p, T = it.get_ghost("fs"), ctx.a("path"), ctx.a("reference_time")
        x = bound("x", SS)
        it.assume(RECENT(fs, p, T) == Or(MT(fs, p) >= T, And(D(fs, p), z3.Exists([x], And(CHILD(fs, p, x), RECENT(fs, x, T))))))
        it.assume(FA([x], Imp(MT(fs, x) >= T, RECENT(fs, x, T)), [MT(fs, x)]))

    def later(it, pre):
        fs, p, a, b = bound("fs", FS.sort()), bound("p", SS), bound("a", RS), bound("b", RS)
        return [FA([fs, p, a, b], Imp(And(RECENT(fs, p, b), a <= b), RECENT(fs, p, a)), [z3.MultiPattern(RECENT(fs, p, a), RECENT(fs, p, b))])]

    u.axioms.append(later)

    def hrc(c):
        return c.res == RECENT(c.pre.g("fs"), c.a("path"), c.a("reference_time"))

    def first(L):
        c = L.vc.ctx
        fs, T, s = L.pre.g("fs"), c.a("reference_time"), L.seq0
        return [("entries passed were not modified themselves", forall_int(lambda i: Imp(And(0 <= i, i < L.k), MT(fs, PTH(s.get(i).t)) < T), pats=lambda i: [s.get(i).t]))]

    def second(L):
        c = L.vc.ctx
        fs, T, s = L.pre.g("fs"), c.a("reference_time"), L.seq0
        return [("nothing has changed below the entries passed", forall_int(lambda i: Imp(And(0 <= i, i < L.k), Not(RECENT(fs, PTH(s.get(i).t), T))), pats=lambda i: [s.get(i).t]))]

    u.contract("utils:has_recent_changes", [("path", TStr), ("reference_time", TReal)], ret=TBool,
               ensures=[("tells whether it, or anything reachable below it without following links, was modified since", hrc)],
               raises=[("OSError", None, [])], before=unfold, loops={0: first, 1: second})

    def pass_inv(L):
        c = L.vc.ctx
        fs, s, v = L.entry.g("fs"), L.seq0, L.now
        x = lambda i: PTH(s.get(i).t)
        return [("the file system stays as it is", v.g("fs") == fs), ("time passes", v.g("wall") >= L.entry.g("wall")),
                ("old directories passed are deleted", forall_int(lambda i: Imp(And(0 <= i, i < L.k, D(fs, x(i)), Not(RECENT(fs, x(i), L.entry.g("wall") - AGE))), S(v.g("removed"), x(i))), pats=lambda i: [s.get(i).t]))]

    u.contract("daemon:BackyDaemon.purge_old_files", [("self", R("BackyDaemon"))], modifies=[("ghost", "fs"), ("ghost", "wall"), ("ghost", "removed")],
               raises=[("CancelledError", None, [])], loops={0: lambda L: [], 1: pass_inv}, allow_no_return=True)
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
