"""Paths and files, as the contracts see them.

A path is an uninterpreted value. `files` maps existing paths to their
contents, `links` holds the symbolic links. Operations of pathlib and os change these
ghosts and may raise OSError without any effect."""
from .base import *  # noqa

TPath = TOpq("Path")
TCont = TOpq("Cont")  # contents of a file
TFiles = TDict(TPath, TCont)
P = TPath.sort()

JOIN = z3.Function("join", P, z3.StringSort(), P)
NAME = z3.Function("name", P, z3.StringSort())
PARENT = z3.Function("parent", P, P)
SUFFIX = z3.Function("suffix", P, z3.StringSort())
ADD = z3.Function("addsuffix", P, z3.StringSort(), P)
UNADD = z3.Function("unaddsuffix", P, P)
WSUF = z3.Function("withsuffix", P, z3.StringSort(), P)
IS_TMP = z3.Function("is_temporary_name", P, z3.BoolSort())
ISLINK = z3.Function("islink", P, z3.BoolSort())
PSTR = z3.Function("pathstr", P, z3.StringSort())
REVP = lambda repo_path, uuid: ADD(JOIN(repo_path, uuid), z3.StringVal(".rev"))


def path_axioms(it, pre):
    p, s = z3.Const("wp", P), z3.String("ws")
    return [
        FA([p, s], And(NAME(JOIN(p, s)) == s, PARENT(JOIN(p, s)) == p, Not(IS_TMP(JOIN(p, s)))), [JOIN(p, s)]),
        FA([p, s], And(UNADD(ADD(p, s)) == p, PARENT(ADD(p, s)) == PARENT(p), Not(IS_TMP(ADD(p, s)))), [ADD(p, s)]),
    ]


def fails(it):
    """an operation on files may fail, without any effect"""
    if it.pure:
        return
    if it.choose(2, "OSError"):
        raise it.exc("OSError")


def path(t):
    return Sym(TPath, t)


def p_div(it, v, a, k):
    x = it.force(a[0])
    if isinstance(x, Sym) and x.ty == TPath:
        return x
    return path(JOIN(v.t, it.encode(x, TStr)))


def p_with_suffix(it, v, a, k):
    s = z3.simplify(it.encode(a[0], TStr))
    if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and s.arg(0).eq(z3.simplify(SUFFIX(v.t))):
        rest = s.arg(1) if s.num_args() == 2 else z3.Concat(*[s.arg(i) for i in range(1, s.num_args())])
        return path(ADD(v.t, rest))
    return path(WSUF(v.t, s))


def p_exists(it, v, a, k):
    return it.mkbool(S(TFiles.dom(it.get_ghost("files")), v.t))


def p_unlink(it, v, a, k):
    fails(it)
    f = it.get_ghost("files")
    there = S(TFiles.dom(f), v.t)
    if not k.get("missing_ok"):
        it.raise_if(Not(there), "FileNotFoundError")
    it.set_ghost("files", TFiles.mk(z3.Store(TFiles.dom(f), v.t, False), TFiles.val(f)))


def p_chmod(it, v, a, k):
    fails(it)


# -------------------------------------------------------------- locking
# `locks`: what this process holds on each lock file (1 shared, 2 exclusive)
TFd = TOpq("Fd")
FDP = z3.Function("path_of_fd", TFd.sort(), P)
TLocks = TDict(TPath, TInt)
SH, EX, NB, UN = 1, 2, 4, 8


def p_open(it, v, a, k):
    mode = it.force(a[0]) if a else it.force(k.get("mode", "r"))
    if mode not in ("r", "rb"):
        raise Unsupported(f"open for {mode!r}")
    fails(it)
    it.raise_if(Not(S(TFiles.dom(it.get_ghost("files")), v.t)), "FileNotFoundError")
    fd = it.fresh("fd", TFd.sort())
    it.assume(FDP(fd) == v.t)
    l, q = it.get_ghost("lockfd"), bound("q", P)
    it.assume(FA([q], Imp(S(TLockFd.dom(l), q), S(TLockFd.val(l), q) != fd), [S(TLockFd.val(l), q)]))
    return Sym(TFd, fd)


def p_touch(it, v, a, k):
    fails(it)
    f = it.get_ghost("files")
    there = S(TFiles.dom(f), v.t)
    it.set_ghost("files", TFiles.mk(z3.Store(TFiles.dom(f), v.t, True), z3.Store(TFiles.val(f), v.t, z3.If(there, S(TFiles.val(f), v.t), EMPTY))))


TLockFd = TDict(TPath, TFd)  # the descriptor through which a lock is held


def unlock(it, p):
    l = it.get_ghost("lockfd")
    it.set_ghost("lockfd", TLockFd.mk(z3.Store(TLockFd.dom(l), p, False), TLockFd.val(l)))
    l = it.get_ghost("locks")
    it.set_ghost("locks", TLocks.mk(z3.Store(TLocks.dom(l), p, False), TLocks.val(l)))


def flock(it, a, k):
    fd = it.force(a[0])
    mode = it.force(a[1])
    if not (isinstance(fd, Sym) and fd.ty == TFd and isinstance(mode, int)):
        raise Unsupported("flock")
    p = FDP(fd.t)
    if mode & UN:
        unlock(it, p)
        return
    if it.choose(2, "flock"):
        raise it.exc("BlockingIOError" if mode & NB else "OSError")
    l = it.get_ghost("locks")
    it.set_ghost("locks", TLocks.mk(z3.Store(TLocks.dom(l), p, True), z3.Store(TLocks.val(l), p, mode & 3)))
    l = it.get_ghost("lockfd")
    it.set_ghost("lockfd", TLockFd.mk(z3.Store(TLockFd.dom(l), p, True), z3.Store(TLockFd.val(l), p, fd.t)))


def fd_close(it, v, a, k):
    # closing the descriptor gives up the lock taken with it
    l, p = it.get_ghost("lockfd"), FDP(v.t)
    if it.branch(And(S(TLockFd.dom(l), p), S(TLockFd.val(l), p) == v.t)):
        unlock(it, p)


def lockfile(repo_path, target):
    return JOIN(repo_path, z3.StringVal(target))


def holds(view, repo, target, mode=2):
    l = view.g("locks")
    p = lockfile(view.f("Repository", "path", repo), target)
    return And(S(TLocks.dom(l), p), S(TLocks.val(l), p) >= mode)


def unlocked(view, repo, target):
    """no lock of this process (neither through this object nor another)"""
    return And(Not(S(TDict(TStr, TFd).dom(view.f("Repository", "_lock_fds", repo)), z3.StringVal(target))),
               Not(S(TLocks.dom(view.g("locks")), lockfile(view.f("Repository", "path", repo), target))),
               Not(S(TLockFd.dom(view.g("lockfd")), lockfile(view.f("Repository", "path", repo), target))))


def setup_locks(u):
    m = u.model
    m.ghosts["locks"] = TLocks
    m.ghosts["lockfd"] = TLockFd
    m.fields["Repository", "_lock_fds"] = TDict(TStr, TFd)
    m.opq_methods[TPath.name, "open"] = p_open
    m.opq_methods[TPath.name, "touch"] = p_touch
    m.opq_methods[TFd.name, "close"] = fd_close
    m.opq_methods[TFd.name, "__enter__"] = lambda it, v, a, k: v
    m.opq_methods[TFd.name, "__exit__"] = fd_close
    m.opq_methods[TFd.name, "fileno"] = lambda it, v, a, k: Opaque("fileno")
    m.ext.update({"fcntl.flock": flock, "fcntl.LOCK_SH": SH, "fcntl.LOCK_EX": EX, "fcntl.LOCK_NB": NB, "fcntl.LOCK_UN": UN})
    m.ext["inspect.iscoroutinefunction"] = lambda it, a, k: is_coro(a[0])


def is_coro(f):
    while True:
        if isinstance(f, FuncVal):
            return bool(f.func.is_async)
        f = getattr(f, "fn", None) or getattr(f, "impl", None)
        if f is None:
            return False


def setup_world(u):
    m = u.model
    m.ghosts["files"] = TFiles
    o = m.opq_methods
    n = TPath.name
    o[n, "__truediv__"] = p_div
    o[n, "joinpath"] = p_div
    o[n, "suffix"] = property(lambda it, v: Sym(TStr, SUFFIX(v.t)))
    o[n, "name"] = property(lambda it, v: Sym(TStr, NAME(v.t)))
    o[n, "parent"] = property(lambda it, v: path(PARENT(v.t)))
    o[n, "with_suffix"] = p_with_suffix
    o[n, "exists"] = p_exists
    o[n, "unlink"] = p_unlink
    o[n, "chmod"] = p_chmod
    o[n, "is_symlink"] = lambda it, v, a, k: it.mkbool(ISLINK(v.t))
    m.fields["Repository", "path"] = TPath
    m.fields["Repository", "report_path"] = TPath
    u.axioms.append(path_axioms)


# ------------------------------------------------- metadata files (.rev)
TData = TOpq("Data")  # bytes written to a file
TText = TOpq("Text")  # a YAML document as text
EMPTY = z3.Const("empty_file", TCont.sort())
APP = z3.Function("append", TCont.sort(), TData.sort(), TCont.sort())
ENCS = z3.Function("encode_str", z3.StringSort(), TData.sort())
ENCT = z3.Function("encode_text", TText.sort(), TData.sort())
DOC_FIELDS = {"uuid": TStr, "timestamp": TDate, "stats": TStats, "tags": SetStr, "orig_tags": SetStr, "trust": TStr, "server": TStr}
T_ = {n: z3.Function("text_" + n, TText.sort(), t.sort()) for n, t in DOC_FIELDS.items()}
D_ = {n: z3.Function("doc_" + n, TCont.sort(), t.sort()) for n, t in DOC_FIELDS.items()}


def is_comment(h):
    return And(z3.PrefixOf(z3.StringVal("#"), h), z3.IndexOf(h, z3.StringVal("\n"), 0) == z3.Length(h) - 1, z3.Length(h) > 0)


def yaml_axioms(it, pre):
    """comments are skipped, and a document which has been dumped is loaded as it was"""
    h, t = z3.String("yh"), z3.Const("yt", TText.sort())
    c = APP(APP(EMPTY, ENCS(h)), ENCT(t))
    c0 = APP(EMPTY, ENCT(t))
    return [FA([h, t], Imp(is_comment(h), And(*[D_[n](c) == T_[n](t) for n in DOC_FIELDS])), [c]),
            FA([t], And(*[D_[n](c0) == T_[n](t) for n in DOC_FIELDS]), [c0])]


class FileH(lib.FileV):
    """an open file; its contents are those of the path"""

    def __init__(self, p, mode="w"):
        self.p, self.mode = p, mode

    def method(self, it, name):
        if name == "name":
            return path(self.p)
        f = {"write": self.write, "flush": self.noop, "close": self.noop, "fileno": lambda it, a, k: Opaque("fd"),
             "__enter__": lambda it, a, k: self, "__exit__": lambda it, a, k: None}.get(name)
        return Builtin("file." + name, f) if f else None

    def noop(self, it, a, k):
        fails(it)

    def write(self, it, a, k):
        d = it.force(a[0])
        f = it.get_ghost("files")
        cur = S(TFiles.val(f), self.p)
        if it.choose(2, "write fails"):
            new = it.fresh("partial", TCont.sort())
            it.set_ghost("files", TFiles.mk(TFiles.dom(f), z3.Store(TFiles.val(f), self.p, new)))
            raise it.exc("OSError")
        it.set_ghost("files", TFiles.mk(TFiles.dom(f), z3.Store(TFiles.val(f), self.p, APP(cur, ENCS(z3.StringVal(d.decode("utf-8"))) if isinstance(d, bytes) else it.encode(d, TData)))))


def named_temporary(it, a, k):
    if it.force(k.get("delete", True)) is not False:
        raise Unsupported("a temporary file which vanishes when it is closed")
    fails(it)
    f = it.get_ghost("files")
    p = it.fresh("tmp", P)
    it.assume(And(Not(S(TFiles.dom(f), p)), IS_TMP(p)))
    it.set_ghost("files", TFiles.mk(z3.Store(TFiles.dom(f), p, True), z3.Store(TFiles.val(f), p, EMPTY)))
    return FileH(p)


def as_path(it, v):
    v = it.force(v)
    if isinstance(v, Sym) and v.ty == TPath:
        return v.t
    raise Unsupported(f"{v!r} as a path")


def os_rename(it, a, k):
    fails(it)
    f = it.get_ghost("files")
    s, d = as_path(it, a[0]), as_path(it, a[1])
    it.raise_if(Not(S(TFiles.dom(f), s)), "FileNotFoundError")
    dom = z3.Store(z3.Store(TFiles.dom(f), d, True), s, False)
    it.set_ghost("files", TFiles.mk(dom, z3.Store(TFiles.val(f), d, S(TFiles.val(f), s))))


def yaml_dump(it, a, k):
    """the document as text is written to the file"""
    d = a[0]
    c = it.content(d) if isinstance(d, Box) else None
    if not isinstance(c, HD):
        raise Unsupported("safe_dump of something else than a dictionary")
    t = it.fresh("text", TText.sort())
    for n, ty in DOC_FIELDS.items():
        if n not in c.v:
            raise Unsupported("metadata without " + n)
        v = c.v[n]
        if isinstance(ty, TSet):
            v = lib.to_set(it, v)
        it.assume(T_[n](t) == it.encode(v, ty))
    for n in c.v:
        if n not in DOC_FIELDS:
            it.notes.add(f"metadata key {n!r} is not modelled")
    it.call(it.getattr(a[1], "write"), [Sym(TText, t)], {})


def yaml_load(it, a, k):
    """the document in a file which holds one (as written by yaml_dump)"""
    fd = it.force(a[0])
    if not (isinstance(fd, Sym) and fd.ty == TFd):
        raise Unsupported("safe_load")
    c = S(TFiles.val(it.get_ghost("files")), FDP(fd.t))
    return it.new_box(HD({n: it.decode(D_[n](c), ty) for n, ty in DOC_FIELDS.items()}))


def text_encode(it, v, a, k):
    return Sym(TData, ENCT(v.t))


def setup_files(u):
    m = u.model
    m.opq_methods[TText.name, "encode"] = text_encode
    m.ext.update({
        "tempfile.NamedTemporaryFile": named_temporary,
        "os.path.dirname": lambda it, a, k: path(PARENT(as_path(it, a[0]))),
        "os.path.exists": lambda it, a, k: p_exists(it, a[0], [], {}),
        "os.unlink": lambda it, a, k: p_unlink(it, a[0], [], {}),
        "os.remove": lambda it, a, k: p_unlink(it, a[0], [], {}),
        "os.chmod": lambda it, a, k: fails(it),
        "os.fsync": lambda it, a, k: fails(it),
        "os.rename": os_rename, "os.replace": os_rename,
        "yaml.safe_dump": yaml_dump, "yaml.safe_load": yaml_load,
        "shortuuid.uuid": lambda it, a, k: Sym(TStr, it.fresh("uuid", z3.StringSort())),
    })
    u.axioms.append(yaml_axioms)
