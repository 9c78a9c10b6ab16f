"""C10: file arguments, mode, path and ownership of the handle."""
import io
from pathlib import Path
from sx.harness import scenario, grid, quiet
from sx.source import sizes


class Minimal:
    """provides what is needed and nothing of IOBase"""

    def __init__(self):
        self._b = io.BytesIO()
        self.name = "minimal"

    def read(self, *a):
        return self._b.read(*a)

    def readinto(self, *a):
        return self._b.readinto(*a)

    def write(self, *a):
        return self._b.write(*a)

    def seek(self, *a):
        return self._b.seek(*a)

    def tell(self):
        return self._b.tell()

    def truncate(self, *a):
        return self._b.truncate(*a)

    def flush(self):
        return self._b.flush()


KINDS = ["str", "path", "file", "root", "group", "deep", "bytesio", "minimal", "tuple", "list", "dict"]


def content(ctx, what, name):
    x = ctx.int(name)
    return {"int": lambda: x, "list": lambda: [x, "s", None], "dict": lambda: {"k": x, "l": ["a", x]}}[what]()


class Arg:
    """one way to name a file; `give()` is passed to hickle"""

    def __init__(self, ctx, kind, fn, writable=True):
        self.ctx, self.kind, self.own, self.obj = ctx, kind, None, None
        h5 = ctx.h5
        if kind == "str":
            self.obj = fn
        elif kind == "path":
            self.obj = Path(fn)
        elif kind in ("file", "root", "group", "deep"):
            self.own = h5.File(fn, "a" if writable else "r")
            if kind == "file":
                self.obj = self.own
            elif kind == "root":
                self.obj = self.own["/"]
            elif kind == "group":
                self.obj = self.own["grp"] if "grp" in self.own else self.own.create_group("grp")
            else:
                self.obj = self.own["g1/g2"] if "g1/g2" in self.own else self.own.create_group("g1/g2")
        else:
            self.mem = io.BytesIO() if kind != "minimal" else Minimal()
            self.obj = {"bytesio": self.mem, "minimal": self.mem, "tuple": (self.mem, "nm"), "list": [self.mem, b"nm"], "dict": {"file": self.mem, "name": "nm"}}[kind]

    def usable(self, writable=True):
        if self.own is not None:
            ctx = self.ctx
            ctx.check(bool(self.own) and bool(self.obj), "handle of the caller was closed")
            ctx.check(self.own.mode == ("r+" if writable else "r"), "mode of the handle changed")
            if writable:
                n = "probe%d" % len(list(self.own))
                self.own.create_group(n)
                ctx.check(n in self.own, "handle of the caller is not usable")
                del self.own[n]
            else:
                list(self.own)
        elif hasattr(self, "mem"):
            self.ctx.check(not getattr(self.mem, "closed", False), "file object of the caller was closed")
            self.mem.seek(0)
            self.ctx.check(self.mem.read(4) == b"\x89HDF", "file object does not hold the file")

    def done(self):
        if self.own is not None:
            self.own.close()


@scenario("C10", quick=grid(kind=KINDS, what=["int", "dict"], again=[False]), thorough=grid(kind=KINDS, what=["int", "list", "dict"], again=[False, True]))
def every_kind(ctx, kind, what, again):
    x = content(ctx, what, "x")
    path = ctx.choice("path", [None, "p", "/p", "/p/", "p/q", "/"])
    kw = {} if path is None else {"path": path}
    before = ctx.open_handles()
    a = Arg(ctx, kind, ctx.file("f.h5"))
    mode = ctx.choice("mode", ["w", "a", "x", "w-", "wb"]) if not again else "a"
    held = ctx.open_handles()
    with quiet():
        ctx.dump(x, a.obj, mode, **kw)
        ctx.check(ctx.open_handles() == held, "dump left a file open or closed one")
        a.usable()
        r = ctx.load(a.obj, **kw)
        ctx.check_same(r, x, "loaded object differs")
        ctx.check(ctx.open_handles() == held, "load left a file open or closed one")
        a.usable()
        if again and path not in (None, "/"):
            y = content(ctx, what, "y")
            ctx.dump(y, a.obj, "a", path="other")
            ctx.check_same(ctx.load(a.obj, path="/other"), y, "second object differs")
            ctx.check_same(ctx.load(a.obj, **kw), x, "first object differs after the second dump")
            a.usable()
    a.done()
    ctx.check(ctx.open_handles() == before, "a handle is left behind")


PRIOR = ["absent", "empty", "hickle", "hickle_at_b", "foreign", "junk"]
MODES = ["r", "rb", "r+", "r+b", "rb+", "w", "wb", "w+", "wb+", "w+b", "w-", "x", "xb", "x+", "a", "ab", "a+", "q", "", "rw", "wr", "rr", "b", "U"]


def prepare(ctx, fn, prior):
    if prior == "empty":
        ctx.h5.File(fn, "w").close()
    elif prior == "hickle":
        ctx.dump(["old", 7], fn)
    elif prior == "hickle_at_b":
        ctx.dump(["old", 7], fn, path="/b")
    elif prior == "foreign":
        with ctx.h5.File(fn, "w") as h:
            h.create_dataset("d", data=5)
            h.attrs["note"] = 3
    elif prior == "junk":
        ctx.write_file(fn, b"not HDF5 at all" * 100)


def kept(ctx, fn, prior):
    if prior == "hickle":
        ctx.check_same(ctx.load(fn), ["old", 7], "object stored earlier got lost")
    elif prior == "hickle_at_b":
        ctx.check_same(ctx.load(fn, path="b"), ["old", 7], "object stored earlier got lost")
    elif prior == "foreign":
        with ctx.h5.File(fn, "r") as h:
            ctx.check("d" in h and int(h["d"][()]) == 5 and "note" in h.attrs, "other content of the file got lost")


@scenario("C10", quick=grid(mode=MODES, prior=PRIOR))
def modes(ctx, mode, prior):
    """what happens to an existing or missing file named by the caller"""
    fn = ctx.file("f.h5")
    x = content(ctx, "list", "x")
    arg = ctx.choice("arg", ["str", "path"])
    path = ctx.choice("path", ["/", "/new"])
    with quiet():
        prepare(ctx, fn, prior)
        before = ctx.file_state(fn)
        held = ctx.open_handles()
        a = fn if arg == "str" else Path(fn)
        e = ctx.raises(ctx.dump, x, a, mode, path=path)
        ctx.check(ctx.open_handles() == held, "file left open")
        m = mode.replace("b", "")
        occupied = path == "/" and prior in ("hickle", "hickle_at_b", "foreign")
        exists = prior != "absent"
        if m == "r":
            ctx.check(e is not None, "dump in mode 'r' succeeded")
            ctx.check(ctx.file_state(fn) == before, "dump in mode 'r' changed the file")
        elif m in ("w", "w+"):
            ctx.check(e is None, "dump in mode 'w' failed: %r" % (e,))
            ctx.check_same(ctx.load(a, path=path), x, "loaded object differs")
            with ctx.h5.File(fn, "r") as h:
                ctx.check("d" not in h and "b" not in h and "note" not in h.attrs, "mode 'w' kept old content")
                if path == "/new":
                    ctx.check(list(h) == ["new"], "mode 'w' kept old content")
        elif m in ("x", "x+", "w-"):
            if exists:
                ctx.check(e is not None, "existing file accepted in mode %r" % mode)
                ctx.check(ctx.file_state(fn) == before, "existing file changed in mode %r" % mode)
            else:
                ctx.check(e is None, "dump to a new file failed: %r" % (e,))
                ctx.check_same(ctx.load(a, path=path), x, "loaded object differs")
        elif m in ("a", "a+", "r+"):
            if prior == "junk":
                ctx.check(e is not None, "file which is not HDF5 accepted")
                ctx.check(ctx.file_state(fn) == before, "file which is not HDF5 changed")
            elif m == "r+" and not exists:
                ctx.check(e is not None and not ctx.exists(fn), "mode 'r+' created a file")
            elif occupied:
                ctx.check(e is not None, "occupied path accepted")
                kept(ctx, fn, prior)
            else:
                ctx.check(e is None, "dump to an existing file failed: %r" % (e,))
                ctx.check_same(ctx.load(a, path=path), x, "loaded object differs")
                kept(ctx, fn, prior)
        else:
            ctx.check(e is not None, "invalid mode %r accepted" % mode)
            ctx.check(ctx.file_state(fn) == before, "file changed by a dump with an invalid mode")
        ctx.check(ctx.open_handles() == held, "file left open")


@scenario("C10", quick=grid(first=["str", "path", "file", "group"]))
def default_mode_replaces(ctx, first):
    fn = ctx.file("f.h5")
    x, y = content(ctx, "list", "x"), content(ctx, "dict", "y")
    with quiet():
        a = Arg(ctx, first, fn)
        ctx.hickle.dump(x, a.obj)
        a.done()
        ctx.hickle.dump(y, fn)
        ctx.check_same(ctx.load(fn), y, "second object differs")
        with ctx.h5.File(fn, "r") as h:
            ctx.check("grp" not in h, "default mode kept old content")


@scenario("C10", quick=grid(kind=["file", "root", "group", "deep"]))
def read_only_handles(ctx, kind):
    fn = ctx.file("f.h5")
    x = content(ctx, "list", "x")
    with quiet():
        a = Arg(ctx, kind, fn)
        ctx.dump(x, a.obj, "w", path="p")
        a.done()
        a = Arg(ctx, kind, fn, writable=False)
        held = ctx.open_handles()
        before = ctx.file_state(fn)
        mode = ctx.choice("mode", ["w", "a", "r+", "x", "w-", "r", "rb+"])
        e = ctx.raises(ctx.dump, [1], a.obj, mode, path=ctx.choice("path", ["/", "p", "q"]))
        ctx.check(e is not None, "dump to a read only handle succeeded")
        ctx.check(ctx.open_handles() == held, "handles changed")
        a.usable(False)
        ctx.check(ctx.file_state(fn) == before, "file changed through a read only handle")
        ctx.check_same(ctx.load(a.obj, path="p"), x, "load from a read only handle differs")
        a.usable(False)
        a.done()


@scenario("C10", quick=grid(kind=["file", "root", "group", "deep", "bytesio", "tuple", "dict"]))
def closed_handles(ctx, kind):
    fn = ctx.file("f.h5")
    x = content(ctx, "int", "x")
    with quiet():
        a = Arg(ctx, kind, fn)
        ctx.dump(x, a.obj, "a")
        if a.own is not None:
            a.own.close()
        else:
            a.mem.close()
        before = ctx.file_state(fn)
        held = ctx.open_handles()
        err = ctx.need(ctx.mod("hickle.fileio"), "ClosedFileError")
        name = ctx.choice("filename", [None, "n", b"n", ""] if kind not in ("tuple", "dict") else [None])
        e = ctx.raises(ctx.dump, 1, a.obj, ctx.choice("mode", ["w", "a", "r+", "r", "x"]), filename=name)
        ctx.check(isinstance(e, err), "dump to a closed handle: %r" % (e,))
        e = ctx.raises(ctx.load, a.obj, filename=name)
        ctx.check(isinstance(e, err), "load from a closed handle: %r" % (e,))
        ctx.check(ctx.file_state(fn) == before and ctx.open_handles() == held, "file changed")


@scenario("C10", quick=grid(kind=["str", "file", "group", "deep", "bytesio"], n=[1, 2]), thorough=grid(kind=["str", "file", "group", "deep", "bytesio"], n=[1, 2, 3]))
def any_path(ctx, kind, n):
    """any path text is found again and resolved relative to the given group"""
    fn = ctx.file("f.h5")
    x = content(ctx, "list", "x")
    p = ctx.str("p", n)
    ctx.assume(not ctx.truth("\0" in p))
    lead = ctx.choice("lead", ["", "/"])
    with quiet():
        a = Arg(ctx, kind, fn)
        ctx.dump(x, a.obj, "a", path=lead + p)
        other = ctx.choice("other", ["", "/"])
        trail = ctx.choice("trail", ["", "/"])
        ctx.check_same(ctx.load(a.obj, path=other + p + trail), x, "object not found under an equivalent path")
        if kind in ("file", "group", "deep"):
            base = a.obj
            if ctx.truth(p[0] != "/") and ctx.truth(p[0] != "."):
                ctx.check(p in base and "HICKLE_VERSION" in base[p].attrs, "path not resolved relative to the group")
            a.usable()
            # the absolute name from the file
            name = {"file": "/", "group": "/grp/", "deep": "g1/g2/"}[kind]
            ctx.check_same(ctx.load(a.own, path=name + p), x, "object not found by its absolute path")
        a.done()
        if kind in ("file", "group", "deep"):
            ctx.check_same(ctx.load(fn, path=name + p), x, "object not found by file name and absolute path")


@scenario("C10", quick=grid(kind=["bytesio", "minimal", "tuple", "list", "dict"]))
def file_objects(ctx, kind):
    """position and file name of a file object play no role"""
    x = content(ctx, "dict", "x")
    with quiet():
        a = Arg(ctx, kind, None)
        names = [None, "n", b"n", ""] if kind in ("bytesio", "minimal") else [None]
        ctx.dump(x, a.obj, ctx.choice("mode", ["w", "w+", "a", "x", "r+", "rb+", "x+", "wb"]), filename=ctx.choice("fn1", names))
        pos = ctx.choice("pos", [0, 3, None])
        a.mem.seek(*((pos,) if pos is not None else (0, 2)))
        ctx.check_same(ctx.load(a.obj, filename=ctx.choice("fn2", names)), x, "object read from a file object differs")
        a.usable()
        # hand the bytes over to somebody else
        before = ctx.file_state(a.mem) if kind != "minimal" else None
        e = ctx.raises(ctx.dump, 5, a.obj, "q")
        ctx.check(e is not None, "invalid mode accepted")
        e = ctx.raises(ctx.dump, 5, a.obj, "r")
        ctx.check(e is not None, "dump in mode 'r' succeeded")
        e = ctx.raises(ctx.dump, 5, a.obj, "w", filename=5)
        ctx.check(isinstance(e, ValueError), "file name of wrong type accepted")
        if before is not None:
            ctx.check(ctx.file_state(a.mem) == before, "file object changed by a refused dump")
        ctx.check_same(ctx.load(a.obj), x, "object read from a file object differs")


class NoWrite(Minimal):
    write = None


class WriteFails(Minimal):
    frozen = False

    def write(self, *a):
        if self.frozen:
            raise io.UnsupportedOperation("write")
        return Minimal.write(self, *a)


class NoRead(Minimal):
    read = None


class NoSeek(Minimal):
    seek = None


class NotReadable(io.BytesIO):
    def readable(self):
        return False


class NotSeekable(io.BytesIO):
    def seekable(self):
        return False


@scenario("C10", quick=grid(kind=["nowrite", "writefails", "noread", "noseek", "notreadable", "notseekable", "number", "none", "frozen", "emptytuple", "onetuple", "nofile", "noname", "dataset"]))
def unsuitable(ctx, kind):
    """objects that cannot be written to or read from are refused"""
    with quiet():
        if kind == "frozen":
            a = WriteFails()
            ctx.dump(["x"], a)
            a.frozen = True
            e = ctx.raises(ctx.dump, 1, a, ctx.choice("mode", ["w", "a", "x", "r+"]), path=ctx.choice("path", ["/", "q"]))
            ctx.check(isinstance(e, ctx.need(ctx.mod("hickle.fileio"), "FileError")), "dump to an object that cannot be written: %r" % (e,))
            ctx.check_same(ctx.load(a), ["x"], "loaded object differs")
            return
        if kind == "dataset":
            fn = ctx.file("f.h5")
            with ctx.h5.File(fn, "w") as h:
                a = h.create_dataset("d", data=1)
                ctx.check(ctx.raises(ctx.dump, 1, a, "w") is not None, "dump to a dataset succeeded")
                ctx.check(bool(h) and int(a[()]) == 1, "dataset changed")
            return
        a = {"nowrite": NoWrite, "writefails": WriteFails, "noread": NoRead, "noseek": NoSeek, "notreadable": NotReadable, "notseekable": NotSeekable, "number": lambda: 5, "none": lambda: None,
             "emptytuple": lambda: (), "onetuple": lambda: (io.BytesIO(),), "nofile": lambda: {"name": "n"}, "noname": lambda: {"file": io.BytesIO()}}[kind]()
        if kind == "writefails":
            a.frozen = True
        e = ctx.raises(ctx.dump, 1, a, ctx.choice("mode", ["w", "a", "x", "r+"]))
        ctx.check(e is not None, "unsuitable file object accepted for dump")
        if kind not in ("nowrite", "writefails"):
            e = ctx.raises(ctx.load, a)
            ctx.check(e is not None, "unsuitable file object accepted for load")


@scenario("C10", quick=grid(how=["nodir", "isdir", "missing"]))
def missing_places(ctx, how):
    """names that cannot be opened raise and create nothing"""
    fn = {"nodir": ctx.file("no/such/f.h5"), "missing": ctx.file("g.h5"), "isdir": ctx.file("")[:-1]}[how]
    arg = fn if ctx.choice("arg", ["str", "path"]) == "str" else Path(fn)
    held = ctx.open_handles()
    e = ctx.raises(ctx.load, arg)
    ctx.check(e is not None, "load of a missing file returned")
    ctx.check(ctx.exists(fn) == (how == "isdir"), "load created a file")
    if how != "missing":
        e = ctx.raises(ctx.dump, 1, arg, ctx.choice("mode", ["w", "a", "x", "r+"]))
        ctx.check(e is not None, "dump to an impossible place succeeded")
    ctx.check(ctx.open_handles() == held, "file left open")


@scenario("C10", quick=grid(depth=sizes(24, [0, 1, 2, 3, 5, 9]), below=[0, 1, 4], kind=["list"]), thorough=grid(depth=sizes(40, [0, 1, 2, 3, 5, 9, 17]), below=[0, 1, 2, 4, 9], kind=["int", "list", "dict"]))
def nested_groups(ctx, depth, below, kind):
    """the object lies at the path below the passed group, however deep the group and the path are"""
    x, y = content(ctx, kind, "x"), content(ctx, kind, "y")
    fn = ctx.file("f.h5")
    name = ctx.choice("name", ["g", "data", "\xe9 b"])
    lead, trail = ctx.choice("lead", [False, True]), ctx.choice("trail", [False, True])
    base = "/" + "/".join("%s%d" % (name, i) for i in range(depth))
    rel = "/".join("p%d" % i for i in range(below))
    path = ("/" if lead or not below else "") + rel + ("/" if trail and below else "")
    full = (base.rstrip("/") + "/" + rel).rstrip("/") or "/"
    with quiet():
        with ctx.h5.File(fn, "w") as h:
            g = h.require_group(base) if depth else h
            held = ctx.open_handles()
            ctx.dump(x, g, "a", path=path)
            ctx.check(ctx.open_handles() == held, "dump left a file open or closed one")
            ctx.check(full in h and "data" in h[full] and "HICKLE_VERSION" in h[full].attrs, "object not stored below the passed group")
            if full != "/":
                ctx.check("HICKLE_VERSION" not in h.attrs, "object stored at the root of the file")
                ctx.dump(y, h, "a", path="zz/other")
            ctx.check_same(ctx.load(g, path=path), x, "object loaded by group differs")
        ctx.check_same(ctx.load(fn, path=full), x, "object loaded by its full path differs")
        if full != "/":
            ctx.check_same(ctx.load(fn, path="/zz/other/"), y, "other object differs")
