"""C13: load never changes the file and refuses what is not a hickle file."""
import io
import pickle
import numpy as np
from pathlib import Path
from sx.harness import scenario, grid, quiet
from scenarios.types_ import Plain, MyList, MyDict, MyStr
from scenarios.faulty_ import WontUnpickle
from scenarios.legacy_ import V3
from scenarios.legacy_ import V4

KINDS = ["num", "list", "numlist", "dict", "shared", "sub", "plain", "array", "objarray", "masked", "text", "bytes", "set", "complex", "none", "structured", "sparse", "strarray", "v4", "v4dict", "broken"]


def store(ctx, kind, arg, mode, path):
    x = ctx.int("x", -9, 9)
    if kind in ("v4", "v4dict"):
        f = arg if isinstance(arg, ctx.h5.Group) else ctx.h5.File(arg, "a" if mode == "a" else "w")
        r = V4(ctx, f, path)
        y = [x, "a"] if kind == "v4" else {"k": x, "l": [x]}
        r.dump(y)
        if f is not arg:
            f.close()
        return y
    sh = ["s", x]
    a = np.empty((2,), object)
    a[0], a[1] = "t", [1, x]
    import scipy.sparse as sp
    y = {"num": lambda: x, "list": lambda: [x, "a", None], "numlist": lambda: [x, 1, 2], "dict": lambda: {"k": x, (1, "a"): b"b"}, "shared": lambda: [sh, {"q": sh}, sh], "sub": lambda: MyList([MyStr("v"), x, MyDict({"a": x})]),
         "plain": lambda: [Plain("v"), x], "array": lambda: [np.arange(3), x, "t"], "objarray": lambda: a, "masked": lambda: np.ma.array([1, 2], mask=[True, False]), "text": lambda: "text", "bytes": lambda: b"by",
         "set": lambda: {1, "a"}, "complex": lambda: 1 + 2j, "none": lambda: None, "structured": lambda: np.zeros(2, [("a", "i4")]), "sparse": lambda: sp.csr_matrix(np.eye(2)), "strarray": lambda: np.array(["a", "bc"]),
         "broken": lambda: ["a", WontUnpickle(ValueError)]}[kind]()
    ctx.dump(y, arg, mode, path=path)
    return y


@scenario("C13", quick=grid(kind=KINDS, how=["name", "path", "r", "r+", "group", "rgroup"]) + grid(kind=KINDS[:-3] + ["broken"], how=["mem"]))
def unchanged(ctx, kind, how):
    """loading leaves the file as it is"""
    fn = ctx.file("f.h5")
    path = ctx.choice("path", ["/", "p", "g/p"])
    with quiet():
        arg = io.BytesIO() if how == "mem" else fn
        y = store(ctx, kind, arg, "a", path)
        h = None
        if how in ("r", "r+"):
            h = give = ctx.h5.File(fn, how)
        elif how in ("group", "rgroup"):
            h = ctx.h5.File(fn, "r+" if how == "group" else "r")
            give = h["/"]
        elif how == "path":
            give = Path(fn)
        else:
            give = arg
        for i in range(2):
            before = ctx.tree(h) if h is not None else None
            state = ctx.file_state(arg) if how != "r+" and how != "group" else None
            if kind == "broken":
                e = ctx.raises(ctx.load, give, path=path)
                ctx.check(e is not None, "broken object loaded")
            else:
                ctx.check_same(ctx.load(give, path=path), y, "object differs")
            if h is not None:
                ctx.check_same(ctx.tree(h), before, "load changed the file", numeric=False)
            if state is not None:
                ctx.check(ctx.file_state(arg) == state, "load changed the file")
        if h is not None:
            h.close()


ATTRS = ["HICKLE_VERSION", "HICKLE_PYTHON_VERSION", "CLASS", "VERSION", "PYTHON_VERSION"]


@scenario("C13", quick=grid(where=["/", "p"], how=["name", "r+"]))
def attributes(ctx, where, how):
    """a group is loaded only if it carries the attributes of a hickle file"""
    fn = ctx.file("f.h5")
    x = [ctx.int("x", -9, 9), "a"]
    with quiet():
        ctx.dump(x, fn, path=where)
        with ctx.h5.File(fn, "r+") as h:
            g = h[where]
            v = ctx.choice("v", ["keep", "drop", "empty"])
            p = ctx.choice("p", ["keep", "drop", "empty"])
            for name, what in (("HICKLE_VERSION", v), ("HICKLE_PYTHON_VERSION", p)):
                if what == "drop":
                    del g.attrs[name]
                elif what == "empty":
                    g.attrs[name] = ""
            c3 = ctx.choice("v3", ["none", "part", "wrongclass", "version2", "version4", "versionx"])
            if c3 != "none":
                h.attrs["CLASS"] = b"hickle" if c3 != "wrongclass" else b"pickle"
                h.attrs["VERSION"] = {"version2": b"2.0.3", "version4": b"4.0.0", "versionx": b"x"}.get(c3, b"3.4.5")
                if c3 != "part":
                    h.attrs["PYTHON_VERSION"] = b"3.7.0"
        arg = fn if how == "name" else ctx.h5.File(fn, "r+")
        before = ctx.file_state(fn) if how == "name" else ctx.tree(arg)
        e = ctx.raises(ctx.load, arg, path=where)
        ok = v == p == "keep" and c3 in ("none", "part")
        if ok:
            ctx.check(e is None, "file refused: %r" % (e,))
            ctx.check_same(ctx.load(arg, path=where), x, "object differs")
        else:
            ctx.check(e is not None, "file without proper attributes loaded")
        if how == "name":
            ctx.check(ctx.file_state(fn) == before, "load changed the file")
        else:
            ctx.check_same(ctx.tree(arg), before, "load changed the file", numeric=False)
            arg.close()


@scenario("C13", quick=grid(n=[1, 2]), thorough=grid(n=[1, 2, 3]))
def version_text(ctx, n):
    """any version text: a number is needed"""
    fn = ctx.file("f.h5")
    v = ctx.str("v", n)
    for c in v:
        ctx.assume(ctx.truth(c < "\x80"))
    ctx.assume(not ctx.truth("\0" in v))
    with quiet():
        ctx.dump(["a", 1], fn)
        with ctx.h5.File(fn, "r+") as h:
            h.attrs["HICKLE_VERSION"] = v + ".1.2"
        e = ctx.raises(ctx.load, fn)
        digit = False
        for c in v:
            if ctx.truth(c >= "0") and ctx.truth(c <= "9"):
                digit = True
        if not digit:
            ctx.check(e is not None, "file without a version number loaded")
        elif ctx.truth(v == "5" + "0" * 0) or ctx.truth(v == "5"):
            ctx.check(e is None, "file refused: %r" % (e,))


@scenario("C13", quick=grid(what=["missing", "dataset", "nodata", "datainside", "typetable", "foreign", "dumpedelsewhere", "emptygroup", "empty", "attrs_only"], how=["name", "r", "r+", "mem"]))
def not_an_object(ctx, what, how):
    """paths which do not hold an object"""
    fn = ctx.file("f.h5")
    x = [ctx.int("x", -9, 9), ["a"]]
    arg = io.BytesIO() if how == "mem" else fn
    with quiet():
        if what != "empty":
            ctx.dump(x, arg, path="obj")
        f = ctx.h5.File(arg, "a")
        path = {"missing": "nothing/here", "dataset": "d", "nodata": "obj", "datainside": "obj/data", "typetable": "obj/hickle_types_table", "foreign": "g", "dumpedelsewhere": "/", "emptygroup": "e", "empty": "/", "attrs_only": "t"}[what]
        f.create_dataset("d", data=5)
        f.create_group("g").create_dataset("data", data=[1, 2])
        f.create_group("e")
        f.create_group("t").attrs["HICKLE_VERSION"] = "5.0.3"
        f["t"].attrs["HICKLE_PYTHON_VERSION"] = "3.12.3"
        if what == "nodata":
            del f["obj"]["data"]
        f.close()
        give = arg if how in ("name", "mem") else ctx.h5.File(fn, how)
        before = ctx.tree(give) if how in ("r", "r+") else ctx.file_state(arg)
        kw = {"path": path} if ctx.choice("slash", [False, True]) else {"path": "/" + path.lstrip("/")}
        e = ctx.raises(ctx.load, give, **kw)
        ctx.check(e is not None, "something that is no object was loaded")
        if how in ("r", "r+"):
            ctx.check_same(ctx.tree(give), before, "refused load changed the file", numeric=False)
            give.close()
        else:
            ctx.check(ctx.file_state(arg) == before, "refused load changed the file")
        if what not in ("empty", "nodata"):
            ctx.check_same(ctx.load(arg, path="obj"), x, "object differs")


@scenario("C13", quick=grid(content=["junk", "empty", "pickle", "text"], how=["str", "path", "mem"]))
def not_hdf5(ctx, content, how):
    fn = ctx.file("f.h5")
    data = {"junk": b"junk" * 1000, "empty": b"", "pickle": pickle.dumps([1, 2]), "text": b"\x89HDX"}[content]
    if how == "mem":
        arg = io.BytesIO(data)
    else:
        ctx.write_file(fn, data)
        arg = fn if how == "str" else Path(fn)
    held = ctx.open_handles()
    e = ctx.raises(ctx.load, arg)
    ctx.check(e is not None, "something that is not HDF5 was loaded")
    ctx.check(ctx.open_handles() == held, "file left open")
    ctx.check((arg.getvalue() if how == "mem" else ctx.file_state(fn)) == data, "load changed a file which is not HDF5")


@scenario("C13", quick=grid(n=[1, 2], m=[0, 1]), thorough=grid(n=[1, 2, 3, 6], m=[0, 1, 2]))
def v3_class_and_version(ctx, n, m):
    """files of hickle 3.x are recognised by class and version, whatever else these say"""
    fn = ctx.file("v3.h5")
    x = [ctx.int("x", -9, 9), "a"]
    cls, ver = ctx.str("class", n), ctx.str("version", 1 + m)
    for t in (cls, ver):
        for c in t:
            ctx.assume(ctx.truth(c < "\x80") and ctx.truth(c > "\0"))
    right = ctx.choice("right", [True, False])
    with quiet():
        with ctx.h5.File(fn, "w") as h:
            V3(ctx, h).dump(x)
            h.attrs["CLASS"] = "hickle" if right else cls if n < 6 else "hickl" + cls[:1]
            h.attrs["VERSION"] = ver
        if n >= 6 and not right:
            ctx.assume(not ctx.truth(cls[:1] == "e"))
        e = ctx.raises(ctx.load, fn)
        if right and ctx.truth(ver[:1] == "3"):
            ctx.check(e is None, "file of hickle 3.x refused: %r" % (e,))
            ctx.check_same(ctx.load(fn), x, "object differs")
        else:
            ctx.check(e is not None, "file which is no hickle 3.x file loaded")


@scenario("C13", quick=grid(how=["name", "r+", "group"], path=["/", "p"]))
def v3_attributes(ctx, how, path):
    """all attributes of a hickle 3.x file have to be there"""
    fn = ctx.file("v3.h5")
    x = [ctx.int("x", -9, 9), "a"]
    with quiet():
        with ctx.h5.File(fn, "w") as h:
            V3(ctx, h, path).dump(x)
            w = [ctx.choice(k, ["keep", "drop", "empty"]) for k in ("CLASS", "VERSION", "PYTHON_VERSION")]
            for k, what in zip(("CLASS", "VERSION", "PYTHON_VERSION"), w):
                if what == "drop":
                    del h.attrs[k]
                elif what == "empty":
                    h.attrs[k] = ""
        f = arg = fn if how == "name" else ctx.h5.File(fn, "r+" if how == "r+" else "r")
        before = ctx.file_state(fn) if how == "name" else ctx.tree(f)
        if how == "group":
            arg = f["/"]
        e = ctx.raises(ctx.load, arg, path=path)
        if w == ["keep"] * 3:
            ctx.check(e is None, "file of hickle 3.x refused: %r" % (e,))
            ctx.check_same(ctx.load(arg, path=path), x, "object differs")
        else:
            ctx.check(e is not None, "file without proper attributes loaded")
        if how == "name":
            ctx.check(ctx.file_state(fn) == before, "load changed the file")
        else:
            ctx.check_same(ctx.tree(f), before, "load changed the file", numeric=False)
            f.close()
