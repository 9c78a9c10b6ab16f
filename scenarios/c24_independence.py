"""C24: dump leaves its arguments as they are, loaded objects belong to the caller alone."""
import os
import io
import numpy as np
from sx.harness import scenario, grid, quiet
from scenarios.types_ import Plain, MyList, MyDict, MySet, MyStr

KINDS = ["list", "numlist", "tuple", "dict", "keys", "set", "array", "farray", "strided", "readonly", "strarray", "objarray", "obj2d", "bytesarray", "matrix", "masked", "hardmask", "csr", "csc", "bsr", "plain", "mylist",
         "mydict", "shared", "big", "swapped", "struct", "dates", "subview"]


def numbers(ctx):
    return {"i": ctx.int("i"), "j": ctx.int("j", -9, 9), "f": ctx.float("f"), "a": ctx.array("a", "i8", (3,)), "g": ctx.array("g", "f8", (2,)), "m": ctx.array("m", "?", (2,)), "s": ctx.str("s", 1)}


def build(ctx, kind, v):
    """object made of the given values; equal ones for equal values"""
    if kind == "list":
        return [v["i"], "x", [v["f"], None], ()]
    if kind == "numlist":
        return [v["f"], 1, 2.5]
    if kind == "tuple":
        return (v["i"], ["y", v["s"]], {"k": [v["j"], "z"]})
    if kind == "dict":
        return {"z": [v["i"], "x"], "a": {"q": v["f"]}, 3: "t"}
    if kind == "keys":
        return ctx.dict([((1, "a"), [v["i"], "x"]), (v["s"], "v"), (None, {}), (b"b/", [])])
    if kind == "set":
        return ctx.set([v["i"], "x", (1, "y")])
    if kind == "array":
        return v["a"].copy()
    if kind == "farray":
        return np.asfortranarray(np.arange(6.0).reshape(2, 3))
    if kind == "strided":
        return np.arange(10)[7:0:-2]
    if kind == "readonly":
        x = np.arange(4)
        x.flags.writeable = False
        return x
    if kind == "strarray":
        return np.array([["ab", "c"], ["", "\xe9"]])
    if kind == "bytesarray":
        return np.array([b"ab", b"c"])
    if kind == "objarray":
        x = np.empty((3,), dtype=object)
        x[0], x[1], x[2] = [v["i"], "x"], {"k": [1, "a"]}, None
        return x
    if kind == "obj2d":
        x = np.empty((2, 2), dtype=object)
        x[0, 0], x[0, 1], x[1, 0], x[1, 1] = [1, "x"], 2, "y", (3, [4, "q"])
        return x
    if kind == "matrix":
        return np.matrix([[1, 2], [3, 4]])
    if kind == "masked":
        return ctx.masked(v["g"].copy(), v["m"].copy())
    if kind == "hardmask":
        return np.ma.array([1, 2, 3], mask=[True, False, True], hard_mask=True, fill_value=7)
    if kind in ("csr", "csc", "bsr"):
        import scipy.sparse as sp
        cls = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "bsr": sp.bsr_matrix}[kind]
        # indices which are neither sorted nor unique, and a stored zero
        data = np.array([1.5, 0.0, 2.5, 4.0]) if kind != "bsr" else np.array([1.5, 0.0, 2.5, 4.0]).reshape(4, 1, 1)
        return cls((data, np.array([2, 0, 2, 1], dtype="i4"), np.array([0, 3, 3, 4], dtype="i4")), shape=(3, 3))
    if kind == "plain":
        return Plain([1, "x", {"k": 2}])
    if kind == "mylist":
        return MyList([v["i"], MyList([1, "a"]), MyStr("q")])
    if kind == "mydict":
        return MyDict({"k": MyDict({"l": [v["i"], "x"]})})
    if kind == "shared":
        s = [v["i"], "s"]
        return [s, {"k": s}, (s, "t")]
    if kind == "big":
        return [2 ** 70, -2 ** 64, {"k": 2 ** 99}, v["i"]]
    if kind == "swapped":
        return np.array([1, 2, 300], dtype=">i4")
    if kind == "struct":
        return np.array([(1, 2.5), (3, 4.5)], dtype=[("a", "i4"), ("b", "f8")])
    if kind == "dates":
        return np.array(["2020-01-01", "NaT"], dtype="M8[D]")
    if kind == "subview":
        return np.arange(12, dtype="i2").reshape(3, 4)[1:, ::2]
    raise ValueError(kind)


def items(x):
    """objects directly held"""
    if isinstance(x, Plain):
        return [x.v]
    if isinstance(x, dict) or type(x).__name__ == "SDict":
        return list(x.keys()) + list(x.values())
    if isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ == "SSet":
        return list(x)
    if isinstance(x, np.ndarray) and x.dtype.kind == "O":
        return list(x.ravel())
    return []


def parts(x, seen=None):
    """all objects reachable from x in a fixed order"""
    out = [x]
    for y in items(x):
        out.extend(parts(y))
    return out


def sparse(x):
    return type(x).__name__ in ("csr_matrix", "csc_matrix", "bsr_matrix")


def mutable(x):
    return isinstance(x, (list, dict, set, np.ndarray, Plain)) or type(x).__name__ in ("SDict", "SSet", "SymArray", "SymMasked", "SymSparse") or sparse(x)


def details(x):
    """what may change in an array besides its elements"""
    out = []
    for y in parts(x):
        if sparse(y):
            out.append((y.format, y.shape, bool(y.has_sorted_indices) if isinstance(y.indptr, np.ndarray) else None, [str(y.data.dtype), str(y.indices.dtype), str(y.indptr.dtype)]))
        elif isinstance(y, np.ndarray):
            out.append((str(y.dtype), y.shape, y.strides, y.flags.writeable, type(y)))
            if isinstance(y, np.ma.MaskedArray):
                out.append((y.hardmask, repr(y.fill_value), y.mask.tolist(), y.sharedmask))
    return out


def same_parts(p, q):
    return len(p) == len(q) and all([a is b for a, b in zip(p, q)])


@scenario("C24", quick=grid(kind=KINDS, kw=[{}, {"compression": "gzip"}]) + grid(kind=["list", "dict", "array", "masked", "csr", "plain"], kw=[{"path": "a/b"}, {"mode": "a"}]))
def dumped_object(ctx, kind, kw):
    """the dumped object is what it was, down to the objects it holds, however often it is dumped"""
    v = numbers(ctx)
    x, twin = build(ctx, kind, v), build(ctx, kind, v)
    held, how = parts(x), details(x) if not ctx.symbolic or kind not in ("array", "masked") else None
    options = dict(kw)
    for i in (0, 1):
        with quiet():
            ctx.dump(x, ctx.file("f%d.h5" % i), **options)
        ctx.check_same(x, twin, "dumping changed the object", numeric=False)
        ctx.check(same_parts(parts(x), held), "dumping replaced objects held by the dumped one")
        ctx.check(how is None or details(x) == how, "dumping changed properties of the object")
        ctx.check(options == kw, "dumping changed the arguments")
    with quiet():
        p = {"path": kw["path"]} if "path" in kw else {}
        a, b = ctx.load(ctx.file("f0.h5"), **p), ctx.load(ctx.file("f1.h5"), **p)
    ctx.check_same(b, a, "second dump of the same object differs from the first one")


def change(ctx, x):
    """changes everything that can be changed"""
    n = 0
    for y in parts(x):
        if isinstance(y, Plain):
            y.v = "changed"
        elif type(y).__name__ in ("SymArray",) or isinstance(y, np.ndarray) and not isinstance(y, np.ma.MaskedArray):
            if y.size:
                y[(0,) * y.ndim] = np.zeros((), y.dtype)[()] if y.dtype.kind not in "OUS" else "!" if y.dtype.kind != "S" else b"!"
        elif type(y).__name__ == "SymMasked" or isinstance(y, np.ma.MaskedArray):
            continue
        elif sparse(y):
            y.data[0] = 99
            y.indices[0] = 1
        elif isinstance(y, list):
            y.append("changed")
        elif type(y).__name__ in ("SDict",) or isinstance(y, dict):
            y["changed"] = 1
        elif type(y).__name__ in ("SSet",) or isinstance(y, set):
            y.add("changed")
        else:
            continue
        n += 1
    return n


@scenario("C24", quick=grid(kind=KINDS, how=["name", "handle"]))
def loaded_object(ctx, kind, how):
    """every load hands out objects of its own; changes of them reach neither the file nor other objects"""
    v = numbers(ctx)
    x, twin = build(ctx, kind, v), build(ctx, kind, v)
    f = ctx.file("f.h5")
    with quiet():
        ctx.dump([x, "end"], f, "w")
        h = f if how == "name" else ctx.h5.File(f, "r+")
        try:
            a, b = ctx.load(h)[0], ctx.load(h)[0]
            ctx.check_same(a, twin, "loaded object differs")
            ctx.check_same(b, twin, "object loaded again differs")
            own = [id(y) for y in parts(a) if mutable(y)]
            ctx.check(not any(id(y) in own for y in parts(b) if mutable(y)), "two loads hand out one object")
            theirs = [id(y) for y in parts(x) if mutable(y)]
            ctx.check(not any(i in theirs for i in own), "load hands out the dumped object itself")
            change(ctx, a)
            ctx.check_same(b, twin, "change of a loaded object shows up in another one")
            ctx.check_same(x, twin, "change of a loaded object shows up in the dumped one", numeric=False)
            ctx.check_same(ctx.load(h)[0], twin, "change of a loaded object reached the file")
        finally:
            if how == "handle":
                h.close()
    ctx.check_same(b, twin, "loaded object changed when the file was closed")


@scenario("C24", quick=grid(kind=KINDS))
def dumped_then_changed(ctx, kind):
    """what is stored is the object as it was when it was dumped, the file may be gone when the object is used"""
    v = numbers(ctx)
    x, twin = build(ctx, kind, v), build(ctx, kind, v)
    f, g = ctx.file("f.h5"), ctx.file("g.h5")
    with quiet():
        with ctx.h5.File(f, "w") as h:
            ctx.dump([x, "end"], h)
            if kind not in ("readonly",):
                change(ctx, x)
            ctx.check_same(ctx.load(h)[0], twin, "change of the object after dump reached the file")
        r = ctx.load(f)[0]
        ctx.dump(["other"], f, "w")
        ctx.check_same(r, twin, "loaded object changed when the file was written again")
        # and it can be dumped like any other object
        ctx.dump(r, g, "w")
        ctx.check_same(ctx.load(g), twin, "loaded object dumped again differs")


@scenario("C24", quick=grid(what=["dict", "tuple", "dictname", "bytesio"], kind=["list", "array"]))
def file_argument(ctx, what, kind):
    """descriptions of files passed as argument can be used again"""
    v = numbers(ctx)
    x = build(ctx, kind, v)
    n = ctx.file("f.h5")
    with quiet():
        if what == "bytesio":
            f = io.BytesIO()
            copy = f
        elif what == "dict":
            f = {"file": io.BytesIO(), "name": "n.h5"}
            copy = dict(f)
        elif what == "dictname":
            f = {"name": n, "file": io.BytesIO()}
            copy = dict(f)
        else:
            f = (io.BytesIO(), "n.h5")
            copy = tuple(f)
        ctx.dump(x, f, "w")
        ctx.check(f == copy and (not isinstance(f, dict) or list(f) == list(copy)), "dump changed the description of the file")
        ctx.check_same(ctx.load(f), x, "object differs")
        ctx.check(f == copy and (not isinstance(f, dict) or list(f) == list(copy)), "load changed the description of the file")
        ctx.check_same(ctx.load(f), x, "object differs when loaded again")


def astropy_object(kind):
    import astropy.units as U
    from astropy.coordinates import Angle, SkyCoord, Longitude
    from astropy.table import Table
    from astropy.time import Time
    if kind == "table":
        t = Table({"b": [1, 2, 3], "a": [1.5, 2.5, -0.5]}, masked=True, meta={"z": 1, "name": "n", "list": [1, "x"], "d": {"k": 2}})
        t["a"].unit = "m"
        t["b"].mask = [True, False, False]
        t["b"].description = "text"
        return t, lambda: [t.colnames, dict(t.meta), list(t.meta), id(t.meta["list"]), str(t["a"].unit), t["b"].mask.tolist(), t["a"].tolist(), t["b"].data.data.tolist(), t["b"].description, t.masked]
    if kind == "quantity":
        q = np.array([1.5, 2.5]) * U.km
        return q, lambda: [str(q.unit), q.value.tolist(), str(q.dtype), q.flags.writeable]
    if kind == "longitude":
        q = Longitude([350.0, 10.0], "deg", wrap_angle=180 * U.deg)
        return q, lambda: [str(q.unit), q.value.tolist(), str(q.wrap_angle), q.flags.writeable]
    if kind == "angle":
        q = Angle([1.5, 2.5], "hourangle")
        return q, lambda: [str(q.unit), q.value.tolist()]
    if kind == "time":
        t = Time(["2020-01-01T00:00:00.123", "2021-02-03"], format="isot", scale="tai", precision=5)
        return t, lambda: [t.format, t.scale, t.precision, t.value.tolist(), t.jd1.tolist(), t.jd2.tolist(), t.out_subfmt]
    if kind == "mtime":
        t = Time(np.ma.array([51544.0, 51545.5], mask=[True, False]), format="mjd")
        return t, lambda: [t.format, t.scale, np.asarray(t.mask).tolist(), np.ma.getdata(t.jd1)[1], t.jd2[1]]
    c = SkyCoord([1.0, 2.0] * U.deg, [3.0, 4.0] * U.rad * 0.1, frame="fk5", equinox="J1980")
    return c, lambda: [c.frame.name, c.data.lon.value.tolist(), c.data.lat.value.tolist(), str(c.equinox), str(c.data.lon.unit), str(c.data.lat.unit)]


@scenario("C24", quick=grid(kind=["table", "quantity", "longitude", "angle", "time", "mtime", "skycoord"]))
def dumped_astropy(ctx, kind):
    x, look = astropy_object(kind)
    before = look()
    twice = ctx.choice("twice", [0, 1])
    with quiet():
        ctx.dump([x, x] if twice else x, ctx.file("f.h5"), "w")
        ctx.check(look() == before, "dumping changed the object")
        r = ctx.load(ctx.file("f.h5"))
        r = r[0] if twice else r
        ctx.check(look() == before, "loading changed the dumped object")
        ctx.check(not np.may_share_memory(np.asarray(r["a"]), np.asarray(x["a"])) if kind == "table" else r is not x, "load hands out the dumped object itself")
