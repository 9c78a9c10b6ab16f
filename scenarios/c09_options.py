"""C09: compression and other dataset options never change what is loaded."""
import numpy as np
from sx.harness import scenario, grid, quiet
from scenarios.types_ import Plain, MyStr, MyList, MyDict

KINDS = ["int", "bigint", "float", "complex", "bool", "none", "str", "emptystr", "bytes", "emptybytes", "mystr", "list", "numlist", "emptylist", "tuple", "emptytuple",
         "set", "numset", "emptyset", "dict", "emptydict", "oddkeys", "array", "array0", "emptyarray", "array2d", "boolarray", "strarray", "str0array", "bytesarray", "objarray", "emptystrarray",
         "emptyobjarray", "npscalar", "npstr", "npbytes", "dtype", "masked", "maskedscalar", "matrix", "structured", "plain", "shared", "mylist", "nested", "sparse", "obj0array"]


def obj(ctx, kind):
    if kind == "int":
        return ctx.int("x", -2 ** 62, 2 ** 62)
    if kind == "bigint":
        return ctx.choice("x", [2 ** 63, -2 ** 64, 10 ** 30])
    if kind == "float":
        return ctx.float("x")
    if kind == "complex":
        return ctx.complex("x")
    if kind == "bool":
        return ctx.choice("x", [True, False])
    if kind == "none":
        return None
    if kind == "str":
        return ctx.str("x", 1) + "tail"
    if kind == "bytes":
        return ctx.bytes("x", 2)
    if kind == "mystr":
        return MyStr("abc")
    if kind == "list":
        return [ctx.int("x"), "a", None, b"q"]
    if kind == "numlist":
        return [ctx.float("x"), 1.0, 2.0]
    if kind == "tuple":
        return (ctx.int("x"), "a")
    if kind == "set":
        return {1, "a", None}
    if kind == "numset":
        return ctx.set([ctx.int("x", 5, 100), 1])
    if kind == "dict":
        return {"k": ctx.int("x"), "t": "v"}
    if kind == "oddkeys":
        return ctx.dict([((1, "a"), ctx.int("x")), ("a/b", 2), (None, 3), (b"\0", [])])
    if kind == "array":
        return ctx.array("x", "f8", (3,))
    if kind == "array0":
        return ctx.array("x", "i4", ())
    if kind == "array2d":
        return ctx.array("x", "i2", (2, 2))
    if kind == "boolarray":
        return ctx.array("x", "?", (2,))
    if kind == "strarray":
        return ctx.array("x", "U1", (2,))
    if kind == "bytesarray":
        return ctx.array("x", "S2", (2,))
    if kind == "npscalar":
        return ctx.float("x", cls=np.float32)
    if kind == "masked":
        return ctx.masked(ctx.array("x", "f8", (2,)), ctx.array("m", "?", (2,)))
    if kind == "objarray":
        a = np.empty((2,), object)
        a[0], a[1] = [1, 2], "s"
        return a
    if kind == "obj0array":
        a = np.empty((), object)
        a[()] = (1, "s")
        return a
    if kind == "shared":
        x = [ctx.int("x"), "s"]
        return [x, x, {"k": x}]
    if kind == "nested":
        return {"a": [np.arange(3), ("t", [1, 2, 3], {})], "b": "text", "c": {"d": [None, True, 1.5]}}
    if kind == "sparse":
        import scipy.sparse as sp
        return sp.csr_matrix(np.array([[1, 0], [0, 2.5]]))
    return {"emptystr": "", "emptybytes": b"", "emptylist": [], "emptytuple": (), "emptyset": set(), "emptydict": {}, "emptyarray": np.zeros((0, 2)), "str0array": np.array("a\xe9"),
            "emptystrarray": np.empty((0, 2), "U3"), "emptyobjarray": np.empty((0,), object), "npstr": np.str_("ab"), "npbytes": np.bytes_(b"ab"), "dtype": np.dtype("f4"),
            "maskedscalar": np.ma.array([1, 2]), "matrix": np.matrix([[1, 2]]), "structured": np.zeros((2,), [("a", "i4"), ("b", "f8")]), "plain": Plain("v"), "mylist": MyList([1, "a"])}[kind]


def options(ctx, small):
    o = {}
    comp = ctx.choice("compression", [None, "gzip", "lzf"] if small else [None, "gzip", "lzf", True, 5])
    if comp is not None:
        o["compression"] = comp
        if comp == "gzip":
            lv = ctx.choice("level", [None, 0, 9] if not small else [None, 9])
            if lv is not None:
                o["compression_opts"] = lv
    if ctx.choice("shuffle", [False, True]):
        o["shuffle"] = True
    if ctx.choice("fletcher32", [False, True]):
        o["fletcher32"] = True
    if ctx.choice("chunks", [False, True]):
        o["chunks"] = True
    return o


@scenario("C09", quick=grid(kind=KINDS, small=[True]), thorough=grid(kind=KINDS, small=[False]))
def same_object(ctx, kind, small):
    x = obj(ctx, kind)
    kw = options(ctx, small)
    f0, f1 = ctx.file("plain.h5"), ctx.file("opt.h5")
    with quiet():
        ctx.dump(x, f0)
        ctx.dump(x, f1, **kw)
        r0, r1 = ctx.load(f0), ctx.load(f1)
    ctx.check_same(r1, x, "object stored with %s differs" % sorted(kw))
    ctx.check_same(r1, r0, "object stored with %s differs from the one stored without" % sorted(kw), numeric=False)


ASTRO = ["quantity", "quantity_array", "angle", "time", "time_array", "time_str", "time_str_array", "skycoord", "skycoord_array", "constant", "table", "table0"]


@scenario("C09", quick=grid(kind=ASTRO))
def astropy_objects(ctx, kind):
    import astropy.units as u
    from astropy.coordinates import Angle, SkyCoord
    from astropy.time import Time
    from astropy.table import Table
    import astropy.constants as K
    x = {"quantity": lambda: 1.5 * u.m, "quantity_array": lambda: [1.5, 2] * u.m, "angle": lambda: Angle(3.0, "deg"), "time": lambda: Time(51544.25, format="mjd"),
         "time_array": lambda: Time([51544.25, 51545.0], format="mjd"), "time_str": lambda: Time("2000-01-01T00:00:00"), "time_str_array": lambda: Time(["2000-01-01T00:00:00"] * 2),
         "skycoord": lambda: SkyCoord(1.0, 2.0, unit="deg"), "skycoord_array": lambda: SkyCoord([1.0, 3.0], [2.0, 4.0], unit="deg"), "constant": lambda: K.c,
         "table": lambda: Table([np.arange(3), np.arange(3) * 1.5], names=["a", "b"], meta={"k": 1}), "table0": lambda: Table([np.arange(0)], names=["a"])}[kind]()
    kw = options(ctx, True)
    r = ctx.roundtrip([x, "s"], **kw)[0]
    ctx.check(r.__class__ is x.__class__, "class of object stored with options differs")
    if kind.startswith("table"):
        ok = r.colnames == x.colnames and all(bool(np.all(np.asarray(r[c]) == np.asarray(x[c]))) for c in x.colnames)
    elif kind.startswith("sky"):
        ok = bool(np.all(r.separation(x).rad < 1e-12))
    elif kind.startswith("time"):
        ok = bool(np.all(r.value == x.value)) and r.format == x.format
    else:
        ok = bool(np.all(r.value == x.value)) and r.unit == x.unit
    ctx.check(ok, "object stored with options differs")


def datasets(ctx, node):
    if isinstance(node, ctx.h5.Group):
        return [d for k in node for d in datasets(ctx, node[k])]
    return [node]


def holder(shape, x):
    """array of objects which holds x at its end"""
    a = np.empty(shape, object)
    a[tuple(n - 1 for n in shape)] = x
    return a


@scenario("C09", quick=grid(kind=["array", "array2d", "boolarray", "complexarray", "text", "numlist", "numtuple", "numset", "masked", "bigtext", "structured", "matrix", "csr", "csc", "bsr"], where=["top", "list", "dict", "deep"]) +
          grid(kind=["complexarray", "text", "numtuple", "bigtext", "masked", "csr"], where=["obj0", "obj1", "obj2", "pair", "pairkey", "nppair", "set", "subclass"]))
def really_filtered(ctx, kind, where):
    """the data is stored with the requested filters"""
    import scipy.sparse as sp
    kw = options(ctx, True)
    x = {"array": lambda: ctx.array("x", "f8", (7,)), "array2d": lambda: ctx.array("x", "i4", (7, 1)), "boolarray": lambda: ctx.array("x", "?", (7,)), "complexarray": lambda: np.zeros(7, "c16"),
         "text": lambda: "abcdef" + ctx.str("x", 1, ) if False else "abcdefg", "numlist": lambda: [ctx.float("x")] + [1.0] * 6, "numtuple": lambda: (1, 2, 3, 4, 5, 6, 7), "numset": lambda: set(range(7)),
         "masked": lambda: np.ma.array(np.arange(7), mask=[True] * 7), "bigtext": lambda: "x" * 5000, "structured": lambda: np.zeros(7, [("a", "i4")]), "matrix": lambda: np.matrix([[1], [2], [3], [4], [5], [6], [7]]),
         "csr": lambda: sp.csr_matrix(np.arange(1.0, 8)), "csc": lambda: sp.csc_matrix(np.arange(1.0, 8)[:, None]), "bsr": lambda: sp.bsr_matrix(np.arange(1.0, 8), blocksize=(1, 1))}[kind]()
    y = {"top": lambda: x, "list": lambda: [None, x], "dict": lambda: {"k": x}, "deep": lambda: {"a": [(1, "t", {"b": [x, "q"]})]},
         "obj0": lambda: holder((), x), "obj1": lambda: holder((2,), x), "obj2": lambda: [holder((1, 2), x)], "pair": lambda: {(1, "t"): x, "s/s": x}, "pairkey": lambda: {(x, "t"): 1} if kind in ("text", "bigtext", "numtuple") else {"a\\": x},
         "nppair": lambda: {np.int8(1): x}, "set": lambda: {x, None} if kind in ("text", "bigtext", "numtuple") else [x, {1}], "subclass": lambda: MyDict(k=MyList([x, "q"]))}[where]()
    f = ctx.file("f.h5")
    with quiet():
        ctx.dump(y, f, **kw)
    with ctx.h5.File(f, "r") as h:
        found = [d for d in datasets(ctx, h["data"]) if d.shape and 7 in d.shape or d.shape == (1, 5000)]
        ctx.check(bool(found), "data not found in the file")
        for d in found:
            ctx.check(d.compression == kw.get("compression"), "data not stored with the requested compression")
            if "compression_opts" in kw:
                ctx.check(d.compression_opts == kw["compression_opts"], "data not stored with the requested compression level")
            ctx.check(bool(d.shuffle) == bool(kw.get("shuffle", False)) or d.dtype.itemsize == 1, "data not stored with the requested shuffle filter")
            ctx.check(bool(d.fletcher32) == bool(kw.get("fletcher32", False)), "data not stored with the requested checksum")
            if kw:
                ctx.check(d.chunks is not None, "data not stored in chunks")


@scenario("C09", quick=grid(kind=["array", "list", "text", "dict", "plain"]))
def second_dump_without(ctx, kind):
    """options of one dump do not leak into the next one"""
    x = {"array": np.arange(7), "list": [1.0] * 7, "text": "abcdefg", "dict": {"k": np.arange(7)}, "plain": Plain("v" * 7)}[kind]
    f = ctx.file("f.h5")
    kw = options(ctx, True)
    with quiet():
        ctx.dump(x, f, path="/a", **kw)
        ctx.dump(x, f, "a", path="/b")
        r = ctx.load(f, path="/b")
    ctx.check_same(r, x, "object read back differs")
    with ctx.h5.File(f, "r") as h:
        for d in datasets(ctx, h["b"]):
            ctx.check(d.compression is None and not d.shuffle and not d.fletcher32 and d.chunks is None, "options of an earlier dump applied")
