"""C18: files in the layout of hickle 4.x load with the same values as when written."""
import io
import numpy as np
from collections import OrderedDict
from sx.harness import scenario, grid, quiet
from sx.source import sizes
from scenarios.types_ import Plain, MyList, MyDict, MyTuple, MySet
from scenarios.legacy_ import V4


def through(ctx, x, path="/", version="4.0.1", how="put"):
    fn = ctx.file("v4.h5")
    with ctx.h5.File(fn, "w") as h:
        V4(ctx, h, path, version).dump(x)
    with quiet():
        return ctx.load(fn, path=path)


SCALARS = ["int", "bigint", "float", "complex", "bool", "none", "npint", "npfloat", "npcomplex", "npbool"]


def scalar(ctx, kind, name="x"):
    if kind == "int":
        return ctx.int(name, -2 ** 63, 2 ** 63 - 1)
    if kind == "bigint":
        return ctx.choice(name, [2 ** 63, -2 ** 63 - 1, 10 ** 40, -10 ** 25])
    if kind == "float":
        return ctx.float(name)
    if kind == "complex":
        return ctx.complex(name)
    if kind == "bool":
        return ctx.choice(name, [True, False])
    if kind == "npint":
        return ctx.int(name, cls=np.int16)
    if kind == "npfloat":
        return ctx.float(name, cls=np.float32)
    if kind == "npcomplex":
        return ctx.complex(name, cls=np.complex64)
    if kind == "npbool":
        return ctx.choice(name, [np.True_, np.False_])


@scenario("C18", quick=grid(kind=SCALARS, where=["top", "list", "tuple", "dict", "deep"], path=["/", "p/q"]))
def scalars(ctx, kind, where, path):
    x = scalar(ctx, kind)
    y = {"top": lambda: x, "list": lambda: ["t", x], "tuple": lambda: (x, "t"), "dict": lambda: {"k": x, "l": "t"}, "deep": lambda: {"a": [("b", {"c": [x, "q"]})]}}[where]()
    ctx.check_same(through(ctx, y, path), y, "object of the 4.0 file differs")


WHERE = ["top", "list", "dict", "set", "alike", "onlyone", "settext", "tupletext"]


def TEXTS(n):
    return [p for p in grid(kind=["str", "bytes"], n=n, where=WHERE) if p["n"] or p["where"] != "onlyone"]     # HDF5 has no zero length strings


@scenario("C18", quick=TEXTS([0, 1, 2]), thorough=TEXTS([0, 1, 2, 3]))
def texts(ctx, kind, n, where):
    x = ctx.str("x", n) if kind == "str" else ctx.bytes("x", n)
    zero, other = ("\0", "oth") if kind == "str" else (b"\0", b"oth")
    ctx.assume(not ctx.truth(zero in x))                               # HDF5 strings end at a NUL
    y = {"top": lambda: x, "list": lambda: [x, 1], "dict": lambda: {"k": x}, "set": lambda: ctx.set([x, 1]), "alike": lambda: [x, other, x], "onlyone": lambda: [x], "settext": lambda: ctx.set([x, other]),
         "tupletext": lambda: (x, other[:1], other[:0])}[where]()
    ctx.check_same(through(ctx, y), y, "object of the 4.0 file differs")


ITEMS = ["int", "float", "bool", "none", "str", "bytes", "list", "dict", "set", "numlist", "empty", "strlist"]


def item(ctx, kind, name):
    if kind in ("int", "float", "bool", "none"):
        return scalar(ctx, kind, name)
    return {"str": lambda: "a" + name, "bytes": lambda: b"b" + name.encode(), "list": lambda: [name, 1], "numlist": lambda: [ctx.int(name, -9, 9), 2], "dict": lambda: {name: 1, 2: "v"}, "set": lambda: {1, name},
            "empty": lambda: ctx.choice(name, [[], (), {}, set()]), "strlist": lambda: ["a", "b\xe9", ""]}[kind]()


@scenario("C18", quick=grid(cls=["list", "tuple", "dict", "set"], n=[1, 2], kinds=[ITEMS]) + grid(cls=["list"], n=[3], kinds=[ITEMS[:6], ["list", "dict", "set", "str"]]),
          thorough=grid(cls=["list", "tuple", "dict"], n=[3], kinds=[ITEMS]))
def containers(ctx, cls, n, kinds):
    """every mixture of items"""
    if cls == "set":
        kinds = [k for k in kinds if k not in ("list", "dict", "set", "numlist", "empty", "strlist", "float")]
    xs = [item(ctx, ctx.choice("k%d" % i, kinds), "x%d" % i) for i in range(n)]
    if cls == "set":
        for a in range(n):
            for b in range(a):
                ctx.assume(not ctx.truth(xs[a] == xs[b]))
    y = xs if cls == "list" else tuple(xs) if cls == "tuple" else {"key%d" % i: x for i, x in enumerate(xs)} if cls == "dict" else ctx.set(xs)
    ctx.check_same(through(ctx, y), y, "object of the 4.0 file differs")


@scenario("C18", quick=grid(cls=["list", "tuple", "dict"], n=sizes(150, [9, 10, 11, 12, 21, 101])), thorough=grid(cls=["list", "tuple", "dict"], n=list(range(1, 31)) + [99, 100, 101, 110, 120, 1001]))
def many_items(ctx, cls, n):
    """the position of every item is its number, also where names do not sort by number"""
    y = [i if i % 2 else str(i) for i in range(n)]
    i = ctx.int("i", 0, n - 1)
    marker = ctx.int("v", -2 ** 40, -1)
    for k in range(n):
        if ctx.truth(i == k):
            y[k] = [marker]
    y = y if cls == "list" else tuple(y) if cls == "tuple" else {"k%d" % (n - j): v for j, v in enumerate(y)}
    r = through(ctx, y)
    ctx.check_same(r, y, "items of the 4.0 container differ or changed their order")
    if cls == "dict":
        ctx.check([k for k in r] == [k for k in y], "order of keys differs")


KEYKINDS = ["str", "int", "bool", "float", "complex", "tuple", "none"]


def key(ctx, kind, name, n=1):
    if kind == "str":
        k = ctx.str(name, n)
        for c in "\0\\\n\r\t":
            ctx.assume(not ctx.truth(c in k))
        for i in range(n):
            c = k[i:i + 1]
            ctx.assume(ctx.truth(c >= " ") and (ctx.truth(c < "\x7f") or ctx.truth(c >= "\xc0")))
        ctx.assume(not (ctx.truth("'" in k) and (ctx.truth("/" in k) or ctx.truth('"' in k))))
        ctx.assume(not (ctx.truth("'" in k) and ctx.truth("/" in k)))
        return k
    if kind == "tuple":
        return ctx.choice(name, [(), (1,), (1, "a"), ("ab", 2.5), (True, None), ((1, 2), "x")])
    if kind == "none":
        return None
    return ctx.choice(name, {"int": [0, 1, -1, 10, 2 ** 63, -2 ** 70], "bool": [True, False], "float": [0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), 0.1], "complex": [1j, 1 + 2j, -1.5 - 2.5j]}[kind])


@scenario("C18", quick=grid(n=[0, 1, 2], kinds=[["str"]]) + grid(n=[1], kinds=[[k] for k in KEYKINDS[1:]]) + grid(n=[1], kinds=[[a, b] for a in KEYKINDS for b in KEYKINDS if a != "none" or b != "none"]))
def keys(ctx, n, kinds):
    ks = [key(ctx, k, "k%d" % i, n) for i, k in enumerate(kinds)]
    if len(ks) > 1:
        ctx.assume(not ctx.truth(ks[0] == ks[1]))
    y = ctx.dict([(k, [i, "v"]) for i, k in enumerate(ks)])
    ctx.check_same(through(ctx, y), y, "dict of the 4.0 file differs")


@scenario("C18", quick=grid(cls=["list", "dict", "tuple", "set", "ordered"]))
def subclasses(ctx, cls):
    x = ctx.int("x", -9, 9)
    y = {"list": lambda: MyList([x, "a"]), "dict": lambda: MyDict({"k": x}), "tuple": lambda: MyTuple((x, "t")), "set": lambda: MySet(["a", 1]), "ordered": lambda: OrderedDict([("b", 1), ("a", x)])}[cls]()
    r = through(ctx, [y, "end"])
    ctx.check(r[0].__class__ is y.__class__, "class of an object of the 4.0 file differs")
    ctx.check_same(r, [y, "end"], "object of the 4.0 file differs")


class Direct:
    """an object written by one of the methods of V4"""

    def __init__(self, fn):
        self.fn = fn


def write(ctx, w, g, name, fn, where):
    """fn(group, name) writes the object at some place"""
    if where == "top":
        fn(g, name)
    elif where == "list":
        s = w.mark(g.create_group(name), list, b"list")
        w.put(s, "data_0", "first")
        fn(s, "data_1")
        w.put(s, "data_2", 7)
    elif where == "twice":
        s = w.mark(g.create_group(name), tuple, b"tuple")
        fn(s, "data_0")
        fn(s, "data_1")
    else:
        s = w.mark(g.create_group(name), dict, b"dict")
        for i, k in enumerate("ab"):
            h = s.create_group("'%s'" % k)
            h.attrs["base_type"] = b"dict_item"
            h.attrs["key_base_type"] = b"str"
            h.attrs["key_idx"] = 1 - i
            if k == "a":
                fn(h, "data")
            else:
                w.put(h, "data", "second")


def placed(x, where):
    return {"top": lambda: x, "list": lambda: ["first", x, 7], "twice": lambda: (x, x), "dict": lambda: {"b": "second", "a": x}}[where]()


PLACES = ["top", "list", "dict", "twice"]


def direct(ctx, make, x, where, msg):
    fn = ctx.file("v4.h5")
    with ctx.h5.File(fn, "w") as h:
        w = V4(ctx, h)
        write(ctx, w, w.g, "data", lambda g, n: make(w, g, n), where)
    with quiet():
        r = ctx.load(fn)
    ctx.check_same(r, placed(x, where), msg)


@scenario("C18", quick=grid(dtype=["f8", "f4", "i1", "u8", "?", "c16", ">i4", "S2"], shape=[(2,), (0,), (2, 1)], where=PLACES) + grid(dtype=["f8", "i4", "?"], shape=[()], where=PLACES))
def arrays(ctx, dtype, shape, where):
    ctx.need(np, "dtype")
    if dtype == "S2" and shape == (0,) or dtype == ">i4":
        where = "top"
    x = ctx.array("x", dtype, shape)
    direct(ctx, lambda w, g, n: w.array(g, n, x), x, where, "array of the 4.0 file differs")


@scenario("C18", quick=grid(texts=[["hello", "i"], ["a", "b"], ["a"], ["xyz"], ["", "b"], "one", "o", [["a", "b"], ["c", "d"]], [["ab"], ["c"]]], where=PLACES))
def text_arrays(ctx, texts, where):
    x = np.array(texts)
    direct(ctx, lambda w, g, n: w.textarray(g, n, x), x, where, "array of texts of the 4.0 file differs")


@scenario("C18", quick=grid(dtype=["f8", "i4"], where=PLACES))
def masked(ctx, dtype, where):
    data, mask = ctx.array("x", dtype, (2,)), ctx.array("m", "?", (2,))
    x = ctx.masked(data, mask)
    direct(ctx, lambda w, g, n: w.masked(g, n, data, mask), x, where, "masked array of the 4.0 file differs")


@scenario("C18", quick=grid(fmt=["csr", "csc", "bsr"], where=PLACES))
def sparse(ctx, fmt, where):
    import scipy.sparse as sp
    cls = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "bsr": sp.bsr_matrix}[fmt]
    data = ctx.array("x", "f8", (2,) if fmt != "bsr" else (2, 1, 1))
    indices, indptr = np.array([0, 1], "i4"), np.array([0, 1, 2], "i4")
    x = ctx.sparse(cls, data, indices, indptr, (2, 2))
    direct(ctx, lambda w, g, n: w.sparse(g, n, cls, data, indices, indptr, (2, 2)), x, where, "sparse matrix of the 4.0 file differs")


@scenario("C18", quick=grid(where=PLACES, what=["plain", "range", "slice", "frozenset", "bytesdict"]))
def pickled(ctx, where, what):
    x = {"plain": lambda: Plain("v"), "range": lambda: range(3), "slice": lambda: slice(1, 2), "frozenset": lambda: frozenset({"a", 1}), "bytesdict": lambda: {b"a": 1, "k": [1, 2]}}[what]()
    direct(ctx, lambda w, g, n: w.pickled(g, n, x), x, where, "pickled object of the 4.0 file differs")


@scenario("C18", quick=grid(where=PLACES, what=["dict", "list", "text", "int"]))
def object_arrays(ctx, where, what):
    """stored as the list or the single object they hold"""
    x = ctx.choice("x", [0, 7, -2.5, "t", None])
    v = {"dict": lambda: {"k": x}, "list": lambda: [x, "a"], "text": lambda: "text", "int": lambda: x}[what]()
    fn = ctx.file("v4.h5")
    with ctx.h5.File(fn, "w") as h:
        w = V4(ctx, h)
        write(ctx, w, w.g, "data", lambda g, n: w.objarray(g, n, v), where)
    with quiet():
        r = ctx.load(fn)
    r = {"top": lambda: [r], "list": lambda: r[1:2], "dict": lambda: [r["a"]], "twice": lambda: list(r)}[where]()
    for a in r:
        ctx.check(a.__class__ is np.ndarray and a.dtype == object and a.shape == ((2,) if what == "list" else ()), "object array of the 4.0 file differs")
        ctx.check_same(a.tolist(), v, "item of the object array of the 4.0 file differs")


@scenario("C18", quick=grid(kind=["list", "dict", "text", "array", "shared", "custom", "none", "sub"], version=["4.1.0"]) + grid(kind=["list", "dict", "text", "array", "none"], version=["4.0.0", "4.0.4"]))
def later_4x(ctx, kind, version):
    """4.1.x already used the layout of today"""
    fn = ctx.file("v.h5")
    sh = ["s"]
    x = ctx.int("x", -9, 9)
    y = {"list": lambda: [x, "a", (None, b"b")], "dict": lambda: {"k": x, (1, 2): "t", "a/b": 3}, "text": lambda: ["text", "\xe9"], "array": lambda: [np.arange(3), "t"], "shared": lambda: [sh, sh, x], "custom": lambda: Plain("v"),
         "none": lambda: None, "sub": lambda: MyList([x, MyDict({"a": 1})])}[kind]()
    with quiet():
        ctx.dump(y, fn)
        with ctx.h5.File(fn, "r+") as h:
            h.attrs["HICKLE_VERSION"] = version
        r = ctx.load(fn)
    ctx.check_same(r, y, "object of the file differs")
    if kind == "shared":
        ctx.check(r[0] is r[1], "object referenced twice came back as two objects")


@scenario("C18", quick=grid(how=["name", "path", "r", "r+", "group", "subgroup", "mem"], version=["4.0.0", "4.0.4"]))
def handles(ctx, how, version):
    """all kinds of file arguments, file and handle stay as they are and usable"""
    from pathlib import Path
    fn = ctx.file("v4.h5")
    path = ctx.choice("path", ["/", "p", "g/p"])
    x = [ctx.int("x", -9, 9), "a", {"k": "\xe9"}]
    arg = io.BytesIO() if how == "mem" else fn
    with ctx.h5.File(arg, "w") as h:
        V4(ctx, h, path, version).dump(x)
    state = ctx.file_state(arg)
    held = ctx.open_handles()
    f = None
    if how in ("r", "r+"):
        f = give = ctx.h5.File(fn, how)
    elif how in ("group", "subgroup"):
        f = ctx.h5.File(fn, "r")
        give = f["/"] if how == "group" else f[path]
        path = path if how == "group" else "/"
    else:
        give = Path(fn) if how == "path" else arg
    with quiet():
        for i in range(2):
            ctx.check_same(ctx.load(give, path=path), x, "object of the 4.0 file differs")
        if how == "r+":
            ctx.dump([1, "n"], give, path="new")
            ctx.check_same(ctx.load(give, path="new"), [1, "n"], "object dumped to an open 4.0 file differs")
            ctx.check_same(ctx.load(give, path=path), x, "object of the 4.0 file differs")
    if f is not None:
        ctx.check(bool(f), "handle of the caller was closed")
        f.close()
    ctx.check(ctx.open_handles() == held, "file left open")
    if how != "r+":
        ctx.check(ctx.file_state(arg) == state, "load changed the file")
