"""C19: files in the layout of hickle 3.x load with the same values as when written."""
import io
import numpy as np
from sx.harness import scenario, grid, quiet
from sx.source import sizes
from scenarios.types_ import Plain
from scenarios.legacy_ import V3


def through(ctx, x, path="/", version="3.4.9"):
    fn = ctx.file("v3.h5")
    with ctx.h5.File(fn, "w") as h:
        V3(ctx, h, path, version).dump(x)
    with quiet():
        return ctx.load(fn, path=path)


SCALARS = ["int", "float", "complex", "bool", "none", "npint", "npfloat", "npcomplex", "npbool", "npuint"]


def scalar(ctx, kind, name="x"):
    if kind == "int":
        return ctx.int(name, -2 ** 63, 2 ** 63 - 1)
    if kind == "float":
        return ctx.float(name)
    if kind == "complex":
        return ctx.complex(name)
    if kind == "bool":
        return ctx.choice(name, [True, False])
    if kind == "npint":
        return ctx.int(name, cls=np.int16)
    if kind == "npuint":
        return ctx.int(name, cls=np.uint64)
    if kind == "npfloat":
        return ctx.float(name, cls=np.float32)
    if kind == "npcomplex":
        return ctx.complex(name, cls=np.complex64)
    if kind == "npbool":
        return ctx.choice(name, [np.True_, np.False_])


@scenario("C19", quick=grid(kind=SCALARS, where=["top", "list", "tuple", "dict", "deep"], path=["/", "p/q"]))
def scalars(ctx, kind, where, path):
    x = scalar(ctx, kind)
    y = {"top": lambda: x, "list": lambda: ["t", x], "tuple": lambda: (x, "t"), "dict": lambda: {"k": x, "l": "t"}, "deep": lambda: {"a": [("b", {"c": [x, "q"]})]}}[where]()
    ctx.check_same(through(ctx, y, path), y, "object of the 3.x file differs")


@scenario("C19", quick=grid(kind=["str", "bytes"], n=[1, 2], where=["top", "list", "dict", "set", "alike"]) + grid(kind=["str"], n=[0], where=["top", "list", "dict", "set", "alike"]), thorough=grid(kind=["str", "bytes"], n=[1, 2, 3], where=["top", "list", "dict", "set", "alike"]) + grid(kind=["str"], n=[0], where=["top", "list", "dict", "set", "alike"]))
def texts(ctx, kind, n, where):
    x = ctx.str("x", n) if kind == "str" else ctx.bytes("x", n)
    if kind == "str":
        ctx.assume(not ctx.truth("\0" in x))                           # HDF5 strings end at a NUL
    elif n:
        ctx.assume(not ctx.truth(x[n - 1:] == b"\0"))                  # 'S' arrays drop them
    other = "other" if kind == "str" else b"other"
    if where == "alike" and kind == "str" and n:
        ctx.assume(not ctx.truth(x[n - 1:] == "\0"))
    y = {"top": lambda: x, "list": lambda: [x, 1], "dict": lambda: {"k": x}, "set": lambda: ctx.set([x, 1]), "alike": lambda: [x, other, x]}[where]()
    ctx.check_same(through(ctx, y), y, "object of the 3.x file differs")


ITEMS = ["int", "float", "bool", "none", "str", "bytes", "list", "dict", "array", "masked", "pickled", "numlist"]


def item(ctx, kind, name):
    if kind in ("int", "float", "bool", "none"):
        return scalar(ctx, kind, name)
    if kind == "str":
        return "a" + name
    if kind == "bytes":
        return b"b" + name.encode()
    if kind == "list":
        return [name, 1]
    if kind == "numlist":
        return [ctx.int(name, -9, 9), 2]
    if kind == "dict":
        return {name: 1, 2: "v"}
    if kind == "array":
        return ctx.array(name, "i4", (2,))
    if kind == "masked":
        return np.ma.array([1, 2, 3], mask=[False, True, False])
    if kind == "pickled":
        return Plain("v")


@scenario("C19", quick=grid(cls=["list", "tuple", "dict"], n=[1, 2], kinds=[ITEMS]) + grid(cls=["list"], n=[3], kinds=[ITEMS[:6], ["list", "dict", "masked", "str"]]),
          thorough=grid(cls=["list", "tuple", "dict"], n=[3], kinds=[ITEMS]))
def containers(ctx, cls, n, kinds):
    """every mixture of items"""
    xs = [item(ctx, ctx.choice("k%d" % i, kinds), "x%d" % i) for i in range(n)]
    y = xs if cls == "list" else tuple(xs) if cls == "tuple" else {"key%d" % i: x for i, x in enumerate(xs)}
    ctx.check_same(through(ctx, y), y, "object of the 3.x file differs")


@scenario("C19", quick=grid(cls=["list", "tuple"], n=sizes(150, [9, 10, 11, 12, 21, 101, 111], "legacy_v3"), how=["mixed", "lists"]), thorough=grid(cls=["list", "tuple"], n=list(range(1, 31)) + [99, 100, 101, 110, 120, 999, 1001, 1011], how=["mixed", "lists"]))
def many_items(ctx, cls, n, how):
    """the position of every item is its number, also where names do not sort by number"""
    if how == "mixed":
        y = [i if i % 2 else str(i) for i in range(n)]
    else:
        y = [[i, i + 1] for i in range(n)]
    i = ctx.int("i", 0, n - 1)
    marker = ctx.int("v", -2 ** 40, -1)
    for k in range(n):
        if ctx.truth(i == k):
            y[k] = [marker]
    y = y if cls == "list" else tuple(y)
    ctx.check_same(through(ctx, y), y, "items of the 3.x list differ or changed their order")


@scenario("C19", quick=grid(n=[1, 2], kind=["str", "int", "bool", "float", "complex", "tuple"]), thorough=grid(n=[1, 2, 3], kind=["str", "int", "bool", "float", "complex", "tuple"]))
def keys(ctx, n, kind):
    """every key of the supported kinds"""
    if kind == "str":
        k = ctx.str("k", n)
        ctx.assume(not ctx.truth("/" in k))                            # cannot be told from nested groups
        ks = [k]
    elif kind == "int":
        ks = [ctx.choice("k%d" % i, [0, 1, -1, 9, 10, 11, -10, 2 ** 63, -2 ** 70]) for i in range(n)]
    elif kind == "bool":
        ks = [ctx.choice("k%d" % i, [True, False]) for i in range(n)]
    elif kind == "float":
        ks = [ctx.choice("k%d" % i, [0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), float("-inf"), 0.1]) for i in range(n)]
    elif kind == "complex":
        ks = [ctx.choice("k%d" % i, [1j, 1 + 2j, -1.5 - 2.5j, 0j, complex("inf"), complex(1, float("-inf")), 1e300 + 5e-324j, complex(-0.0, 1)]) for i in range(n)]
    else:
        ks = [ctx.choice("k%d" % i, [(), (1,), (1, "a"), ("a'b", 2.5), (True, None), ((1, 2), "x")]) for i in range(n)]
    if len(ks) > 1:
        for a in range(len(ks)):
            for b in range(a):
                ctx.assume(not ctx.truth(ks[a] == ks[b]))
    y = ctx.dict([(k, i) for i, k in enumerate(ks)] + [("fix", "t")]) if not (kind == "str" and ctx.truth(ks[0] == "fix")) else ctx.dict([(ks[0], 0)])
    r = through(ctx, y)
    ctx.check(len(r) == len(y), "number of items differs")
    for k, v in y.items():
        found = [w for g, w in r.items() if g.__class__ is k.__class__ and ctx.truth(g == k)]
        ctx.check(len(found) == 1, "key missing or of another class")
        ctx.check_same(found[0], v, "value of a key differs")


PAIRS = [(1, "1"), (1.5, "1.5"), (True, "True"), ((1,), "(1,)"), ("a", "'a'"), (-1, 1), (10, 9), ("k10", "k9"), ("10", 10), (1j, "1j"), ((10, "a"), (9, "b")), (False, 1)]


@scenario("C19", quick=grid(pair=range(len(PAIRS))))
def key_pairs(ctx, pair):
    """keys which look alike stay apart"""
    a, b = PAIRS[pair]
    x = ctx.int("x", -9, 9)
    y = {a: x, b: [x, "b"]} if ctx.choice("order", [False, True]) else {b: [x, "b"], a: x}
    r = through(ctx, y)
    ctx.check(len(r) == 2, "number of items differs")
    ctx.check_same(r[a], x, "value of a key differs")
    ctx.check_same(r[b], [x, "b"], "value of a key differs")


@scenario("C19", quick=grid(dtype=["f8", "f4", "i1", "u8", "?", "c16"], shape=[(), (2,), (0,), (2, 1)], where=["top", "list"]) + grid(dtype=["S2", ">i4"], shape=[(2,), (2, 1)], where=["top", "list"]))
def arrays(ctx, dtype, shape, where):
    x = ctx.array("x", dtype, shape)
    y = x if where == "top" else [x, "t", x]
    ctx.check_same(through(ctx, y), y, "array of the 3.x file differs")


@scenario("C19", quick=grid(dtype=["f8", "i4"], where=["top", "list", "dict", "two", "tuple"]))
def masked(ctx, dtype, where):
    m = ctx.masked(ctx.array("x", dtype, (2,)), ctx.array("m", "?", (2,)))
    y = {"top": lambda: m, "list": lambda: [m, 5, "x"], "dict": lambda: {"a": m, "b": 1}, "two": lambda: [m, m, 7, "z"], "tuple": lambda: ("a", m, None)}[where]()
    ctx.check_same(through(ctx, y), y, "masked array of the 3.x file differs")


@scenario("C19", quick=grid(fmt=["csr", "csc", "bsr"], where=["top", "list", "dict"]))
def sparse(ctx, fmt, where):
    import scipy.sparse as sp
    cls = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "bsr": sp.bsr_matrix}[fmt]
    data = ctx.array("x", "f8", (2,) if fmt != "bsr" else (2, 1, 1))
    x = ctx.sparse(cls, data, np.array([0, 1], "i4"), np.array([0, 1, 2], "i4"), (2, 2))
    y = {"top": lambda: x, "list": lambda: ["a", x], "dict": lambda: {"a": x, "b": 1}}[where]()
    ctx.check_same(through(ctx, y), y, "sparse matrix of the 3.x file differs")


@scenario("C19", quick=grid(how=["name", "path", "r", "r+", "group", "subgroup", "mem", "rb"], version=["3.0.0", "3.4.9", "3.12"]))
def handles(ctx, how, version):
    """all kinds of file arguments; file and handle stay as they are"""
    from pathlib import Path
    fn = ctx.file("v3.h5")
    path = ctx.choice("path", ["/", "p", "g/p"])
    x = [ctx.int("x", -9, 9), "a"]
    arg = io.BytesIO() if how == "mem" else fn
    with ctx.h5.File(arg, "w") as h:
        V3(ctx, h, path, version).dump(x)
    state = ctx.file_state(arg)
    held = ctx.open_handles()
    f = None
    if how in ("r", "r+"):
        f = give = ctx.h5.File(fn, how)
    elif how in ("group", "subgroup"):
        f = ctx.h5.File(fn, "r")
        give = f["/"] if how == "group" else f[path]
        path = path if how == "group" else "/"
    elif how == "path":
        give = Path(fn)
    elif how == "rb":
        if ctx.symbolic:
            give = arg
        else:
            give = open(fn, "rb")
    else:
        give = arg
    with quiet():
        for i in range(2):
            ctx.check_same(ctx.load(give, path=path), x, "object of the 3.x file differs")
    if f is not None:
        ctx.check(bool(f), "handle of the caller was closed")
        f.close()
    if how == "rb" and not ctx.symbolic:
        give.close()
    ctx.check(ctx.open_handles() == held, "file left open")
    if how != "r+":
        ctx.check(ctx.file_state(arg) == state, "load changed the file")
