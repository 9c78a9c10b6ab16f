"""C06: numpy arrays and scalars keep dtype, shape and every element."""
import numpy as np
from sx.harness import scenario, grid
from sx.source import sizes, texts, chunks
from scenarios.c01_scalars import wrap

NUMERIC = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "c8", "c16"]
SWAPPED = [">i2", ">i4", ">i8", ">u4", ">f4", ">f8", ">c16"]
SHAPES = [[], [0], [1], [3], [2, 2], [0, 3], [2, 0], [1, 1, 2]]
WHERE = ["list", "tuple", "dict", "nested"]


@scenario("C06", quick=grid(dtype=NUMERIC, shape=SHAPES) + grid(dtype=SWAPPED, shape=[[2], [], [1, 2]]) +
          grid(dtype=["i2", "f8", "c16"], shape=[[2, 1, 1, 2], [2, 1, 1, 1, 2], [1, 2, 1, 1, 2, 1], [2] + [1] * 6 + [2], [1] * 31 + [2], [0] + [1] * 4]),
          thorough=grid(dtype=NUMERIC + SWAPPED, shape=SHAPES + [[4, 3], [2, 2, 2], [1, 0, 2], [12]]))
def numeric_array(ctx, dtype, shape):
    a = ctx.array("a", dtype, tuple(shape))
    ctx.check_same(ctx.roundtrip(a), a, "array read back differs")


@scenario("C06", quick=grid(dtype=["i4", "f8", "?", "U2", "S2"], shape=[[2], []], where=WHERE), thorough=grid(dtype=NUMERIC + ["U2", "S2"], shape=[[2], [], [0], [2, 2]], where=WHERE))
def array_in_container(ctx, dtype, shape, where):
    a = ctx.array("a", dtype, tuple(shape))
    x, get = wrap(ctx, a, where)
    ctx.check_same(get(ctx.roundtrip(x)), a, "array in container read back differs")


SCALARS = [c for c in NUMERIC if c != "?"]


@scenario("C06", quick=grid(dtype=SCALARS, where=["top", "list", "dict"]), thorough=grid(dtype=SCALARS, where=["top"] + WHERE))
def numeric_scalar(ctx, dtype, where):
    t = np.dtype(dtype).type
    x = ctx.int("x", cls=t) if dtype[0] in "iu" else ctx.float("x", cls=t) if dtype[0] == "f" else ctx.complex("x", cls=t)
    y, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(y)), x, "numpy scalar read back differs")


@scenario("C06", quick=grid(where=["top", "list", "dict"]))
def other_scalar(ctx, where):
    x = ctx.choice("x", [np.bool_(True), np.bool_(False), np.str_("a\xe9/\0b"), np.str_(""), np.bytes_(b"a\0b"), np.bytes_(b"\xff"), np.bytes_(b""),
                         np.longdouble("1.1"), np.clongdouble(1.5 - 2j), np.void(b"ab\0"), np.zeros((), [("a", "i4"), ("b", "f8")])[()], np.float64("nan"), np.float32("-0.0")])
    y, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(y)), x, "numpy scalar read back differs")


@scenario("C06", quick=grid(n=[1, 2, 3]))
def str_scalar(ctx, n):
    x = ctx.str("x", n, cls=np.str_)
    ctx.check_same(ctx.roundtrip([x, None])[0], x, "numpy str scalar read back differs")
    b = ctx.bytes("b", n, cls=np.bytes_)
    ctx.check_same(ctx.roundtrip([b, None])[0], b, "numpy bytes scalar read back differs")


@scenario("C06", quick=grid(dtype=["U1", "U2", "S1", "S2", "S3"], shape=[[], [1], [2], [1, 2], [0], [0, 2]]) + grid(dtype=["U1", "S1"], shape=[[2, 2], [1, 1, 2], [2, 1, 1, 2], [2, 1, 1, 1, 2]]),
          thorough=grid(dtype=["U1", "U2", "U3", "S1", "S2", "S3", "S4"], shape=[[], [1], [2], [3], [1, 2], [2, 1], [0], [0, 2], [2, 0]]) + grid(dtype=["U1", "S1", "S2"], shape=[[2, 2], [1, 1, 2], [1, 2, 2], [4]]))
def text_array(ctx, dtype, shape):
    """numpy pads texts with NUL: an element is what is left without the padding"""
    a = ctx.array("a", dtype, tuple(shape))
    ctx.check_same(ctx.roundtrip(a), a, "text array read back differs")


@scenario("C06", quick=grid(n=sizes(1100, [11, 101]), dtype=["U4", "S4", "O"]), thorough=grid(n=[9, 10, 11, 100, 101, 1001], dtype=["U4", "S4", "O"]))
def long_text_array(ctx, n, dtype):
    pos = ctx.choice("pos", sorted({0, 1, n // 2, n - 1}))
    shape = ctx.choice("shape", [0, 1])
    a = np.array(["%d" % i for i in range(n)], dtype=dtype)
    a[pos] = "x\xe9"[:1] if dtype[0] == "S" else "\u20ac\xe9"
    if shape:
        a = a.reshape((1, n))
    ctx.check_same(ctx.roundtrip(a), a, "long text array read back differs")


ITEMS = ["int", "float", "str", "bytes", "none", "list", "tuple", "numlist", "dict", "array", "emptylist", "bool", "set", "npint"]


def oitem(ctx, name, kind):
    return {"int": lambda: ctx.int(name), "float": lambda: ctx.float(name), "str": lambda: ctx.str(name, 1), "bytes": lambda: ctx.bytes(name, 1), "none": lambda: None,
            "list": lambda: [ctx.int(name), "q"], "tuple": lambda: (ctx.int(name), "q"), "numlist": lambda: [ctx.int(name), 2], "dict": lambda: {"k": ctx.int(name)},
            "array": lambda: ctx.array(name, "i4", (2,)), "emptylist": lambda: [], "bool": lambda: ctx.choice(name, [True, False]),
            "set": lambda: ctx.set([ctx.int(name), "q"]), "npint": lambda: ctx.int(name, cls=np.int16)}[kind]()


def fill(shape, items):
    a = np.empty(shape, dtype=object)
    for idx, x in zip(np.ndindex(*shape), items):
        a[idx] = x
    return a


@scenario("C06", quick=grid(shape=[[], [1], [2], [1, 2]], kinds=[[k] for k in ITEMS]) + grid(shape=[[2], [2, 1]], kinds=[["int", "str"], ["list", "none"], ["list", "list"], ["tuple", "dict"], ["array", "array"], ["none", "none"], ["int", "list"], ["bytes", "str"]]) +
          grid(shape=[[0], [0, 2], [2, 0]], kinds=[["int"]]) + grid(shape=[[2, 1, 1, 2], [1, 2, 1, 1, 2]], kinds=[["int", "str"], ["list", "none"], ["none"]]),
          thorough=grid(shape=[[], [1], [2], [1, 2], [2, 2]], kinds=[[k] for k in ITEMS]) + grid(shape=[[2], [2, 1], [3]], kinds=[[a, b] for a in ITEMS for b in ITEMS]) + grid(shape=[[0], [0, 2], [2, 0]], kinds=[["int"]]))
def object_array(ctx, shape, kinds):
    n = int(np.prod(shape)) if shape else 1
    a = fill(tuple(shape), [oitem(ctx, "x%d" % i, kinds[i % len(kinds)]) for i in range(n)])
    ctx.check_same(ctx.roundtrip(a), a, "object array read back differs")


DTYPES = ["i4", ">f8", "U3", "S5", "?", "c8", "O", "V4", "m8[s]", "f2"]
STRUCT = [[["a", "i4"], ["b", "f8"]], [["x", "S3"], ["y", "?"]], [["p", ">u2"]], [["m", "f4", [2]], ["n", "i1"]], [["o", [["i", "i2"], ["j", "c8"]]], ["q", "u1"]]]


def mkdtype(d):
    if isinstance(d, str):
        return np.dtype(d)
    return np.dtype([tuple([f[0], mkdtype(f[1]) if not isinstance(f[1], str) else f[1]] + [tuple(x) for x in f[2:]]) for f in d])


@scenario("C06", quick=grid(d=DTYPES + STRUCT, where=["top", "list"]))
def dtype_object(ctx, d, where):
    x = mkdtype(d)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r == x and r.names == x.names and r.str == x.str and isinstance(r, np.dtype), "dtype read back differs")


@scenario("C06", quick=grid(d=STRUCT, shape=[[], [2], [0], [2, 1]]))
def structured_array(ctx, d, shape):
    dt = mkdtype(d)
    a = np.zeros(tuple(shape), dt)
    seed = ctx.choice("seed", [0, 1, 255])
    n = a.nbytes
    if n:
        buf = bytearray((i * 37 + seed) % 128 if seed else 0 for i in range(n))
        a = np.frombuffer(bytes(buf), dtype=dt).reshape(tuple(shape)).copy()
        for nm in dt.names or ():
            if dt[nm].base.kind == "b":
                a[nm] = seed % 2
    ctx.check_same(ctx.roundtrip(a), a, "structured array read back differs")


LAYOUTS = ["fortran", "strided", "reversed", "transposed", "broadcast", "readonly", "view0", "diagonal"]


@scenario("C06", quick=grid(layout=LAYOUTS, dtype=["i4", "f8", "U2", "S2", "O", ">i2"]))
def memory_layout(ctx, layout, dtype):
    base = np.arange(12)
    base = base.astype("U2" if dtype == "U2" else "S2" if dtype == "S2" else dtype).reshape(3, 4)
    a = {"fortran": lambda: np.asfortranarray(base), "strided": lambda: base[::2, 1::2], "reversed": lambda: base[::-1, ::-1], "transposed": lambda: base.T,
         "broadcast": lambda: np.broadcast_to(base[0], (2, 4)), "readonly": lambda: base, "view0": lambda: base[1:1], "diagonal": lambda: base[:3, :3].diagonal()}[layout]()
    if layout == "readonly":
        a.setflags(write=False)
    twice = ctx.choice("twice", [False, True])
    x = [a, "s", a.copy()] if twice else a
    ctx.check_same(ctx.roundtrip(x), x, "array with unusual memory layout read back differs")


@scenario("C06", quick=grid(dtype=["i8", "f8", "c16", "?"], shape=[[1, 2], [2, 2], [2, 1]]))
def matrix(ctx, dtype, shape):
    v = ctx.choice("v", [0, 1, -5, 3.5])
    x = np.matrix(np.array([v] * (shape[0] * shape[1]) , dtype=dtype).reshape(shape))
    ctx.check_same(ctx.roundtrip(x), x, "matrix read back differs")
    ctx.check_same(ctx.roundtrip([x, "s"])[0], x, "matrix in a list read back differs")


@scenario("C06", quick=grid(dtype=["U2", "S2", "O", "M8[s]", "m8[D]"], shape=[[1, 2], [2, 2], [2, 1]]))
def other_matrix(ctx, dtype, shape):
    """matrices of types which are stored element by element or not at all as HDF5 types"""
    n = shape[0] * shape[1]
    a = np.arange(n).astype(dtype) if dtype != "O" else np.array(([None, "x\xe9", (1, "q"), 2.5] * 2)[:n] + [0], object)[:n]
    if dtype[0] in "US":
        a[ctx.choice("i", list(range(n)))] = "zz" if dtype == "U2" else b"\xff"
    else:
        ctx.choice("i", [0])
    x = np.matrix(a.reshape(shape))
    r = ctx.roundtrip(x)
    ctx.check(r.__class__ is np.matrix, "matrix came back as %s" % (r.__class__,))
    ctx.check_same(np.asarray(r), np.asarray(x), "matrix read back differs")
    r = ctx.roundtrip([x, "s"])[0]
    ctx.check(r.__class__ is np.matrix and r.dtype == x.dtype and r.shape == x.shape, "matrix in a list read back differs")


DATES = ["M8[s]", "M8[ns]", "M8[D]", "M8", "m8[s]", "m8[us]", "m8", "m8[25s]"]     # numpy pickles big endian times as little endian ones: not asked for


@scenario("C06", quick=grid(dtype=DATES, shape=[[2], [], [0], [1, 2]], where=["top", "list"]) + grid(dtype=DATES[:4], shape=["scalar"], where=["top", "list", "dict"]),
          thorough=grid(dtype=DATES, shape=[[2], [], [0], [1, 2], [3], [2, 2]], where=["top"] + WHERE) + grid(dtype=DATES, shape=["scalar"], where=["top"] + WHERE))
def times(ctx, dtype, shape, where):
    """datetime64 and timedelta64, for which HDF5 has no type"""
    raw = ctx.choice("raw", [0, 1, -7, 2 ** 62, -2 ** 63, 2 ** 40 + 1])
    if dtype in ("M8", "m8"):
        raw = -2 ** 63                                   # not a time is the only value without unit
    n = 1 if shape == "scalar" else int(np.prod(shape))
    a = np.array([raw] * n, dtype="i8").astype(np.dtype(dtype).str[0] + "i8").view(dtype)
    x = a[0] if shape == "scalar" else a.reshape(shape)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is x.__class__ and r.dtype == x.dtype and r.shape == x.shape, "time read back with other class, dtype or shape")
    ctx.check(np.asarray(r).tobytes() == np.asarray(x).tobytes(), "time read back differs")


OSTRUCT = [[["a", "U2"], ["b", "i4"]], [["o", "O"], ["b", "f8"]], [["t", "M8[s]"], ["b", "i4"]], [["n", [["u", "U1"], ["v", "i2"]]], ["q", "u1"]], [["m", "U2", [2]], ["n", "i1"]]]


@scenario("C06", quick=grid(d=OSTRUCT, shape=[[2], [], [0], [2, 1], "scalar"], where=["top", "list"]))
def unusual_fields(ctx, d, shape, where):
    """structured types with fields HDF5 has no type for"""
    dt = mkdtype(d)
    a = np.zeros([1] if shape == "scalar" else shape, dt)
    k = ctx.choice("k", [0, 1, 2])
    if a.size:
        f = d[0][0]
        if d[0][1] == "U2":
            a[f] = ["", "x", "\xe9\u20ac"][k]
        elif d[0][1] == "O":
            a[f] = [None, "text", 10 ** 30][k]
        elif d[0][1] == "M8[s]":
            a[f] = np.datetime64([0, 5, -9][k], "s")
        else:
            a[f]["u"] = ["", "x", "\u20ac"][k]
            a[f]["v"] = k
        a[d[1][0]] = k + 1
    x = a[0] if shape == "scalar" else a
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is x.__class__ and r.dtype == x.dtype and r.shape == x.shape, "structured value read back with other class, dtype or shape")
    ctx.check(all(np.asarray(r[f]).tolist() == np.asarray(x[f]).tolist() for f in dt.names), "structured value read back differs")


@scenario("C06", quick=grid(n=[1, 2], form=["scalar", "array0", "array1"]))
def surrogates(ctx, n, form):
    x = ctx.str("x", n, surrogates=True, cls=np.str_) if form == "scalar" else np.array(ctx.choice("x", ["\ud800", "a\udcff", "\udc80\ud83d"][:n + 1]))
    if form == "array1":
        x = x.reshape(1)
    ctx.check_same(ctx.roundtrip(x), x, "text with surrogates read back differs")


@scenario("C06", quick=grid(n=sizes(70000, [1000, 5000])))
def large_array(ctx, n):
    a = np.arange(n, dtype="i4")
    a[ctx.choice("i", [0, n // 2, n - 1])] = -7
    shape = ctx.choice("shape", [0, 1])
    if shape:
        a = a.reshape(-1, 10) if n % 10 == 0 else a.reshape(-1, 1)
    ctx.check_same(ctx.roundtrip(a), a, "larger array read back differs")


def unusual_arrays():
    """arrays whose dtype HDF5 has no counterpart for, by name"""
    out = {"title": np.array([(1, 2.5), (3, 4.5)], dtype=[(("long name", "a"), "i4"), ("b", "f8")]), "subtitle": np.zeros(2, dtype=[("a", [(("t", "x"), "i2")])]), "nofields": np.zeros(2, dtype=[]), "void0": np.zeros(2, "V"),
           "void": np.array([b"ab", b"\0c"], dtype="V2"), "aligned": np.ones(2, dtype=np.dtype([("a", "i1"), ("b", "f8")], align=True)), "offsets": np.ones(2, dtype=np.dtype({"names": ["a", "b"], "formats": ["i4", "f8"], "offsets": [4, 16], "itemsize": 32})),
           "reversed": np.ones(2, dtype=np.dtype({"names": ["a", "b"], "formats": ["i4", "i4"], "offsets": [4, 0]})), "subarray": np.arange(12).astype("i4").reshape(2, 6).view([("a", "i4", (2, 3))])[:, 0], "structured text": np.array([("\xe9", b"\0x")], dtype=[("a", "U2"), ("b", "S3")]),
           "structured date": np.array([(5, 6)], dtype=[("t", "M8[s]"), ("d", "m8[25us]")]), "structured object": np.array([(None, [1])], dtype=[("t", "O"), ("u", "O")]), "generic date": np.array(["NaT"], dtype="M8"), "units": np.array([1, 2], dtype="m8[25s]"),
           "longdouble": np.array([1, 2], dtype=np.longdouble) / 3, "clongdouble": np.array([1 + 2j], dtype=np.clongdouble) / 3, "S0": np.zeros(2, "S0"), "U0": np.zeros((1, 2), "U0"), "big text": np.array(["x\xe9"], dtype=">U3"), "surrogate": np.array(["\ud800", "a"])}
    if hasattr(getattr(np, "dtypes", None), "StringDType"):
        s = np.dtypes.StringDType()
        out["string"] = np.array(["a", "bb\0", "", "\u20ac" * 30], dtype=s)
        out["string2d"] = np.array([["a", "b"], ["c", "d" * 40]], dtype=s)
        out["string na"] = np.array(["a", None], dtype=np.dtypes.StringDType(na_object=None))
    return out


UNUSUAL = unusual_arrays()


@scenario("C06", quick=grid(kind=sorted(UNUSUAL), what=["array", "first", "dtype", "empty", "scalar array"]) + grid(kind=sorted(set(UNUSUAL) - {"structured date", "nofields"}), what=["masked"]))
def unusual_dtype(ctx, kind, what):
    """dtypes HDF5 does not know: the array, its elements, its dtype, a masked and an empty one"""
    a = UNUSUAL[kind]
    x = {"array": lambda: a, "first": lambda: a.ravel()[0], "dtype": lambda: a.dtype, "masked": lambda: np.ma.array(a, mask=np.ma.make_mask_none(a.shape, a.dtype)), "empty": lambda: a[:0], "scalar array": lambda: a.ravel()[:1].reshape(())}[what]()
    pos = ctx.choice("pos", [0, 1, 2])
    y, get = [(x, lambda r: r), ([x, None], lambda r: r[0]), ({"k": ("a", x)}, lambda r: r["k"][1])][pos]
    r = get(ctx.roundtrip(y))
    if what == "dtype":
        ctx.check(isinstance(r, np.dtype) and r == x, "dtype differs")
        return
    ctx.check(r.__class__ is x.__class__, "class of array or scalar differs")
    if hasattr(x, "dtype"):
        ctx.check(r.dtype == x.dtype and r.shape == x.shape, "dtype or shape differs")
        parts = [lambda o: o] if what != "masked" else [lambda o: np.asarray(o.data), lambda o: np.asarray(o.mask)]
        for part in parts:
            ctx.check(repr(part(r).tolist()) == repr(part(x).tolist()), "elements differ")
    else:
        ctx.check(r == x, "element differs")
