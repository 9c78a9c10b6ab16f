"""C07: masked arrays and scipy sparse matrices keep structure and content."""
import numpy as np
from sx.harness import scenario, grid
from sx.source import sizes, texts, chunks
from scenarios.c01_scalars import wrap

WHERE = ["top", "list", "dict", "nested"]


@scenario("C07", quick=grid(dtype=["i4", "f8", "?", "c16", "u8", ">i2"], shape=[[2], [1, 2], [2, 2]], where=["top"]) + grid(dtype=["f4", "i8"], shape=[[2]], where=WHERE[1:]) + grid(dtype=["f8"], shape=[[0], [0, 2]], where=["top"]),
          thorough=grid(dtype=["i1", "i4", "i8", "u8", "f2", "f4", "f8", "?", "c8", "c16", ">i2"], shape=[[2], [1, 2], [2, 2], [0], [0, 2], [5], [1, 1, 2]], where=WHERE))
def masked_array(ctx, dtype, shape, where):
    a = ctx.array("a", dtype, tuple(shape))
    m = ctx.array("m", "?", tuple(shape))
    x = ctx.masked(a, m)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is np.ma.MaskedArray, "class of masked array differs")
    ctx.check_same(r, x, "masked array read back differs")


@scenario("C07", quick=grid(dtype=["i4", "f8", "U2", "S2"], mask=["none", "scalar_false", "scalar_true", "full", "list"], shape=[[3], [2, 2]]),
          thorough=grid(dtype=["i4", "f8", "U2", "S2", "c8", "?"], mask=["none", "scalar_false", "scalar_true", "full", "list"], shape=[[3], [2, 2], [0], [1, 1, 2]]))
def mask_forms(ctx, dtype, mask, shape):
    """masks given as nomask, one bool or an array"""
    n = int(np.prod(shape))
    a = np.arange(n).astype(dtype).reshape(shape)
    pos = ctx.choice("pos", list(range(max(n, 1))))
    if mask == "none":
        x = np.ma.array(a)
    elif mask.startswith("scalar"):
        x = np.ma.array(a, mask=mask == "scalar_true")
    else:
        m = np.zeros(n, bool)
        if n:
            m[pos] = True
        m = m.reshape(shape)
        x = np.ma.array(a, mask=m if mask == "full" else m.tolist())
    r = ctx.roundtrip([x, "s"])[0]
    ctx.check(r.__class__ is np.ma.MaskedArray, "class of masked array differs")
    ctx.check_same(r, x, "masked array read back differs")


STRUCT = {"flat": [("x", "S2"), ("y", "i8")], "sub": [("p", "f4", (2,)), ("q", "?")], "nested": [("a", [("b", "i2"), ("c", "f8")]), ("d", "u1")]}


@scenario("C07", quick=grid(d=list(STRUCT), where=["top", "list"], shape=[[2], []]) + grid(d=["flat"], where=["dict", "nested"], shape=[[1, 2], [0]]))
def structured_masked(ctx, d, where, shape):
    """masks of the single fields"""
    dt = np.dtype(STRUCT[d])
    n = int(np.prod(shape))
    raw = np.frombuffer(bytes(range(49, 49 + n * dt.itemsize)), dtype=dt).reshape(shape)
    m = np.zeros(shape, dtype=np.ma.make_mask_descr(dt))
    if n:
        flat = m.reshape(-1)
        for i, name in enumerate(dt.names):
            if ctx.choice("m%d" % i, [False, True]):
                flat[n - 1][name] = True
    x = np.ma.array(raw, mask=m)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.dtype == x.dtype and r.shape == x.shape, "type or shape of a structured masked array differs")
    ctx.check(np.ma.getmaskarray(r).tobytes() == m.tobytes(), "mask of a structured masked array differs")
    for name in dt.names:
        for a, b, hidden in zip(np.asarray(r.data)[name].reshape(n, -1) if n else (), raw[name].reshape(n, -1) if n else (), np.asarray(m[name]).reshape(n, -1) if n else ()):
            if b"\1" not in hidden.tobytes():
                ctx.check(a.tobytes() == b.tobytes(), "visible data of a structured masked array differs")


@scenario("C07", quick=grid(where=WHERE, twice=[False, True]))
def masked_constant(ctx, where, twice):
    """numpy.ma.masked is recognised by identity"""
    k = ctx.int("k")
    x = [np.ma.masked, k, np.ma.masked] if twice else np.ma.masked
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    if twice:
        ctx.check(r[0] is np.ma.masked and r[2] is np.ma.masked, "numpy.ma.masked read back as something else")
        ctx.check_same(r[1], k, "neighbour of numpy.ma.masked read back differs")
    else:
        ctx.check(r is np.ma.masked, "numpy.ma.masked read back as something else")


@scenario("C07", quick=grid(dtype=["M8[s]", "m8[D]", "O", "struct"], where=WHERE))
def unusual_masked(ctx, dtype, where):
    """masked arrays of types HDF5 does not know"""
    m = [ctx.choice("m%d" % i, [False, True]) for i in range(2)]
    if dtype == "O":
        a = np.array([None, "x\xe9"], object)
    elif dtype == "struct":
        a = np.array([("a", 1), ("\u20ac", 2)], dtype=[("t", "U2"), ("i", "i4")])
    else:
        a = np.array([1, 2 ** 40]).astype(dtype)
    x = np.ma.array(a, mask=m if dtype != "struct" else [(m[0], m[1]), (m[1], m[0])])
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is x.__class__ and r.dtype == x.dtype and r.shape == x.shape, "masked array read back with other class, dtype or shape")
    ctx.check(np.ma.getmaskarray(r).tobytes() == np.ma.getmaskarray(x).tobytes(), "mask read back differs")
    ctx.check(r.tolist() == x.tolist(), "visible items of a masked array read back differ")


@scenario("C07", quick=grid(n=[2, 3]))
def several_masked(ctx, n):
    """the masks of several arrays stay with their arrays"""
    xs = [ctx.masked(ctx.array("a%d" % i, "i4", (2,)), ctx.array("m%d" % i, "?", (2,))) for i in range(n)]
    x = {"k%d" % i: m for i, m in enumerate(xs)}
    r = ctx.roundtrip(x)
    for i in range(n):
        ctx.check_same(r["k%d" % i], xs[i], "one of several masked arrays read back differs")


FORMATS = ["csr", "csc", "bsr"]
KINDS = ["matrix", "array"]


def cls_of(fmt, kind):
    import scipy.sparse as sp
    return getattr(sp, "%s_%s" % (fmt, kind))


@scenario("C07", quick=grid(fmt=["csr", "csc"], kind=["matrix"], dtype=["f8", "i4", "c16"], nnz=[0, 1, 2], where=["top"]) + grid(fmt=["csr", "csc"], kind=["matrix"], dtype=["f4"], nnz=[2], where=["list", "dict", "nested"]),
          thorough=grid(fmt=["csr", "csc"], kind=["matrix"], dtype=["f8", "f4", "i1", "i4", "i8", "u8", "c16", "?"], nnz=[0, 1, 2, 3], where=WHERE))
def compressed(ctx, fmt, kind, dtype, nnz, where):
    """2 x 3 matrix, all positions of the stored elements (sorted or not, repeated or not), all values"""
    C = cls_of(fmt, kind)
    shape = (2, 3) if fmt == "csr" else (3, 2)
    data = ctx.array("d", dtype, (nnz,))
    split = ctx.choice("split", list(range(nnz + 1)))
    indptr = np.array([0, split, nnz], dtype="i4")
    idx = [ctx.choice("i%d" % i, [0, 1, 2]) for i in range(nnz)]
    x = ctx.sparse(C, data, np.array(idx, dtype="i4"), indptr, shape)
    y, get = wrap(ctx, x, where)
    r = get(ctx.roundtrip(y))
    ctx.check(r.__class__ is C, "class of sparse matrix differs")
    ctx.check_same(r, x, "sparse matrix read back differs")


@scenario("C07", quick=grid(block=[[1, 1], [1, 2], [2, 1]], dtype=["f8", "i4"]), thorough=grid(block=[[1, 1], [1, 2], [2, 1], [2, 2]], dtype=["f8", "i4", "c16", "i1"]))
def block_sparse(ctx, block, dtype):
    C = cls_of("bsr", "matrix")
    nnz = ctx.choice("nnz", [0, 1, 2])
    data = ctx.array("d", dtype, (nnz,) + tuple(block))
    split = ctx.choice("split", list(range(nnz + 1)))
    idx = [ctx.choice("i%d" % i, [0, 1]) for i in range(nnz)]
    x = ctx.sparse(C, data, np.array(idx, dtype="i4"), np.array([0, split, nnz], dtype="i4"), (2 * block[0], 2 * block[1]))
    r = ctx.roundtrip({"m": x})["m"]
    ctx.check(r.__class__ is C, "class of sparse matrix differs")
    ctx.check_same(r, x, "block sparse matrix read back differs")


@scenario("C07", quick=grid(fmt=FORMATS, shape=[[1, 5], [5, 1], [0, 3], [3, 0], [4, 4]]) )
def shapes(ctx, fmt, shape):
    """trailing empty rows and columns count"""
    import scipy.sparse as sp
    C = cls_of(fmt, "matrix")
    if 0 in shape and fmt == "bsr":
        return ctx.check(True, "")
    x = sp.lil_matrix(tuple(shape), dtype="f8")
    if shape[0] and shape[1]:
        x[ctx.choice("r", [0, shape[0] - 1]) if shape[0] > 1 else 0, 0] = ctx.choice("v", [1.5, -2.0])
    x = C(x)
    two = ctx.choice("two", [0, 1])
    r = ctx.roundtrip([x, "s", C(x * 2)] if two else [x, "s"])
    ctx.check(r[0].__class__ is C, "class of sparse matrix differs")
    ctx.check_same(r[0], x, "sparse matrix read back differs")
    if two:
        ctx.check_same(r[2], C(x * 2), "second sparse matrix read back differs")


@scenario("C07", quick=grid(fmt=FORMATS, wide=[200, 40000, 70000, 2 ** 31 + 5, 2 ** 33 + 1], rows=[0, 1]))
def wide(ctx, fmt, wide, rows):
    """few elements in a matrix of many columns or rows"""
    C = cls_of(fmt, "matrix")
    n = ctx.choice("n", [wide - 1, wide])
    pos = ctx.choice("pos", [0, n - 1])
    v = ctx.array("v", "f8", (1, 1, 1) if fmt == "bsr" else (1,))
    it = "i8" if n > 2 ** 31 else "i4"
    if (fmt == "csc") != bool(rows):
        # the pointers of so many rows take their space
        n = pos = min(n, 70000)
        pos = 1
        ptr = np.concatenate([np.zeros(pos + 1, "i4"), np.ones(n - pos, "i4")])
        x = ctx.sparse(C, v, np.zeros(1, "i4"), ptr, (1, n) if fmt == "csc" else (n, 1))
    else:
        x = ctx.sparse(C, v, np.array([pos], it), np.array([0, 1], it), (n, 1) if fmt == "csc" else (1, n))
    r = ctx.roundtrip([x, "s"])[0]
    ctx.check(r.__class__ is C and tuple(r.shape) == tuple(x.shape), "class or shape of sparse matrix differs")
    ctx.check_same(r, x, "wide sparse matrix read back differs")


@scenario("C07", quick=grid(fmt=FORMATS))
def several_sparse(ctx, fmt):
    """matrices of several formats in one structure"""
    import scipy.sparse as sp
    out = {}
    for i, f in enumerate(FORMATS):
        m = np.zeros((2, 4))
        m[i % 2, i] = i + 1
        out[f] = cls_of(f, "matrix")(m)
    first = [fmt] + [f for f in FORMATS if f != fmt]
    x = {f: out[f] for f in first}
    two = ctx.choice("order", [0, 1])
    if two:
        x = {f: x[f] for f in reversed(list(x))}
    r = ctx.roundtrip(x)
    for f in FORMATS:
        ctx.check(r[f].__class__ is out[f].__class__, "class of sparse matrix differs")
        ctx.check_same(r[f], out[f], "one of several sparse matrices read back differs")


@scenario("C07", quick=grid(n=sizes(70000, [1000]), fmt=["masked", "maskedtext"] + FORMATS))
def larger(ctx, n, fmt):
    pos = ctx.choice("pos", [0, n // 2, n - 1])
    if fmt.startswith("masked"):
        if fmt == "maskedtext" and n > 3000:
            return ctx.check(True, "")
        x = np.ma.array(np.arange(n), mask=np.arange(n) % 3 == 1)
        if fmt == "maskedtext":
            x = np.ma.array(["t%d" % i for i in range(n)], mask=np.arange(n) % 3 == 1)
        x[pos] = np.ma.masked
    else:
        import scipy.sparse as sp
        C = cls_of(fmt, "matrix")
        rows = ctx.choice("rows", [1, n])
        m = sp.lil_matrix((rows, n) if rows == 1 else (n, 3), dtype="i4")
        m[0, n - 1 if rows == 1 else 2] = 4
        m[0 if rows == 1 else pos, pos if rows == 1 else 1] = 7
        x = C(m)
        if rows == 1 and fmt != "csc":
            # all elements stored
            x = C(np.arange(1, n + 1).reshape(1, n))
    r = ctx.roundtrip(x)
    ctx.check(r.__class__ is x.__class__, "class differs")
    ctx.check_same(r, x, "larger masked or sparse array read back differs")
