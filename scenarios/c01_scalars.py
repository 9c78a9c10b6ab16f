"""C01: Python scalars come back with the same class and exactly the same value."""
from sx.harness import scenario, grid

WRAPS = ["top", "list", "tuple", "dict", "nested"]


def wrap(ctx, x, how):
    if how == "top":
        return x, lambda r: r
    if how == "list":
        # the str neighbour keeps the list from being stored as numeric array
        return [x, "s"], lambda r: r[0]
    if how == "tuple":
        return (None, x), lambda r: r[1]
    if how == "dict":
        return {"k": x}, lambda r: r["k"]
    return {"a": [("q", x)]}, lambda r: r["a"][0][1]


@scenario("C01", quick=grid(where=WRAPS))
def int_value(ctx, where):
    x = ctx.int("x")
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "int read back differs")


@scenario("C01", quick=grid(where=WRAPS))
def float_value(ctx, where):
    x = ctx.float("x")
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "float read back differs")


@scenario("C01", quick=grid(where=WRAPS))
def complex_value(ctx, where):
    x = ctx.complex("x")
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "complex read back differs")


@scenario("C01", quick=grid(where=WRAPS))
def bool_none_value(ctx, where):
    x = ctx.choice("x", [True, False, None])
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "bool/None read back differs")


@scenario("C01", quick=grid(where=WRAPS, bits=[14280, 14285, 20000]), thorough=grid(where=WRAPS, bits=[14279, 14280, 14284, 14285, 14288, 16384, 20000, 100000]))
def huge_int(ctx, where, bits):
    """integers on both sides of Python's limit for int/str conversion (4300 digits)"""
    x = ctx.choice("x", [1 << bits, (1 << bits) - 1, -(1 << bits), -(1 << bits) + 1])
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "int read back differs")
