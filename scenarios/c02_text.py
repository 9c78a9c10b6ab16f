"""C02: str and bytes come back with every character and byte and with their class."""
from sx.harness import scenario, grid
from sx.source import sizes, texts, chunks
from scenarios.types_ import MyStr, MyBytes, MyStr2
from scenarios.c01_scalars import wrap

WHERE = ["top", "list", "tuple", "dict", "nested"]


@scenario("C02", quick=grid(n=[0, 1, 2, 3, 5], where=["top"]) + grid(n=[2], where=WHERE[1:]),
          thorough=grid(n=list(range(0, 9)), where=WHERE))
def str_value(ctx, n, where):
    x = ctx.str("x", n)
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "str read back differs")


@scenario("C02", quick=grid(n=[0, 1, 2, 3, 5], where=["top"]) + grid(n=[2], where=WHERE[1:]),
          thorough=grid(n=list(range(0, 13)), where=WHERE))
def bytes_value(ctx, n, where):
    x = ctx.bytes("x", n)
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "bytes read back differs")


@scenario("C02", quick=grid(n=[0, 1, 2], cls=["MyStr", "MyBytes", "MyStr2"], where=["top", "list"]),
          thorough=grid(n=[0, 1, 2, 3, 4], cls=["MyStr", "MyBytes", "MyStr2"], where=WHERE))
def subclass_value(ctx, n, cls, where):
    c = {"MyStr": MyStr, "MyBytes": MyBytes, "MyStr2": MyStr2}[cls]
    x = ctx.bytes("x", n, cls=c) if c is MyBytes else ctx.str("x", n, cls=c)
    obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "text subclass read back differs")


@scenario("C02", quick=grid(kind=["str", "bytes"], n=sizes(70000, [40, 300])), thorough=grid(kind=["str", "bytes"], n=[40, 300, 5000, 70000]))
def long_text(ctx, kind, n):
    """one unknown character anywhere in a longer text"""
    if kind == "str":
        x = "a" * (n // 2) + ctx.str("x", 1) + "\xe4" * (n - n // 2)
    else:
        x = b"a" * (n // 2) + ctx.bytes("x", 1) + b"\0" * (n - n // 2)
    ctx.check_same(ctx.roundtrip(x), x, "long text read back differs")


@scenario("C02", quick=[{"words": w} for w in chunks(texts(), 12)])
def words_of_the_source(ctx, words):
    """texts the code mentions, one character of them or next to them unknown"""
    w = ctx.choice("w", words)
    x = ctx.str("x", 1)
    t = ctx.choice("form", [0, 1, 2])
    t = w[:-1] + x if t == 0 else w + x if t == 1 else x + w
    ctx.check_same(ctx.roundtrip([t, w, w.encode("utf8")]), [t, w, w.encode("utf8")], "text read back differs")


@scenario("C02", quick=grid(a=["str", "bytes"], b=["str", "bytes"], na=[0, 1, 2], nb=[1]),
          thorough=grid(a=["str", "bytes"], b=["str", "bytes"], na=[0, 1, 2, 3], nb=[0, 1, 2, 3]))
def neighbours(ctx, a, b, na, nb):
    """two texts side by side do not influence each other"""
    x, y = getattr(ctx, a)("x", na), getattr(ctx, b)("y", nb)
    r = ctx.roundtrip([x, y])
    ctx.check_same(r, [x, y], "texts in a list read back differ")


@scenario("C02", quick=grid(n=[1, 2, 3], where=["top"]) + grid(n=[1], where=WHERE[1:] + ["subclass", "set"]),
          thorough=grid(n=[1, 2, 3, 4, 5], where=["top"]) + grid(n=[1, 2], where=WHERE[1:] + ["subclass", "set"]))
def surrogates(ctx, n, where):
    """also texts which hold lone surrogates (as os.fsdecode makes them)"""
    if where == "subclass":
        x = ctx.str("x", n, cls=MyStr, surrogates=True)
        obj, get = x, lambda r: r
    elif where == "set":
        x = ctx.set([ctx.str("x", n, surrogates=True), 1])
        obj, get = x, lambda r: r
    else:
        x = ctx.str("x", n, surrogates=True)
        obj, get = wrap(ctx, x, where)
    ctx.check_same(get(ctx.roundtrip(obj)), x, "str read back differs")
