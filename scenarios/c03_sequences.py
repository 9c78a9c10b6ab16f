"""C03: lists, tuples and sets keep class, length, order and the value of every item."""
import itertools
import numpy as np
from sx.harness import scenario, grid
from sx.source import sizes, texts, chunks

NUM = ["bool", "int", "float", "complex"]
NPNUM = ["i1", "i8", "u1", "u8", "f2", "f4", "f8", "c8", "c16", "b1"]
OTHER = ["str", "bytes", "none", "list", "tuple", "dict", "array", "emptylist", "emptystr"]
KINDS = NUM + NPNUM + OTHER
HASHABLE = NUM + NPNUM + ["str", "bytes", "none", "tuple", "emptytuple", "emptystr", "emptybytes"]


def item(ctx, name, kind):
    if kind == "bool":
        return ctx.choice(name, [True, False])
    if kind == "int":
        return ctx.int(name)
    if kind == "someint":
        return ctx.choice(name, [0, 1, -3, 2 ** 53 + 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 64])
    if kind == "someu8":
        return np.uint64(ctx.choice(name, [0, 1, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]))
    if kind == "float":
        return ctx.float(name)
    if kind == "complex":
        return ctx.complex(name)
    if kind == "b1":
        return ctx.choice(name, [np.bool_(True), np.bool_(False)])
    if kind in NPNUM:
        t = np.dtype(kind).type
        return ctx.int(name, cls=t) if kind[0] in "iu" else ctx.float(name, cls=t) if kind[0] == "f" else ctx.complex(name, cls=t)
    if kind == "str":
        return ctx.str(name, 1)
    if kind == "bytes":
        return ctx.bytes(name, 1)
    if kind == "none":
        return None
    if kind == "list":
        return [ctx.int(name), "x"]
    if kind == "numlist":
        return [ctx.int(name), 1]
    if kind == "tuple":
        return (ctx.int(name), "x")
    if kind == "dict":
        return {"k": ctx.int(name)}
    if kind == "array":
        return ctx.array(name, "i8", (2,))
    if kind == "emptylist":
        return []
    if kind == "emptytuple":
        return ()
    if kind == "emptystr":
        return ""
    if kind == "emptybytes":
        return b""
    if kind == "emptydict":
        return {}
    if kind == "emptyset":
        return set()
    raise ValueError(kind)


def make(ctx, cls, items):
    if cls == "list":
        return list(items)
    if cls == "tuple":
        return tuple(items)
    return ctx.set(items)


SEQ = ["list", "tuple"]


def number_kind(x):
    c = x.__class__
    return "b" if c in (bool, np.bool_) else "i" if issubclass(c, (int, np.integer)) else "f" if issubclass(c, (float, np.floating)) else "c"


@scenario("C03", quick=grid(cls=SEQ + ["set"], kind=NUM + NPNUM, n=[1, 2]))
def one_kind_of_number(ctx, cls, kind, n):
    """numbers of a single kind do not become numbers of another kind"""
    items = [item(ctx, "x%d" % i, kind) for i in range(n)]
    if cls == "set":
        for i in items:
            if kind in ("float", "complex") or kind[0] in "fc":
                ctx.assume(i == i)
    x = make(ctx, cls, items)
    y = ctx.roundtrip(x)
    ctx.check_same(y, x, "%s read back differs" % cls)
    for v in list(y):
        ctx.check(number_kind(v) == number_kind(items[0]), "kind of number differs")


def pairs():
    """every ordered pair of kinds; list and tuple alternate"""
    for i, (a, b) in enumerate(itertools.product(KINDS, KINDS)):
        yield {"cls": SEQ[i % 2], "kinds": [a, b]}


@scenario("C03", quick=[{"cls": "list", "kinds": []}, {"cls": "tuple", "kinds": []}] +
          [{"cls": c, "kinds": [k]} for c in SEQ for k in KINDS + ["numlist", "emptytuple", "emptydict", "emptyset"]] + list(pairs()),
          thorough=[{"cls": c, "kinds": list(ks)} for c in SEQ for n in (0, 1, 2) for ks in itertools.product(KINDS, repeat=n)] +
                   [{"cls": "list", "kinds": list(ks)} for ks in itertools.product(NUM + ["i8", "u8", "f4", "str", "none", "list"], repeat=3)])
def sequence(ctx, cls, kinds):
    x = make(ctx, cls, [item(ctx, "x%d" % i, k) for i, k in enumerate(kinds)])
    ctx.check_same(ctx.roundtrip(x), x, "%s read back differs" % cls)


TRIPLES = [["int", "int", "int"], ["float", "int", "float"], ["int", "float", "complex"], ["bool", "int", "float"], ["bool", "bool", "bool"],
           ["i8", "u8", "i8"], ["f4", "int", "i1"], ["int", "int", "str"], ["int", "none", "int"], ["list", "int", "list"], ["str", "str", "str"],
           ["float", "float", "none"], ["numlist", "numlist", "numlist"], ["array", "array", "int"], ["u8", "float", "u1"]]


@scenario("C03", quick=grid(cls=SEQ, kinds=TRIPLES))
def triple(ctx, cls, kinds):
    x = make(ctx, cls, [item(ctx, "x%d" % i, k) for i, k in enumerate(kinds)])
    ctx.check_same(ctx.roundtrip(x), x, "%s read back differs" % cls)


SETS = [[]] + [[k] for k in HASHABLE] + [["int", "int"], ["someint", "float"], ["float", "float"], ["int", "str"], ["str", "str"], ["none", "int"],
        ["bool", "int"], ["bytes", "str"], ["tuple", "int"], ["tuple", "tuple"], ["complex", "float"], ["i8", "someu8"], ["someint", "int"], ["someint", "someint", "float"], ["none", "str", "int"],
        ["emptytuple", "none"], ["emptytuple", "tuple"], ["emptystr", "emptybytes", "none"], ["bool", "str", "emptytuple"], ["bool", "none"]]


@scenario("C03", quick=[{"kinds": k} for k in SETS],
          thorough=[{"kinds": list(k)} for n in (0, 1, 2) for k in itertools.combinations_with_replacement([h if h not in ("int", "u8") else "some" + h for h in HASHABLE], n)] +
                   [{"kinds": list(k)} for k in itertools.combinations_with_replacement(["someint", "float", "bool", "str", "bytes", "none"], 3)])
def set_items(ctx, kinds):
    items = [item(ctx, "x%d" % i, k) for i, k in enumerate(kinds)]
    for i, k in enumerate(kinds):
        if k in ("float", "complex") or k[0] in "fc":
            ctx.assume(items[i] == items[i])      # NaN has no identity in a set
    x = ctx.set(items)
    ctx.check_same(ctx.roundtrip(x), x, "set read back differs")


@scenario("C03", quick=grid(n=[11, 101], kind=["int", "float", "str", "none"], cls=["list"]) + grid(n=sizes(500), kind=["str"], cls=["list"]) +
          grid(n=sizes(1100), kind=["none"], cls=["list"]) + grid(n=sizes(20000), kind=["int"], cls=["list", "tuple"]) + grid(n=[12], kind=["int", "none"], cls=["tuple"]),
          thorough=grid(n=[9, 10, 11, 12, 99, 100, 101, 1001], kind=["int", "float", "str", "none", "bool"], cls=SEQ))
def long_sequence(ctx, n, kind, cls):
    """an unknown item at an unknown position of a longer sequence"""
    pos = ctx.choice("pos", sorted({0, 1, n // 2, n - 2, n - 1} if n < 300 else {n - 1}))
    items = [{"int": i, "float": i / 2, "str": "s%d" % i, "none": i, "bool": i % 3 == 0}[kind] for i in range(n)]
    items[pos] = item(ctx, "x", kind)
    x = make(ctx, cls, items)
    ctx.check_same(ctx.roundtrip(x), x, "long %s read back differs" % cls)


@scenario("C03", quick=grid(depth=[2, 3, 5], outer=SEQ, kind=["int", "str", "emptylist", "set", "emptyset"]) + grid(depth=sizes(70, [20]), outer=["list"], kind=["int"]),
          thorough=grid(depth=[2, 3, 5, 20], outer=SEQ, kind=["int", "str", "emptylist", "emptytuple", "float", "complex", "set", "emptyset", "emptystr"]))
def nested(ctx, depth, outer, kind):
    v = ctx.set([ctx.int("v"), "m"]) if kind == "set" else item(ctx, "v", kind)
    x = v
    for i in range(depth):
        x = [i, x] if (outer == "list") == (i % 2 == 0) else (x, "t%d" % i)
    ctx.check_same(ctx.roundtrip(x), x, "nested sequence read back differs")


NPITEMS = ["td", "dt", "str_", "bytes_", "void", "mixed"]


@scenario("C03", quick=[p for p in grid(cls=["list", "tuple", "set"], kind=NPITEMS, n=[1, 2]) if (p["cls"], p["kind"]) != ("set", "void")],
          thorough=[p for p in grid(cls=["list", "tuple", "set"], kind=NPITEMS, n=[1, 2, 3]) if (p["cls"], p["kind"]) != ("set", "void")])
def numpy_items(ctx, cls, kind, n):
    """numpy scalars which are no numbers, or count as numbers but are none"""
    of = {"td": lambda v: np.timedelta64(v, "D"), "dt": lambda v: np.datetime64(v, "s"), "str_": lambda v: np.str_("a%d" % v), "bytes_": lambda v: np.bytes_(b"b%d" % v), "void": lambda v: np.void(b"v%d" % v)}
    items = []
    for i in range(n):
        v = ctx.choice("v%d" % i, [0, 1, -5, 2 ** 40])
        items.append(of[kind](v + i) if kind != "mixed" else np.timedelta64(v, "ms") if i % 2 == 0 else v)
    if kind == "mixed":
        items.append(1)
    if cls == "set":
        ctx.assume(len(set(items)) == len(items))
    y = {"list": list, "tuple": tuple, "set": set}[cls](items)
    r = ctx.roundtrip(y)
    ctx.check(r.__class__ is y.__class__, "class of container differs")
    ctx.check(len(r) == len(y), "length of container differs")
    if cls == "set":
        ctx.check(all(any(a.__class__ is b.__class__ and bool(a == b) for b in r) for a in y), "item of set differs")
        return
    for a, b in zip(y, r):
        ctx.check(a.__class__ is b.__class__ and bool(a == b), "item differs")
        ctx.check(getattr(a, "dtype", None) == getattr(b, "dtype", None), "dtype of item differs")
