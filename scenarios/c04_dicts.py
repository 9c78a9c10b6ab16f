"""C04: dicts keep every key with its class, every value and the insertion order."""
import collections
import itertools
import numpy as np
from sx.harness import scenario, grid
from sx.source import sizes, texts, chunks
from scenarios.types_ import MyDict, MyDict2, MyStr, MyBytes, MyInt

KEYS = ["str0", "str1", "str2", "bytes0", "bytes1", "bytes2", "int", "float", "complex", "bool", "none", "tuple_ss", "tuple_i", "tuple0", "tuple_n", "mystr", "mybytes", "frozenset"]
CORE = ["str1", "bytes1", "int", "float", "complex", "bool", "none", "tuple_i", "str2", "bytes2"]


def key(ctx, name, kind):
    if kind.startswith("sur"):
        return ctx.str(name, int(kind[3:]), surrogates=True)
    if kind.startswith("str"):
        return ctx.str(name, int(kind[3:]))
    if kind.startswith("bytes"):
        return ctx.bytes(name, int(kind[5:]))
    if kind == "int":
        return ctx.int(name)
    if kind == "someint":
        return ctx.choice(name, [0, 1, -1, 10, 2 ** 70])
    if kind == "float":
        f = ctx.float(name)
        ctx.assume(f == f)
        return f
    if kind == "complex":
        f = ctx.complex(name)
        ctx.assume(f == f)
        return f
    if kind == "somecomplex":
        return ctx.choice(name, [1j, complex(1, -0.0), complex("inf"), complex(-0.0, 5e-324), complex(1e300, -1e-300)])
    if kind == "bool":
        return ctx.choice(name, [True, False])
    if kind == "none":
        return None
    if kind == "tuple_ss":
        return (ctx.str(name, 1), "b")
    if kind == "tuple_i":
        return (ctx.int(name), 1)
    if kind == "tuple_n":
        return ((None, "a"), (ctx.int(name),))
    if kind == "tuple0":
        return ()
    if kind == "np_i8":
        return ctx.int(name, cls=np.int64)
    if kind == "np_f8":
        f = ctx.float(name, cls=np.float64)
        ctx.assume(f == f)
        return f
    if kind == "mystr":
        return ctx.str(name, 1, cls=MyStr)
    if kind == "mybytes":
        return ctx.bytes(name, 1, cls=MyBytes)
    if kind == "frozenset":
        return frozenset({"a"})
    raise ValueError(kind)


def value(ctx, name, kind):
    return {"int": lambda: ctx.int(name), "str": lambda: ctx.str(name, 1), "list": lambda: [ctx.int(name), "s"], "none": lambda: None,
            "dict": lambda: {"i": ctx.int(name)}, "array": lambda: ctx.array(name, "f8", (2,)), "tuple": lambda: (ctx.int(name), "t"),
            "empty": lambda: {}}[kind]()


# values that are pairs or dicts themselves must not be taken for stored (key, value) pairs
@scenario("C04", quick=[{"kind": k, "val": v} for k in KEYS + ["str3", "bytes3", "someint", "sur1", "sur2"] for v in ("int", "tuple")] + grid(kind=["str1", "int"], val=["str", "list", "none", "dict", "array", "empty"]),
          thorough=[{"kind": k, "val": v} for k in KEYS + ["str3", "str4", "bytes3", "bytes4", "someint", "sur1", "sur2", "sur3"] for v in ("int", "tuple", "str", "list", "none", "dict", "array", "empty")])
def single_key(ctx, kind, val):
    d = ctx.dict([(key(ctx, "k", kind), value(ctx, "v", val))])
    ctx.check_same(ctx.roundtrip(d), d, "dict with one key read back differs")


NOFREE = {"int": "someint", "complex": "somecomplex"}      # a free float against a free int or complex as keys is beyond the solver


def pair_params(kinds):
    for a, b in itertools.product(kinds, kinds):
        if {a, b} & {"float", "np_f8"} and a != b:
            a, b = NOFREE.get(a, a), NOFREE.get(b, b)
        if {"int", "complex"} == {a, b}:
            a, b = NOFREE.get(a, a) if a == "complex" else a, NOFREE.get(b, b) if b == "complex" else b
        if a == b and a in ("none", "tuple0", "frozenset"):
            continue
        yield {"kinds": [a, b]}


@scenario("C04", quick=list(pair_params(CORE[:-2])) + [{"kinds": ["str2", k]} for k in ("int", "none", "bytes1")] + [{"kinds": ["bytes2", k]} for k in ("int", "none", "bool")], thorough=list(pair_params([k for k in KEYS])) +
          [{"kinds": list(t)} for t in itertools.product(["str1", "bytes1", "someint", "none", "tuple_i"], repeat=3)])
def several_keys(ctx, kinds):
    d = ctx.dict([(key(ctx, "k%d" % i, k), ctx.int("v%d" % i)) for i, k in enumerate(kinds)])
    ctx.assume(len(d) == len(kinds))
    ctx.check_same(ctx.roundtrip(d), d, "dict with several keys read back differs")


@scenario("C04", quick=grid(special=["\"", "\\", "/", ".", "..", "'", "\0", "data0", "b\"", "None", "True", "1", "1.0", "()", "\n", "\xe9", "\U0001F600", "b'a'", "/data", "data_0"], side=["pre", "post"]),
          thorough=grid(special=["\"", "\\", "/", ".", "..", "'", "\0", "data0", "b\"", "None", "True", "1", "1.0", "()", "\n", "\xe9", "\U0001F600", "b'a'", "//", "./", "data_0", "item_index", "\\\\"], side=["pre", "post", "both"]))
def special_text_keys(ctx, special, side):
    """special text next to unknown characters, as str and as bytes key of one dict"""
    k = ctx.str("k", 1)
    t = special + k if side == "pre" else k + special if side == "post" else k + special + k
    b = special.encode("utf8") + b"x"
    d = ctx.dict([(special, 1), (t, "v"), (b, [2, "q"]), ((special, 1), 3)])
    ctx.assume(len(d) == 4)
    ctx.check_same(ctx.roundtrip(d), d, "dict with special text keys read back differs")


@scenario("C04", quick=grid(n=sizes(1100, [11, 102]), kind=["str", "int", "tuple"]), thorough=grid(n=[9, 10, 11, 12, 100, 101, 1001], kind=["str", "int", "tuple", "float", "none"]))
def many_keys(ctx, n, kind):
    """insertion order of larger dicts, names sorting differently from the insertion order"""
    pos = ctx.choice("pos", sorted({0, 1, n // 2, n - 1}))
    x = ctx.str("x", 1)
    pairs = []
    for i in range(n):
        j = (i * 7) % 1009
        k = {"str": "k%d" % j, "int": j - 5, "tuple": (j, "a"), "float": j / 4, "none": None if i == 3 else "q%d" % j}[kind]
        pairs.append((k, x if i == pos else i))
    d = ctx.dict(pairs)
    ctx.check_same(ctx.roundtrip(d), d, "larger dict read back differs")


@scenario("C04", quick=[{"words": w} for w in chunks(texts(), 8)])
def words_of_the_source(ctx, words):
    """texts the code mentions as keys, one character of them or next to them unknown"""
    w = ctx.choice("w", words)
    x = ctx.str("x", 1)
    t = ctx.choice("form", [0, 1, 2])
    t = w[:-1] + x if t == 0 else w + x if t == 1 else x + w
    d = ctx.dict([(t, 1), (w.encode("utf8"), "v"), (w + "~", [w])])
    ctx.assume(len(d) == 3)
    ctx.check_same(ctx.roundtrip(d), d, "dict with keys used by the code itself read back differs")


@scenario("C04", quick=grid(n=sizes(3000, [40, 255, 256, 1000]), kind=["str", "bytes", "tuple"]))
def key_length(ctx, n, kind):
    """unknown characters at either end of a longer key, next to one differing in the last character"""
    if kind == "bytes":
        x = ctx.bytes("x", 1)
        a, b = b"k" * (n - 1) + x, x + b"k" * (n - 1)
    else:
        x = ctx.str("x", 1)
        a, b = "k" * (n - 1) + x, x + "k" * (n - 1)
    if kind == "tuple":
        a, b = (a, 1), (b, 1)
    d = ctx.dict([(a, 1), (b, 2), ("k" * n, 3)])
    ctx.check_same(ctx.roundtrip(d), d, "dict with long keys read back differs")


CLASSES = {"MyDict": MyDict, "MyDict2": MyDict2, "OrderedDict": collections.OrderedDict, "Counter": collections.Counter}


@scenario("C04", quick=grid(cls=list(CLASSES), kind=["str1", "int", "tuple_i", "none"], n=[0, 1]), thorough=grid(cls=list(CLASSES), kind=CORE, n=[0, 1]))
def subclasses(ctx, cls, kind, n):
    c = CLASSES[cls]
    d = ctx.dict([(key(ctx, "k", kind), ctx.int("v"))] * n + [("tail", ctx.int("w"))] * n, cls=c)
    ctx.check_same(ctx.roundtrip(d), d, "instance of dict subclass read back differs")


@scenario("C04", quick=grid(depth=sizes(70, [20]), kind=["str", "int"]))
def deep(ctx, depth, kind):
    v = ctx.int("v")
    d = {"a": v}
    for i in range(depth):
        d = {"n" if kind == "str" else i: d, "z": i}
    ctx.check_same(ctx.roundtrip(d), d, "deeply nested dict read back differs")


@scenario("C04", quick=grid(depth=[2, 3], kind=["str1", "int", "tuple_i"]), thorough=grid(depth=[2, 3, 6], kind=CORE))
def nested(ctx, depth, kind):
    k = key(ctx, "k", kind)
    d = ctx.dict([(k, ctx.int("v"))])
    for i in range(depth):
        d = ctx.dict([("z%d" % i, i), (k, d)]) if i % 2 else {"n": d, "a": [d, "x"]}
    ctx.check_same(ctx.roundtrip(d), d, "nested dict read back differs")


@scenario("C04", quick=grid(where=["key", "tuple", "nested", "beside"], bits=[14280, 14285, 20000]), thorough=grid(where=["key", "tuple", "nested", "beside"], bits=[14279, 14280, 14284, 14285, 14288, 16384, 20000, 100000]))
def huge_int_key(ctx, where, bits):
    """int keys on both sides of Python's limit for int/str conversion (4300 digits)"""
    k = ctx.choice("k", [1 << bits, (1 << bits) - 1, -(1 << bits), -(1 << bits) + 1])
    v = ctx.int("v")
    x = {"key": lambda: {k: v}, "tuple": lambda: {(k, 1): v, 1: "b"}, "nested": lambda: {"a": {k: v}}, "beside": lambda: {1: v, k: "a", k + 1: None, "s": k}}[where]()
    ctx.check_same(ctx.roundtrip(x), x, "dict read back differs")


NPKEYS = ["bool", "int8", "uint8", "int32", "int64", "uint64", "float16", "float32", "float64", "complex64", "complex128", "str_", "bytes_"]


def np_key(ctx, name, cls):
    c = getattr(np, cls)
    if cls == "bool":
        return c(ctx.choice(name, [True, False]))
    if cls in ("str_", "bytes_"):
        return c(ctx.choice(name, ["", "a", "b/c", "\xe9"])) if cls == "str_" else c(ctx.choice(name, [b"", b"a", b"b/c", b"\xff"]))
    if "int" in cls:
        return ctx.int(name, cls=c)
    x = ctx.float(name, cls=c) if cls.startswith("float") else ctx.complex(name, cls=c)
    ctx.assume(x == x)
    return x


@scenario("C04", quick=grid(cls=NPKEYS, val=["int", "bool", "float", "npint", "text"]))
def numpy_keys(ctx, cls, val):
    """keys and values which are numbers keep their classes though the pair could be stored as one array"""
    k = np_key(ctx, "k", cls)
    v = {"int": lambda: ctx.int("v"), "bool": lambda: ctx.choice("v", [True, False]), "float": lambda: ctx.float("v"), "npint": lambda: ctx.int("v", cls=np.int16), "text": lambda: ctx.str("v", 1)}[val]()
    d = ctx.dict([(k, v), ("last", v)])
    ctx.check_same(ctx.roundtrip(d), d, "dict with numpy scalar as key read back differs")


@scenario("C04", quick=grid(cls=["int", "float", "complex", "str", "bytes", "tuple", "NoneType"], val=["int", "text"]))
def same_name(ctx, cls, val):
    """classes of keys are told apart even if they are named like a builtin class"""
    from scenarios import named_
    c = getattr(named_, cls)
    x = ctx.int("x", -3, 3)
    k = {"int": lambda: c(ctx.choice("k", [0, -7, 2 ** 70])), "float": lambda: c(ctx.choice("k", [1.5, 3.0])), "complex": lambda: c(ctx.choice("k", [1j, 2 + 1j])), "str": lambda: c(ctx.choice("k", ["", "a"])),
         "bytes": lambda: c(ctx.choice("k", [b"", b"a"])), "tuple": lambda: c(ctx.choice("k", [(), (1,), ("a", 2)])), "NoneType": lambda: c()}[cls]()
    d = {"first": 1, k: x if val == "int" else ["t", x]}
    ctx.check_same(ctx.roundtrip(d), d, "dict with key of a class named like a builtin one read back differs")
