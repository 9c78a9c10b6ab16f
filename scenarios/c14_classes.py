"""C14: objects of every picklable class survive; subclasses are handled like their nearest supported base."""
import enum
import datetime
import decimal
import fractions
import collections
import functools
import array
import os
import pathlib
import time
import types
import urllib.parse
import uuid
import warnings
import numpy as np
from sx.harness import scenario, grid, quiet
from scenarios import classes_ as C

WHERE = ["top", "list", "tuple", "dict", "twice", "deep"]


def place(where, x):
    return {"top": lambda: x, "list": lambda: ["a", x], "tuple": lambda: (x, None), "dict": lambda: {"k": x, "l": 1}, "twice": lambda: [x, "a", x], "deep": lambda: [{"a": (["t", x], 1)}]}[where]()


def got(where, r):
    return {"top": lambda: [r], "list": lambda: [r[1]], "tuple": lambda: [r[0]], "dict": lambda: [r["k"]], "twice": lambda: [r[0], r[2]], "deep": lambda: [r[0]["a"][0][1]]}[where]()


def instance(ctx, base, cls, n):
    if base in ("list", "tuple"):
        return cls([ctx.int("x"), "a", None][:n])
    if base in ("set", "frozenset"):
        return ctx.set([ctx.int("x"), "a"][:n], cls) if base == "set" else cls([7, "a"][:n])
    if base in ("dict", "ordered"):
        return ctx.dict([("z", ctx.int("x")), ("b", "a")][:n], cls)
    if base == "str":
        return ctx.str("x", n, cls=cls)
    if base == "bytes":
        return ctx.bytes("x", n, cls=cls)
    if base == "int":
        return ctx.int("x", cls=cls)
    if base == "float":
        return ctx.float("x", cls=cls)
    if base == "complex":
        return ctx.complex("x", cls=cls)
    if base == "array":
        return np.arange(n * 2.0).reshape(2, n).view(cls)


@scenario("C14", quick=grid(base=list(C.BASES), shape=C.SHAPES, where=["list"], n=[2]) + grid(base=list(C.BASES), shape=["deeper", "late_mixin", "diamond"], where=["top", "twice", "deep"], n=[1]) + grid(base=["list", "tuple", "set", "dict", "str", "bytes", "ordered"], shape=["sub", "deeper"], where=["top", "dict"], n=[0]),
          thorough=grid(base=list(C.BASES), shape=C.SHAPES, where=WHERE, n=[0, 1, 2]))
def hierarchy(ctx, base, shape, where, n):
    """instances of classes derived from a supported one come back as such with their content"""
    cls = C.CLASSES[base][shape]
    x = instance(ctx, base, cls, n)
    r = ctx.roundtrip(place(where, x))
    for y in got(where, r):
        # subclasses of arrays come back as arrays, see the TODO in load_ndarray_dataset
        ctx.check(y.__class__ is x.__class__ or base == "array" and y.__class__ is np.ndarray, "object comes back with another class")
        ctx.check_same(y, x if base != "array" else np.asarray(x), "content of an instance of a subclass differs")
    g = got(where, r)
    ctx.check(len(g) == 1 or base in ("int", "float", "complex") or g[0] is g[1], "one object comes back as two")


@scenario("C14", quick=grid(a=["list", "dict", "str", "tuple"], b=["list", "dict", "str", "int", "set"]), thorough=grid(a=list(C.BASES), b=list(C.BASES)))
def side_by_side(ctx, a, b):
    """instances of several classes of one hierarchy in one file, in every order"""
    shapes = ["base", "sub", "deep", "mixin_first"]
    sa, sb = ctx.choice("sa", shapes), ctx.choice("sb", shapes)
    ca, cb = C.CLASSES[a][sa], C.CLASSES[b][sb]
    val = {"list": [1, "a"], "tuple": (1, "a"), "set": {1, "a"}, "frozenset": frozenset([1, "a"]), "dict": {"k": "v"}, "ordered": {"k": "v"}, "str": "text", "bytes": b"byte", "int": 7, "float": 1.5, "complex": 1j}
    mk = lambda k, c: np.arange(3).view(c) if k == "array" else c(val[k])
    x = [mk(a, ca), mk(b, cb), mk(a, ca), "t"]
    r = ctx.roundtrip(x)
    for i in range(3):
        ctx.check(r[i].__class__ is x[i].__class__, "object comes back with another class")
        ctx.check_same(r[i], x[i], "content of an instance of a subclass differs")


VALUES = ["int", "str", "list", "nested"]


def value(ctx, kind):
    x = ctx.int("x")
    return {"int": lambda: x, "str": lambda: ctx.str("s", 2), "list": lambda: [x, "a"], "nested": lambda: {"k": [x, (None, b"b")]}}[kind]()


@scenario("C14", quick=grid(i=list(range(len(C.PICKLED))), kind=["int", "nested"], where=["top", "twice"]) + grid(i=[0], kind=VALUES, where=WHERE), thorough=grid(i=list(range(len(C.PICKLED))), kind=VALUES, where=WHERE))
def pickled(ctx, i, kind, where):
    """objects of classes hickle knows nothing of: stored by pickle, with a warning on dump only"""
    cls = C.PICKLED[i]
    x = cls(value(ctx, kind))
    fn = ctx.file("p.h5")
    SW = ctx.need(ctx.mod("hickle.lookup"), "SerializedWarning")
    with ctx.warnings() as w:
        ctx.dump(place(where, x), fn)
        ctx.check(len([m for m in w if issubclass(m.category, SW)]) == 1, "expected one SerializedWarning for an object stored by pickle")
        del w[:]
        r = ctx.load(fn)
        ctx.check(not [m for m in w if issubclass(m.category, SW)], "load issues SerializedWarning")
    for y in got(where, r):
        ctx.check(y.__class__ is cls, "object stored by pickle comes back with another class")
        ctx.check_same(y.v, x.v, "content of an object stored by pickle differs")
    g = got(where, r)
    ctx.check(g[0] is g[-1], "one object comes back as two")


class Colour(enum.Enum):
    RED = 1
    BLUE = "b"


class Num(enum.IntEnum):
    ONE = 1


Point = collections.namedtuple("Point", "x y")

OTHERS = {"class": C.State, "builtin class": list, "function": C.function, "builtin function": len, "enum": Colour.BLUE, "enum class": Colour, "range": range(3, 9, 2), "slice": slice(1, None, 2), "ellipsis": Ellipsis, "notimplemented": NotImplemented,
          "decimal": decimal.Decimal("1.50"), "fraction": fractions.Fraction(1, 3), "date": datetime.date(2020, 2, 29), "datetime": datetime.datetime(2020, 2, 29, 1, 2, 3, 4), "timedelta": datetime.timedelta(days=-1, microseconds=3), "deque": collections.deque([1, "a"], 5),
          "counter": collections.Counter("abca"), "defaultdict": collections.defaultdict(list, {"k": [1]}), "partial": functools.partial(C.function), "bytearray": bytearray(b"a\0b"), "exception": ValueError("x", 1), "frozenset": frozenset([1, "a"]),
          "npfunc": np.sin, "npdtype": np.dtype("f8"), "method": C.State(1).__eq__, "type of type": type, "namedtuple": Point(1, "a"), "object": object, "none type": type(None),
          "struct_time": time.gmtime(86400 * 365), "local time": time.localtime(5), "stat_result": os.stat_result(range(10)), "terminal_size": os.terminal_size((80, 24)), "urlsplit": urllib.parse.urlsplit("http://a/b?c#d"), "uuid": uuid.UUID(int=5), "path": pathlib.PurePosixPath("/a/b"),
          "ordered": collections.OrderedDict([("b", 1), ("a", [2])]), "chainmap": collections.ChainMap({"a": 1}, {"b": 2}), "userdict": collections.UserDict(a=1), "userlist": collections.UserList([1, "a"]), "namespace": types.SimpleNamespace(a=1, b=["x"]),
          "array": array.array("d", [1.5, 2.0])}
try:
    from scipy import sparse
    OTHERS.update(("%s_%s" % (f, k), getattr(sparse, "%s_%s" % (f, k))(np.array([[0, 1.5, 0], [2, 0, 0]]))) for f in ["coo", "dia", "lil", "dok"] for k in ["matrix", "array"] if hasattr(sparse, "%s_%s" % (f, k)))
except ImportError:
    pass
NOSAME = {k: lambda x: (x.shape, x.dtype, x.toarray().tolist()) for k in OTHERS if k.endswith(("_matrix", "_array"))}
NOSAME["local time"] = NOSAME["struct_time"] = lambda x: (tuple(x), x.tm_gmtoff, x.tm_zone)
NOSAME.update({"exception": lambda x: (x.__class__, x.args), "method": lambda x: (x.__func__, x.__self__.v), "partial": lambda x: (x.func, x.args)})
DERIVED = {"counter", "defaultdict", "namedtuple", "npdtype"}


@scenario("C14", quick=grid(kind=sorted(OTHERS), where=["list", "twice"]), thorough=grid(kind=sorted(OTHERS), where=WHERE))
def others(ctx, kind, where):
    x = OTHERS[kind]
    with quiet():
        r = ctx.roundtrip(place(where, x))
    for y in got(where, r):
        f = NOSAME.get(kind, lambda z: z)
        ctx.check(y.__class__ is x.__class__, "object comes back with another class")
        ctx.check(f(y) == f(x), "object comes back different")


class Bad:
    def __reduce_ex__(self, p):
        raise TypeError("cannot be pickled")


def generator():
    yield 1


UNPICKLABLE = {"lambda": lambda: (lambda: 1), "generator": generator, "local class": lambda: type("Local", (), {})(), "bad": Bad, "module": lambda: np, "file": lambda: open("/dev/null"), "lock": lambda: __import__("threading").Lock(), "holder": lambda: C.State(Bad()),
               "localsub": lambda: type("LocalList", (list,), {})([1, "a"]), "localdict": lambda: type("LocalDict", (dict,), {})({"a": 1}), "localstr": lambda: type("LocalStr", (str,), {})("a"), "localint": lambda: type("LocalInt", (int,), {})(3)}


@scenario("C14", quick=grid(kind=sorted(UNPICKLABLE), where=["top", "list", "deep"]), thorough=grid(kind=sorted(UNPICKLABLE), where=WHERE))
def unpicklable(ctx, kind, where):
    """what cannot be restored is refused on dump"""
    x = UNPICKLABLE[kind]()
    with quiet():
        e = ctx.raises(ctx.dump, place(where, x), ctx.file("u.h5"))
    ctx.check(isinstance(e, Exception), "dump of an object that cannot be stored returns normally")


@scenario("C14", quick=grid(kind=["pickled", "mylist", "mixed"], action=["error", "ignore", "once"]))
def warning_filters(ctx, kind, action):
    """what loads does not depend on how warnings are treated; warnings turned into errors stop the dump"""
    x = {"pickled": lambda: [C.State(ctx.int("x"))], "mylist": lambda: C.CLASSES["list"]["deep"]([ctx.int("x"), "a"]), "mixed": lambda: [C.State(1), "a", C.State(2), C.CLASSES["dict"]["sub"]({"a": C.State(3)})]}[kind]()
    fn = ctx.file("w.h5")
    SW = ctx.need(ctx.mod("hickle.lookup"), "SerializedWarning")
    with warnings.catch_warnings():
        warnings.simplefilter(action, SW)
        if action == "error" and kind != "mylist":
            e = None
            try:
                ctx.dump(x, fn)
            except SW as err:
                e = err
            ctx.check(e is not None, "SerializedWarning turned into an error is not raised")
            return
        with quiet() if action != "error" else warnings.catch_warnings():
            ctx.dump(x, fn)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        warnings.simplefilter("ignore", ResourceWarning)
        r = ctx.load(fn)
    ctx.check_same(r, x, "object read back differs")


@scenario("C14", quick=grid(spec=["none", "missing", "submodule", "package"], base=["object", "list", "dict", "str", "int"], where=["top", "list", "twice"]))
def runtime_module(ctx, spec, base, where):
    """classes defined by modules the import system does not know much about"""
    import sys
    import types
    name = {"submodule": "sxrun.part", "package": "sxrun"}.get(spec, "sxrun")
    m = types.ModuleType(name)
    if spec == "missing":
        del m.__spec__
    cls = type("Made", ({"object": object, "list": list, "dict": dict, "str": str, "int": int}[base],), {"__module__": name})
    m.Made = cls
    had = {n: sys.modules.get(n) for n in ("sxrun", "sxrun.part")}
    try:
        if spec == "submodule":
            top = types.ModuleType("sxrun")
            top.__path__ = []
            top.part = m
            sys.modules["sxrun"] = top
        elif spec == "package":
            m.__path__ = []
        sys.modules[name] = m
        if base == "object":
            x = cls()
            x.v = ctx.int("x")
        else:
            x = instance(ctx, base, cls, 2)
        r = ctx.roundtrip(place(where, x))
        for y in got(where, r):
            ctx.check(y.__class__ is cls, "object comes back with another class")
            ctx.check_same(y.__dict__ if base == "object" else y, x.__dict__ if base == "object" else x, "content of an instance of a class of a runtime module differs")
    finally:
        for n, v in had.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v


@scenario("C14", quick=grid(kind=list(C.PICKY), where=["top", "list", "twice", "key"]))
def picky_constructor(ctx, kind, where):
    """subclasses whose constructor accepts nothing but what their base class holds, and enumerations"""
    cls, contents = C.PICKY[kind]
    content = ctx.choice("content", contents)
    x = cls(content)
    if where == "key":
        if cls.__hash__ is None:
            where = "list"
        else:
            r = ctx.roundtrip({x: "v", "other": 1})
            k = [q for q in r if not ctx.truth(q == "other")]
            ctx.check(len(k) == 1 and k[0].__class__ is cls, "class of the key differs")
            ctx.check(k[0] == x, "key differs")
            return
    for r in got(where, ctx.roundtrip(place(where, x))):
        ctx.check(r.__class__ is cls, "class of the object differs")
        ctx.check_same(r, x, "object read back differs")


class PickyArray(np.ndarray):
    """constructor takes something else than the values"""

    def __new__(cls, first, second):
        return np.array([first, second]).view(cls)


@scenario("C14", quick=grid(kind=["chararray", "picky", "recarray", "memmap", "matrix"], dtype=["U2", "O", "f8", "i4", "M8[s]", "S2"], where=["top", "list", "twice"]))
def array_subclass(ctx, kind, dtype, where):
    """values of arrays of ndarray subclasses whose constructor does not take the values"""
    v = ctx.choice("v", [0, 1])
    base = np.array([[["a", "b"], ["", "\xe9"]], [[b"a", b"b"], [b"", b"\xff"]], [[1, None], ["x", [2]]], [[1, 2], [3, 4]]][{"U": 0, "S": 1, "O": 2}.get(dtype[0], 3)][v], dtype=dtype)
    if kind == "chararray":
        if dtype[0] not in "US":
            base = np.array(["a", "b"])
        x = base.view(np.char.chararray)
    elif kind == "picky":
        x = PickyArray(base[0], base[1]) if dtype[0] not in "O" else base.view(PickyArray)
    elif kind == "recarray":
        x = base.view(np.recarray)
    elif kind == "memmap":
        x = base.view(np.memmap)
    else:
        x = np.matrix(base)
    values = np.asarray(x).tolist()
    with quiet():
        r = got(where, ctx.roundtrip(place(where, x)))
    for y in r:
        ctx.check(isinstance(y, np.ndarray) and y.shape == x.shape and np.asarray(y).dtype == np.asarray(x).dtype, "shape or dtype of the array differs")
        ctx.check_same(np.asarray(y).tolist(), values, "values of the array differ")
