"""C05: objects referenced several times are stored once and come back as one object."""
import numpy as np
from sx.harness import scenario, grid, quiet
from sx.source import sizes, texts, chunks
from scenarios.types_ import Plain, MyList, MyDict, MyStr

MUTABLE = ["list", "numlist", "emptylist", "dict", "emptydict", "set", "emptyset", "array", "objarray", "strarray", "plain", "mylist", "mydict", "masked", "matrix"]
IMMUTABLE = ["tuple", "str", "bytes", "mystr"]


def obj(ctx, kind, name):
    if kind == "list":
        return [ctx.int(name), "a"]
    if kind == "numlist":
        return [ctx.int(name), 1]
    if kind == "emptylist":
        return []
    if kind == "dict":
        return {"k": ctx.int(name)}
    if kind == "emptydict":
        return {}
    if kind == "set":
        return ctx.set([ctx.int(name), "a"])
    if kind == "emptyset":
        return set()
    if kind == "array":
        return ctx.array(name, "i4", (2,))
    if kind == "objarray":
        a = np.empty((2,), dtype=object)
        a[0], a[1] = [1, "x"], "y"
        return a
    if kind == "strarray":
        return np.array(["ab", "c"])
    if kind == "plain":
        return Plain("v")
    if kind == "mylist":
        return MyList([1, "a"])
    if kind == "mydict":
        return MyDict({"k": 1})
    if kind == "masked":
        return ctx.masked(ctx.array(name, "i4", (2,)), np.array([True, False]))
    if kind == "matrix":
        return np.matrix([[1, 2]])
    if kind == "tuple":
        return (ctx.int(name), "a")
    if kind == "str":
        return ctx.str(name, 2)
    if kind == "bytes":
        return ctx.bytes(name, 2)
    if kind == "mystr":
        return ctx.str(name, 1, cls=MyStr)
    raise ValueError(kind)


LAYOUTS = ["list", "dict", "nested", "keyed", "objarray"]


def layout(ctx, how, s):
    """structure with three slots -> object, function returning the slots of the loaded one"""
    if how == "list":
        return [s[0], s[1], s[2], None], lambda r: [r[0], r[1], r[2]]
    if how == "dict":
        return {"z": s[0], "a": s[1], "m": s[2]}, lambda r: [r["z"], r["a"], r["m"]]
    if how == "nested":
        return [[s[0], 1, "q"], {"x": (s[1], "t")}, s[2]], lambda r: [r[0][0], r[1]["x"][0], r[2]]
    if how == "objarray":
        a = np.empty((3,), dtype=object)
        for i in range(3):
            a[i] = s[i]
        return a, lambda r: [r[0], r[1], r[2]]
    return {(0, "x"): s[0], (1, "y"): s[1], (2, "z"): s[2]}, lambda r: [r[(0, "x")], r[(1, "y")], r[(2, "z")]]


@scenario("C05", quick=grid(kind=MUTABLE + IMMUTABLE, how=["list"]) + grid(kind=["list", "dict", "array", "str", "plain"], how=LAYOUTS[1:]),
          thorough=grid(kind=MUTABLE + IMMUTABLE, how=LAYOUTS))
def slots(ctx, kind, how):
    """three slots, each holding one of two equal looking objects"""
    a, b = obj(ctx, kind, "a"), obj(ctx, kind, "b")
    pat = ctx.choice("pattern", ["aaa", "aab", "aba", "baa", "abb", "bbb"])
    s = [a if c == "a" else b for c in pat]
    x, get = layout(ctx, how, s)
    r = ctx.roundtrip(x)
    ctx.check_same(r, x, "structure with shared objects read back differs")
    g = get(r)
    for i in range(3):
        for j in range(i):
            if s[i] is s[j]:
                ctx.check(g[i] is g[j], "object referenced twice comes back as two objects")
            elif kind in MUTABLE:
                ctx.check(g[i] is not g[j], "distinct objects come back as one")


@scenario("C05", quick=grid(kind=["list", "dict", "array"]), thorough=grid(kind=MUTABLE))
def shared_in_shared(ctx, kind):
    """a shared container holding a shared object that is also referenced elsewhere, before or after it"""
    inner = obj(ctx, kind, "a")
    outer = [inner, "o"]
    first = ctx.choice("first", [0, 1, 2])
    items = [inner, outer, {"o": outer, "i": inner}, outer]
    x = items[first:] + items[:first]
    r = ctx.roundtrip(x)
    ctx.check_same(r, x, "structure with shared objects read back differs")
    r = r[4 - first:] + r[:4 - first]
    for y in (r[1][0], r[2]["i"], r[2]["o"][0], r[3][0]):
        ctx.check(y is r[0], "object referenced several times comes back as several objects")
    ctx.check(r[1] is r[2]["o"] and r[1] is r[3], "container referenced several times comes back as several objects")


def count(ctx, node):
    """number of nodes which are not mere references"""
    h5 = ctx.h5
    if isinstance(node, h5.Group):
        return 1 + sum(count(ctx, node[k]) for k in node)
    meta = node.dtype.metadata or {}
    return 0 if meta.get("ref") is not None else 1


@scenario("C05", quick=grid(kind=MUTABLE + IMMUTABLE, n=[2, 4]) + grid(kind=["list", "array", "str"], n=sizes(100)) + grid(kind=["list"], n=[n for n in sizes(1100) if n > 101]), thorough=grid(kind=MUTABLE + IMMUTABLE, n=[2, 3, 8]))
def stored_once(ctx, kind, n):
    a = obj(ctx, kind, "a")
    f1, f2 = ctx.file("one.h5"), ctx.file("many.h5")
    with quiet():
        ctx.dump([a, None], f1)
        ctx.dump([a, None] + [a] * (n - 1), f2)
    counts = []
    for f in (f1, f2):
        with ctx.h5.File(f, "r") as h:
            counts.append(count(ctx, h["data"]))
    ctx.check(counts[0] == counts[1], "object referenced %d times is stored %d times" % (n, counts[1] - counts[0] + 1))


@scenario("C05", quick=grid(n=[2, 3, 5], how=["keys", "setkeys", "mixed"]), thorough=grid(n=[2, 3, 5, 12], how=["keys", "setkeys", "mixed"]))
def temporaries(ctx, n, how):
    """objects which exist only while they are dumped (pairs made for dict items) are never taken for later ones"""
    if how == "keys":
        x = ctx.dict([((i, "k"), ctx.int("v%d" % i)) for i in range(n)])
    elif how == "setkeys":
        x = [ctx.dict([(frozenset({i}), [ctx.int("v%d" % i), "s"])]) for i in range(n)]
    else:
        x = {"a": ctx.dict([((i, "k"), (i, "w")) for i in range(n)]), "b": ctx.dict([((i, "k"), (ctx.int("v%d" % i), "w")) for i in range(n)])}
    ctx.check_same(ctx.roundtrip(x), x, "dict items read back differ")


@scenario("C05", quick=grid(kind=["masked", "strarray", "objarray", "matrix", "array", "bytesarray"], n=[2, 3]), thorough=grid(kind=["masked", "strarray", "objarray", "matrix", "array", "bytesarray"], n=[2, 3, 6]))
def array_temporaries(ctx, kind, n):
    """parts of arrays handed out as fresh objects while dumping"""
    out = []
    for i in range(n):
        if kind == "masked":
            out.append(ctx.masked(ctx.array("a%d" % i, "i4", (2,)), np.array([bool(i % 2), False])))
        elif kind == "strarray":
            out.append(np.array(["s%d" % i, "t"]))
        elif kind == "bytesarray":
            out.append(np.array([b"s%d" % i, b"t"]))
        elif kind == "objarray":
            a = np.empty((2,), dtype=object)
            a[0], a[1] = "s%d" % i, (i, "x")
            out.append(a)
        elif kind == "matrix":
            out.append(np.matrix([[i, 2]]))
        else:
            out.append(ctx.array("a%d" % i, "i4", (2,)))
    ctx.check_same(ctx.roundtrip(out), out, "list of arrays read back differs")


@scenario("C05", quick=grid(kind=["list", "dict", "array", "str"]), thorough=grid(kind=MUTABLE + IMMUTABLE))
def separate_dumps(ctx, kind):
    """sharing is confined to one dump: the same object dumped to two paths of a file"""
    a = obj(ctx, kind, "a")
    f = ctx.file("p.h5")
    with quiet():
        ctx.dump([a, "1", a], f, path="/one")
        ctx.dump([a, "2", a], f, "a", path="/two")
        r1, r2 = ctx.load(f, path="/one"), ctx.load(f, path="/two")
    ctx.check_same(r1, [a, "1", a], "first dump read back differs")
    ctx.check_same(r2, [a, "2", a], "second dump read back differs")
    ctx.check(r1[0] is r1[2] and r2[0] is r2[2], "sharing lost")


FRESH = ["list", "tuple", "tuple1", "tuple3", "tuple5", "dict", "set", "array"]


@scenario("C05", quick=grid(kind=FRESH, n=[3, 40]), thorough=grid(kind=FRESH, n=[3, 10, 40, 200]))
def loader_temporaries(ctx, kind, n):
    """a loader hands out objects which exist only until they are dumped"""
    from scenarios.custom_ import FreshHolder, register
    register(ctx, FreshHolder)
    v = ctx.int("v")
    one = {"list": lambda i: [i, "x"], "tuple": lambda i: (i, "x"), "tuple1": lambda i: ([i],), "tuple3": lambda i: (i, "x", "y"),
           "tuple5": lambda i: (i, "x", None, 2.5, "y"), "set": lambda i: {(i, "x")}, "dict": lambda i: {"k": i}, "array": lambda i: np.array([i, 1])}[kind]
    items = [one(i) for i in range(n)]
    if kind not in ("array", "set"):
        items[-1] = one(v)
    r = ctx.roundtrip(FreshHolder(items))
    ctx.check(r.__class__ is FreshHolder, "class of object differs")
    ctx.check_same(r.items, items, "items made by a loader read back differ")


@scenario("C05", quick=grid(kind=["list", "array", "str", "dict"], n=sizes(100, [40])) + grid(kind=["list"], n=[n for n in sizes(1100, [300]) if n > 101]), thorough=grid(kind=MUTABLE + IMMUTABLE, n=sizes(3000, [40, 300])))
def far_apart(ctx, kind, n):
    """many other objects between the places of a shared one, and between two equal ones"""
    a, b = obj(ctx, kind, "a"), obj(ctx, kind, "b")
    x = [a, b] + [[i] for i in range(n)] + [b, a]
    r = ctx.roundtrip(x)
    ctx.check_same(r, x, "shared objects read back differ")
    ctx.check(r[0] is r[-1] and r[1] is r[-2], "sharing lost")
    if kind != "str":
        ctx.check(r[0] is not r[1], "different objects merged")
    ctx.check(r[2] is not r[3] and r[2] is not r[-3], "different objects merged")
