"""C20: containers are reassembled by index, not by the order their items are found in."""
import itertools
import numpy as np
from sx.harness import scenario, grid, quiet
from sx.source import sizes

CLS = {"list": list, "tuple": tuple}


def values(ctx, n, kind):
    """n distinguishable items, the first one symbolic; no plain numbers only, such a list is one dataset"""
    x = ctx.int("x")
    out = []
    for i in range(n):
        if kind == "mixed":
            out.append([x, "a", (1, "b"), None, b"c", {"k": i}, 2.5][i] if i < 7 else "s%d" % i)
        elif kind == "groups":
            out.append([x if i == 0 else i, "g"])
        elif kind == "texts":
            out.append("t%d" % i)
    return out


def node_of(h):
    """the group the top object is stored as"""
    return h[list(h.keys())[0]]


def rename(ctx, g, new):
    """gives the members of g, in order of their position, the names in new"""
    old = sorted([(int(v.attrs["item_index"]), k) for k, v in g.items()])
    for i, k in old:
        g.move(k, "~tmp%d" % i)
    for i, k in old:
        g.move("~tmp%d" % i, new[i])


@scenario("C20", quick=grid(cls=["list", "tuple"], n=[2, 3, 4], kind=["mixed", "groups"]) + grid(cls=["set"], n=[3], kind=["mixed"]), thorough=grid(cls=["list", "tuple"], n=[2, 3, 4, 5], kind=["mixed", "groups", "texts"]) + grid(cls=["set"], n=[2, 3, 4], kind=["mixed"]))
def found_in_any_order(ctx, cls, n, kind):
    """every order of the members of the group of a list, tuple or set"""
    x = values(ctx, n, kind)
    if cls == "set":
        x = [v for v in [x[0], "a", (1, "b"), b"c", 2.5][:n]]
    obj = CLS[cls](x) if cls != "set" else ctx.set(x)
    f = ctx.file()
    with quiet():
        ctx.hickle.dump(obj, f, "w")
    perm = ctx.choice("perm", list(itertools.permutations(range(n))))
    with ctx.h5.File(f, "r+") as h:
        rename(ctx, node_of(h), ["item%d" % (7 * p + 1) for p in perm])
    r = ctx.load(f)
    ctx.check(r.__class__ is obj.__class__, "container comes back with another class")
    ctx.check_same(r, obj, "order the items are found in changes the container")


@scenario("C20", quick=grid(cls=["list", "tuple", "array"], n=[2, 3], spread=[0, 1]), thorough=grid(cls=["list", "tuple", "array"], n=[2, 3, 4], spread=[0, 1, 2]))
def any_index(ctx, cls, n, spread):
    """every assignment of positions to items: permutations give that order, positions used twice are refused"""
    x = values(ctx, n, "mixed")
    obj = np.empty((n,), dtype=object) if cls == "array" else CLS[cls](x)
    if cls == "array":
        for i in range(n):
            obj[i] = x[i]
    f = ctx.file()
    with quiet():
        ctx.hickle.dump(obj, f, "w")
    idx = [ctx.int("p%d" % i, lo=0, hi=n - 1 + spread) for i in range(n)]
    with ctx.h5.File(f, "r+") as h:
        g = node_of(h)
        for i, (k, v) in enumerate(sorted(g.items(), key=lambda e: int(e[1].attrs["item_index"]))):
            v.attrs["item_index"] = idx[i]
    twice = False
    for i in range(n):
        for j in range(i):
            if ctx.truth(idx[i] == idx[j]):
                twice = True
    beyond = False
    for i in range(n):
        if ctx.truth(idx[i] >= n):
            beyond = True
    if twice:
        ctx.check(ctx.raises(ctx.load, f) is not None, "two items with the same position make a container")
    elif beyond:
        # a position is left out: not claimed what happens, except that no item is lost
        try:
            r = ctx.load(f)
        except Exception:
            ctx.check(True, "refused")
            return
        if cls == "array":
            ctx.check(True, "shape stored")
            return
        for i in range(n):
            ctx.check_same(r[int(ctx.concrete(idx[i]))], x[i], "item not at its position")
    else:
        r = ctx.load(f)
        ctx.check(r.__class__ is obj.__class__ and len(r) == n, "container comes back with another class or length")
        for i in range(n):
            ctx.check_same(r[int(ctx.concrete(idx[i]))], x[i], "item not at its position")


@scenario("C20", quick=grid(cls=["list", "tuple"], n=sizes(150, [9, 10, 11, 12, 99, 100, 101]), drop=[True, False]) + grid(cls=["list"], n=[1000, 1001], drop=[False]),
          thorough=grid(cls=["list", "tuple"], n=[2, 5, 9, 10, 11, 12, 20, 99, 100, 101, 110, 1001], drop=[True, False]))
def many(ctx, cls, n, drop):
    """number of items around powers of ten, position known from attribute or name only"""
    i = ctx.choice("i", [0, 1, n // 2, n - 2, n - 1])
    x = ["t%d" % j if j % 3 else None for j in range(n)]
    x[int(i)] = ctx.int("v")
    obj = CLS[cls](x)
    f = ctx.file()
    with quiet():
        ctx.hickle.dump(obj, f, "w")
    if drop:
        with ctx.h5.File(f, "r+") as h:
            for v in node_of(h).values():
                del v.attrs["item_index"]
    r = ctx.load(f)
    ctx.check(r.__class__ is obj.__class__ and len(r) == n, "container comes back with another class or length")
    ctx.check_same(r, obj, "order of many items changed")


@scenario("C20", quick=grid(cls=["list", "tuple", "array"], name=["item", "x_", "", "1a"], which=[0, 1]))
def no_position(ctx, cls, name, which):
    """an item without position in attributes and name is refused"""
    x = values(ctx, 3, "mixed")
    obj = np.empty((3,), dtype=object) if cls == "array" else CLS[cls](x)
    if cls == "array":
        for i in range(3):
            obj[i] = x[i]
    f = ctx.file()
    with quiet():
        ctx.hickle.dump(obj, f, "w")
    with ctx.h5.File(f, "r+") as h:
        g = node_of(h)
        k = sorted([(int(v.attrs["item_index"]), k) for k, v in g.items()])[which][1]
        del g[k].attrs["item_index"]
        g.move(k, name + "noindex")
    ctx.check(ctx.raises(ctx.load, f) is not None, "item without position makes a container")


@scenario("C20", quick=grid(n=[2, 3], kind=["str", "tuple", "both"]), thorough=grid(n=[2, 3, 4], kind=["str", "int", "tuple", "both"]))
def dict_order(ctx, n, kind):
    """items of a dict get the order given by their key index, whatever name they are found by"""
    x = ctx.int("x")
    pool = {"str": ["b", "a", "c", "B"], "int": [3, 20, 1, 100], "tuple": [(2, "b"), (1, "a"), (3, "c"), (0, "x")], "both": ["b", (1, "a"), "a", (0, "b")]}[kind][:n]
    vals = [x, "v", [1, "w"], None][:n]
    f = ctx.file()
    with quiet():
        ctx.hickle.dump(ctx.dict(list(zip(pool, vals))), f, "w")
    idx = ctx.choice("idx", list(itertools.product(range(n), repeat=n)))
    with ctx.h5.File(f, "r+") as h:
        for i, (k, v) in enumerate(sorted(node_of(h).items(), key=lambda e: int(e[1].attrs["key_idx"]))):
            v.attrs["key_idx"] = idx[i]
    twice = len(set(idx)) < n
    if twice:
        ctx.check(ctx.raises(ctx.load, f) is not None, "two dict items with the same position make a dict")
        return
    order = sorted(range(n), key=lambda i: idx[i])
    r = ctx.load(f)
    ctx.check(list(r.keys()) == [pool[i] for i in order], "order of the keys is not the stored one")
    for i in range(n):
        ctx.check_same(r[pool[i]], vals[i], "value is attached to another key")


@scenario("C20", quick=grid(n=sizes(150, [9, 10, 11, 101]), kind=["text", "tuple"]), thorough=grid(n=[2, 9, 10, 11, 99, 100, 101, 1001], kind=["text", "tuple", "int", "mixed"]))
def dict_many(ctx, n, kind):
    """order of the keys for item counts around powers of ten"""
    i = ctx.choice("i", [0, 1, n - 2, n - 1])
    key = {"text": lambda j: "k%d" % j, "tuple": lambda j: (j, "a"), "int": lambda j: n - j, "mixed": lambda j: ("k%d" % j, (j, None), j)[j % 3]}[kind]
    pairs = [(key(j), "v%d" % j) for j in range(n)]
    pairs[int(i)] = (pairs[int(i)][0], ctx.int("v"))
    r = ctx.roundtrip(ctx.dict(pairs))
    ctx.check(list(r.keys()) == [k for k, _ in pairs], "order of many keys changed")
    for k, v in pairs:
        ctx.check_same(r[k], v, "value is attached to another key")


@scenario("C20", quick=grid(which=[0, 1, 2], kind=["str", "tuple"]))
def dict_no_position(ctx, which, kind):
    """dict item without position is refused"""
    f = ctx.file()
    ks = ["a", "b", "c"] if kind == "str" else [(1, "a"), (2, "b"), (3, "c")]
    with quiet():
        ctx.hickle.dump(ctx.dict(list(zip(ks, [ctx.int("x"), "v", None]))), f, "w")
    with ctx.h5.File(f, "r+") as h:
        g = node_of(h)
        k = sorted([(int(v.attrs["key_idx"]), k) for k, v in g.items()])[which][1]
        del g[k].attrs["key_idx"]
    ctx.check(ctx.raises(ctx.load, f) is not None, "dict item without position makes a dict")


@scenario("C20", quick=grid(shape=[[3], [2, 2], [11], [1, 12]], kind=["none", "mixed"]) + grid(shape=[[101]], kind=["mixed"]), thorough=grid(shape=[[2], [3], [2, 2], [3, 2], [2, 2, 2], [9], [10], [11], [1, 12], [12, 1], [101]], kind=["none", "mixed"]))
def object_arrays(ctx, shape, kind):
    """items of object arrays stay at their position for every number of items"""
    n = int(np.prod(shape))
    i = ctx.choice("i", sorted({0, 1, n // 2, n - 1}))
    a = np.empty((n,), dtype=object)
    for j in range(n):
        a[j] = None if kind == "none" and j % 2 else "t%d" % j
    a[int(i)] = ctx.int("v")
    a = a.reshape(shape)
    r = ctx.roundtrip(a)
    ctx.check(r.shape == a.shape and r.dtype == a.dtype, "shape or type of the array differs")
    ctx.check_same(r.reshape(-1).tolist(), a.reshape(-1).tolist(), "item of the array at another position")


@scenario("C20", quick=grid(n=[3], cls=["list", "tuple"]), thorough=grid(n=[3, 4], cls=["list", "tuple"]))
def shared_in_any_order(ctx, n, cls):
    """an item which is a reference to another one may be found before it"""
    x = [ctx.int("x"), "a"]
    obj = CLS[cls]([x, "b", x] + ["c"] * (n - 3))
    f = ctx.file()
    with quiet():
        ctx.hickle.dump(obj, f, "w")
    perm = ctx.choice("perm", list(itertools.permutations(range(n))))
    with ctx.h5.File(f, "r+") as h:
        rename(ctx, node_of(h), ["item%d" % (7 * p + 1) for p in perm])
    r = ctx.load(f)
    ctx.check_same(r, obj, "order the items are found in changes the container")
    ctx.check(r[0] is r[2], "shared item comes back as two")
