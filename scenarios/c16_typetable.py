"""C16: the type table of a file stays consistent over all histories of use."""
import numpy as np
from collections import OrderedDict
from sx.harness import scenario, grid, quiet
from scenarios import types_ as T, classes_ as K
from scenarios.custom_ import Holder, register

TABLE = "hickle_types_table"

# classes of equal name of two modules, subclasses next to their bases, classes stored by pickle
MAKE = {
    "list": lambda v: [v, "a"], "mylist": lambda v: T.MyList([v, "a"]), "mylist'": lambda v: K.MyList([v, "a"]), "tuple": lambda v: (v, "a"), "mytuple": lambda v: T.MyTuple((v, "a")),
    "dict": lambda v: {"k": v}, "mydict": lambda v: T.MyDict({"k": v}), "mydict'": lambda v: K.MyDict({"k": v}), "ordered": lambda v: OrderedDict([("k", v)]), "set": lambda v: {"a", 1}, "str": lambda v: "text", "mystr": lambda v: T.MyStr("text"), "mystr'": lambda v: K.MyStr("text"),
    "int": lambda v: v, "myint": lambda v: K.MyInt(7), "float": lambda v: 1.5, "bool": lambda v: True, "none": lambda v: None, "npint": lambda v: np.int16(3), "npfloat": lambda v: np.float32(1.5), "array": lambda v: np.arange(3), "matrix": lambda v: np.matrix([[1, 2]]),
    "plain": lambda v: T.Plain("v"), "state": lambda v: K.State(1), "class": lambda v: T.MyList, "nested": lambda v: K.Outer.InList(["n", v]), "alike": lambda v: getattr(K.Outer, "list")(["n", v]), "dtype": lambda v: np.dtype("f4"),
}
KINDS = list(MAKE)
SOME = ["list", "mylist", "mylist'", "mydict'", "str", "mystr'", "npint", "plain", "alike"]


def entries(ctx, h):
    """(class entries, base type entries) of the table below h"""
    t = h[TABLE]
    cl = [t[k] for k in t if t[k].shape is not None]
    return cl, [t[k] for k in t if t[k].shape is None]


def check_item(ctx, r, x):
    ctx.check(r.__class__ is x.__class__, "object comes back with another class")
    ctx.check_same(r, x, "object differs")


@scenario("C16", quick=grid(first=KINDS, n=[2], pool=[KINDS]) + grid(first=SOME, n=[3], pool=[SOME]), thorough=grid(first=KINDS, n=[3], pool=[KINDS]) + grid(first=SOME, n=[4], pool=[SOME]))
def sequences(ctx, first, n, pool):
    """objects of any classes in any order"""
    v = ctx.int("v", -9, 9)
    ks = [first] + [ctx.choice("k%d" % i, pool) for i in range(1, n)]
    x = [MAKE[k](v) for k in ks] + ["end", None]
    fn = ctx.file("t.h5")
    with quiet():
        ctx.dump(x, fn)
        r = ctx.load(fn)
    for a, b in zip(r, x):
        check_item(ctx, a, b)
    with ctx.h5.File(fn, "r") as h:
        cl, base = entries(ctx, h)
        names = [bytes(e[()].tobytes()) for e in cl]
        ctx.check(len(set(names)) == len(names), "type table has several entries for one class")
        for e in cl:
            ctx.check(h[e.attrs["base_type"]].name.startswith("/" + TABLE), "entry of the type table without storage kind")


@scenario("C16", quick=grid(kind=KINDS))
def keyed(ctx, kind):
    """classes first met as dict value, key, item of a set or within another container"""
    v = ctx.int("v", -9, 9)
    a, b = MAKE[kind](v), MAKE[kind](v)
    where = ctx.choice("where", ["values", "deep", "objarray", "holder", "masked"])
    if where == "values":
        x = {"z": a, "b": [b, "t"], (1, "x"): a}
        get = lambda r: [r["z"], r["b"][0], r[(1, "x")]]
    elif where == "deep":
        x = [[[a, "x"], {"k": (b, None)}], "e", a]
        get = lambda r: [r[0][0][0], r[0][1]["k"][0], r[2]]
    elif where == "objarray":
        x = np.empty((3,), dtype=object)
        x[0], x[1], x[2] = a, "m", b
        get = lambda r: [r[0], r[2]]
    elif where == "holder":
        register(ctx)
        x = [Holder([a, "h", b]), Holder([b])]
        get = lambda r: [r[0].items[0], r[0].items[2], r[1].items[0]]
    else:
        x = [np.ma.array([1, 2], mask=[True, False]), a, np.arange(2), b]
        get = lambda r: [r[1], r[3]]
    r = ctx.roundtrip(x)
    for y in get(r):
        check_item(ctx, y, a)


@scenario("C16", quick=grid(n=[2, 3], reopen=["keep", "a", "r+", "name"]), thorough=grid(n=[2, 3, 4], reopen=["keep", "a", "r+", "name"]))
def histories(ctx, n, reopen):
    """dumps into one file, one after the other, kept open or opened anew: all of them load after each step"""
    fn = ctx.file("h.h5")
    pool = ["list", "mylist", "mylist'", "mydict'", "plain"] if n < 4 else ["mylist", "mylist'", "plain"]
    paths = ["/", "a", "a/b", "c"] if ctx.choice("up", [True, False]) else ["c", "a/b", "d", "/"]
    done = []
    h = ctx.h5.File(fn, "w")
    with quiet():
        for i in range(n):
            x = [MAKE[ctx.choice("k%d" % i, pool)](i), i, "s"]
            if reopen == "name":
                if h:
                    h.close()
                ctx.dump(x, fn, "a", path=paths[i])
            else:
                ctx.dump(x, h, path=paths[i])
                if reopen != "keep":
                    h.close()
                    h = ctx.h5.File(fn, reopen)
            done.append((paths[i], x))
            for p, y in done:
                r = ctx.load(fn if reopen == "name" else h, path=p)
                for a, b in zip(r, y):
                    check_item(ctx, a, b)
        if h:
            h.close()
        for mode in ("r", "r+"):
            with ctx.h5.File(fn, mode) as g:
                for p, y in done:
                    for a, b in zip(ctx.load(g, path=p), y):
                        check_item(ctx, a, b)


@scenario("C16", quick=grid(kind=["list", "mylist", "mydict", "str", "npint", "array"], mode=["r", "r+", "name"]))
def repeated(ctx, kind, mode):
    """loading again and again, alternating with dumps to other groups, changes nothing"""
    fn = ctx.file("l.h5")
    v = ctx.int("v", -9, 9)
    x = [MAKE[kind](v), "t", MAKE[kind](v)]
    with quiet():
        ctx.dump(x, fn, path="p")
        for i in range(3):
            if ctx.choice("dump%d" % i, [False, True]):
                ctx.dump([MAKE["mylist'"](i), "u"], fn, "a", path="q%d" % i)
            f = fn if mode == "name" else ctx.h5.File(fn, mode)
            for a, b in zip(ctx.load(f, path="p"), x):
                check_item(ctx, a, b)
            if mode != "name":
                f.close()


DAMAGE = ["drop type", "number type", "text type", "null type", "type to data", "type to root", "type to base", "delete entry", "delete base", "drop base", "text base", "null base", "base to data", "entry not pickle", "delete table", "table dataset"]
DAMAGED = ["mylist", "mydict", "list", "dict", "str", "array", "npint", "mystr"]


@scenario("C16", quick=grid(damage=DAMAGE, kind=DAMAGED, mode=["r", "r+"]))
def damaged(ctx, damage, kind, mode):
    """one broken link: an error, or recovered data, but never another object"""
    fn = ctx.file("d.h5")
    v = ctx.int("v", -9, 9)
    x = [MAKE[kind](v), b"t", None, 5]
    h5 = ctx.h5
    with quiet():
        ctx.dump(x, fn)
    with h5.File(fn, "r+") as h:
        t = h[TABLE]
        node = [h["data"][k] for k in h["data"] if h["data"][k].attrs.get("item_index", -1) == 0 or k == "data0"][0]
        entry = h[node.attrs["type"]]
        base = h[entry.attrs["base_type"]]
        if damage == "drop type":
            del node.attrs["type"]
        elif damage == "number type":
            node.attrs["type"] = 3
        elif damage == "text type":
            node.attrs["type"] = "list"
        elif damage == "null type":
            node.attrs.create("type", h5.Reference(), dtype=h5.ref_dtype)
        elif damage == "type to data":
            node.attrs["type"] = node.ref
        elif damage == "type to root":
            node.attrs["type"] = h.ref
        elif damage == "type to base":
            node.attrs["type"] = base.ref
        elif damage == "delete entry":
            del t[entry.name.rsplit("/", 1)[-1]]
        elif damage == "delete base":
            del t[base.name.rsplit("/", 1)[-1]]
        elif damage == "drop base":
            del entry.attrs["base_type"]
        elif damage == "text base":
            entry.attrs["base_type"] = "list"
        elif damage == "null base":
            entry.attrs.create("base_type", h5.Reference(), dtype=h5.ref_dtype)
        elif damage == "base to data":
            entry.attrs["base_type"] = node.ref
        elif damage == "entry not pickle":
            name, ref = entry.name.rsplit("/", 1)[-1], entry.attrs["base_type"]
            del t[name]
            e = t.create_dataset(name, data=np.array([[b"x", b"y"]], dtype="S1"))
            e.attrs["base_type"] = ref
            node.attrs["type"] = e.ref
        elif damage == "delete table":
            del h[TABLE]
        elif damage == "table dataset":
            del h[TABLE]
            h.create_dataset(TABLE, data=1)
    R = ctx.need(ctx.mod("hickle.lookup"), "RecoveredGroup"), ctx.need(ctx.mod("hickle.lookup"), "RecoveredDataset")
    with ctx.warnings() as w:
        f = h5.File(fn, mode)
        r, error = None, None
        try:
            r = ctx.load(f)
        except Exception as e:
            error = e
        f.close()
    ctx.check(error is not None or r is not None, "file with a broken type table gives None")
    if error is not None:
        return
    if r.__class__ is not list:
        ctx.check(isinstance(r, R), "file with a broken type table gives another object")
        return
    ctx.check_same(r[1:], x[1:], "objects next to one with a broken type differ")
    if isinstance(r[0], R):
        return
    check_item(ctx, r[0], x[0])
