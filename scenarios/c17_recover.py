"""C17: data whose class or loader is missing is recovered instead of lost."""
import sys
import types
import warnings
import contextlib
import numpy as np
from sx.harness import scenario, grid, quiet
from sx.source import sizes
from scenarios.custom_ import Holder, FreshHolder, register

GONE = types.ModuleType("sxgone")
BASES = {"L": list, "D": dict, "T": tuple, "SE": set, "S": str, "B": bytes, "I": int, "F": float, "O": object}


def _reduce(self):
    return (self.__class__, (), self.__dict__)


for _n, _b in BASES.items():
    setattr(GONE, _n, type(_n, (_b,), {"__module__": "sxgone"}))
CLASSES = {_n: getattr(GONE, _n) for _n in BASES}
CUSTOM = type("C", (Holder,), {"__module__": "sxgone"})


@contextlib.contextmanager
def there():
    """the module the classes belong to, undone afterwards"""
    had = sys.modules.get("sxgone")
    sys.modules["sxgone"] = GONE
    for n, c in CLASSES.items():
        setattr(GONE, n, c)
    GONE.C = CUSTOM
    try:
        yield
    finally:
        sys.modules.pop("sxgone", None)
        if had is not None:
            sys.modules["sxgone"] = had


def away(how):
    if how == "module":
        sys.modules.pop("sxgone", None)
    elif how == "class":
        for n in list(CLASSES) + ["C"]:
            if hasattr(GONE, n):
                delattr(GONE, n)
    elif how == "other":  # name taken by something else
        for n in list(CLASSES) + ["C"]:
            setattr(GONE, n, 5)


KINDS = ["list", "numbers", "empty", "tuple", "dict", "set", "str", "bytes", "int", "big", "float", "pickle"]


def build(ctx, kind):
    """instance of a class which will be missing, base type and what has to be found: dict of items or dataset"""
    c = CLASSES
    x = ctx.int("x")
    if kind == "list":
        return c["L"]([x, "a", None]), "list", [x, "a", None]
    if kind == "numbers":
        return c["L"]([1, 2, 5]), "list", np.array([1, 2, 5])
    if kind == "empty":
        return c["L"](), "list", np.array([])
    if kind == "tuple":
        return c["T"](("t", x)), "tuple", ["t", x]
    if kind == "dict":
        return ctx.dict([("k", x), ("l", "b")], c["D"]), "dict", [x, "b"]
    if kind == "set":
        return ctx.set([x, "a"], c["SE"]), "set", None
    if kind == "str":
        return ctx.str("s", 2, cls=c["S"]), "str", "stored"
    if kind == "bytes":
        return ctx.bytes("s", 2, cls=c["B"]), "bytes", "stored"
    if kind == "int":
        y = ctx.int("y", lo=-2 ** 60, hi=2 ** 60)
        return ctx.recast(y, c["I"]), "int", ("number", y)
    if kind == "big":
        return c["I"](2 ** 70), "int", "stored"
    if kind == "float":
        y = ctx.float("y")
        return ctx.recast(y, c["F"]), "float", ("number", y)
    if kind == "pickle":
        o = c["O"]()
        o.v = x
        return o, None, "stored"


PLACES = ["top", "list", "dict", "tuple", "twice", "deep", "inobject", "before"]


def place(where, x):
    return {"top": lambda: x, "list": lambda: ["n", x, 7], "dict": lambda: {"a": x, "b": "n"}, "tuple": lambda: (x, None), "twice": lambda: [x, "n", x],
            "deep": lambda: [{"a": (["t", x], 1)}, "n"], "inobject": lambda: np.array([x, "n"], dtype=object), "before": lambda: [x, [1, "a"], {"b": (2, "c")}, [1, 2]]}[where]()


def found(ctx, where, r):
    """recovered objects; everything around them has to be as it was"""
    same = lambda v, w: ctx.check_same(v, w, "object next to a recovered one differs")
    if where == "top":
        return [r], ()
    if where == "list":
        ctx.check(r.__class__ is list and len(r) == 3, "container of a recovered object differs")
        same(r[0], "n"), same(r[2], 7)
        return [r[1]], (1,)
    if where == "dict":
        ctx.check(r.__class__ is dict and list(r.keys()) == ["a", "b"], "container of a recovered object differs")
        same(r["b"], "n")
        return [r["a"]], ("a",)
    if where == "tuple":
        ctx.check(r.__class__ is tuple and len(r) == 2, "container of a recovered object differs")
        same(r[1], None)
        return [r[0]], (0,)
    if where == "twice":
        ctx.check(r.__class__ is list and len(r) == 3, "container of a recovered object differs")
        same(r[1], "n")
        return [r[0], r[2]], (0,)
    if where == "deep":
        ctx.check(len(r) == 2 and r[0]["a"].__class__ is tuple, "container of a recovered object differs")
        same(r[1], "n"), same(r[0]["a"][1], 1), same(r[0]["a"][0][0], "t")
        return [r[0]["a"][0][1]], None
    if where == "inobject":
        ctx.check(r.__class__ is np.ndarray and r.shape == (2,) and r.dtype.kind == "O", "container of a recovered object differs")
        same(r[1], "n")
        return [r[0]], None
    if where == "before":
        ctx.check(r.__class__ is list and len(r) == 4, "container of a recovered object differs")
        same(r[1], [1, "a"]), same(r[2], {"b": (2, "c")}), same(r[3], [1, 2])
        return [r[0]], (0,)


def opened(ctx, f, mode):
    return f if mode == "name" else ctx.h5.File(f, mode)


def load(ctx, f, mode):
    """loaded object and the names of the warning classes issued"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        h = opened(ctx, f, mode)
        try:
            r = ctx.hickle.load(h)
        finally:
            if mode != "name":
                h.close()
    return r, [x.category.__name__ for x in w]


def recovered_group(ctx, y, base, items):
    lk = ctx.mod("hickle.lookup")
    ctx.check(isinstance(y, dict) and isinstance(y, ctx.need(lk, "AttemptRecoverCustom")), "stored items are not recovered as dict")
    ctx.check(y.attrs.get("base_type") in (base.encode(), base), "base type of the recovered object is lost")
    ctx.check(len(y) == len(items), "number of recovered items differs")


def recovered_items(ctx, y):
    """(value, attributes) of the recovered items by position"""
    lk = ctx.mod("hickle.lookup")
    out = {}
    for name, e in y.items():
        v, a = (e, e.attrs) if isinstance(e, lk.AttemptRecoverCustom) else e
        p = a["item_index"] if "item_index" in a else a["key_idx"] if "key_idx" in a else a["pos"]
        out[int(p)] = (v, a)
    return [out[i] for i in range(len(out))]


def recovered_dataset(ctx, y, base):
    lk = ctx.mod("hickle.lookup")
    ctx.check(isinstance(y, np.ndarray) and isinstance(y, ctx.need(lk, "AttemptRecoverCustom")), "stored data is not recovered as array")
    ctx.check(base is None or y.attrs.get("base_type") in (base.encode(), base), "base type of the recovered object is lost")


def judge(ctx, y, base, want, f, where, obj):
    if isinstance(want, list):
        recovered_group(ctx, y, base, want)
        for (v, a), w in zip(recovered_items(ctx, y), want):
            ctx.check_same(v, w, "item of a recovered object differs")
    elif want is None:  # set
        recovered_group(ctx, y, base, list(obj))
        got = [v for v, a in recovered_items(ctx, y)]
        for w in obj:
            ctx.check(any([ctx.truth(v.__class__ is w.__class__ and v == w) for v in got]), "item of a recovered set is lost")
    else:
        recovered_dataset(ctx, y, base)
        if isinstance(want, np.ndarray):
            ctx.check_same(plain(y), want.astype(y.dtype), "recovered data differs")
        elif want[0] == "number":
            ctx.check(y.shape == (), "recovered number got a shape")
            ctx.check_same(y.item(), want[1], "recovered number differs")
        elif where == "top":
            with ctx.h5.File(f, "r") as h:
                node = h[list(h.keys())[0]] if "data" not in h else h["data"]
                ctx.check_same(plain(y), node[()], "recovered data differs from what is stored")


def plain(y):
    return y.view(np.ndarray)


@scenario("C17", quick=grid(kind=KINDS, where=["top", "list"], how=["class", "module"], mode=["name", "r+"]) + grid(kind=["list", "numbers", "dict", "str", "int", "pickle"], where=PLACES, how=["class"], mode=["name"]) + grid(kind=["list", "str", "pickle"], where=["list"], how=["other"], mode=["name"]),
          thorough=grid(kind=KINDS, where=PLACES, how=["class", "module", "other"], mode=["name", "r", "r+"]))
def missing_class(ctx, kind, where, how, mode):
    """class of a stored object is not there any more"""
    f = ctx.file()
    with there():
        obj, base, want = build(ctx, kind)
        with quiet():
            ctx.hickle.dump(place(where, obj), f, "w")
        away(how)
        if how == "other":
            # an object of that name which is no class is as good as none: error or recovery, never a wrong object
            try:
                r, w = load(ctx, f, mode)
            except Exception:
                ctx.check(True, "refused")
                return
        else:
            r, w = load(ctx, f, mode)
    ctx.check("DataRecoveredWarning" in w, "data recovered without any warning")
    ys, path = found(ctx, where, r)
    for y in ys:
        judge(ctx, y, base, want, f, where, obj)
    ctx.check(len(ys) == 1 or kind in ("int", "big", "float") or ys[0] is ys[1], "one object is recovered as two")
    if mode == "name":
        with there():
            r, w = load(ctx, f, mode)
        ctx.check("DataRecoveredWarning" not in w, "recovery although the class is back")
        ctx.check_same(r, place(where, obj), "object differs although the class is back")


@scenario("C17", quick=grid(n=sizes(150, [11, 101]), kind=["list", "dict", "numbers"]))
def many_items(ctx, n, kind):
    """all items of a larger object whose class is gone"""
    f = ctx.file()
    k = ctx.choice("k", [0, n // 2, n - 1])
    v = -9 if kind == "numbers" else ctx.int("v", lo=-2 ** 60, hi=2 ** 60)
    with there():
        items = [i if i != k else v for i in range(n)] if kind == "numbers" else [(i, "x") if i != k else (v, "y") for i in range(n)]
        x = CLASSES["D"]({"k%d" % i: y for i, y in enumerate(items)}) if kind == "dict" else CLASSES["L"](items)
        with quiet():
            ctx.hickle.dump([x, "s"], f, "w")
        away("class")
        r, w = load(ctx, f, "name")
    ctx.check("DataRecoveredWarning" in w, "data recovered without any warning")
    ctx.check(r[1] == "s" and len(r) == 2, "neighbour differs")
    judge(ctx, r[0], "dict" if kind == "dict" else "list", np.array(items) if kind == "numbers" else items, f, "list", x)


def create_box(ctx, form):
    """dump and load function or container of an application, and the items its objects hold"""
    PyContainer = ctx.mod("hickle.helpers").PyContainer

    def dataset(py_obj, h_group, name, **kwargs):
        node = h_group.create_dataset(name, data=py_obj.items)
        node.attrs["unit"] = "m"
        node.attrs["n"] = 3
        return node, ()

    def text(py_obj, h_group, name, **kwargs):
        return h_group.create_dataset(name, data=py_obj.items, dtype=ctx.h5.special_dtype(vlen=str)), ()

    def group(py_obj, h_group, name, **kwargs):
        node = h_group.create_group(name)
        node.attrs["unit"] = "m"
        node.attrs["n"] = 3
        return node, (("i%d" % i, x, {"pos": i, "note": "n%d" % i}, kwargs) for i, x in enumerate(py_obj.items))

    class Container(PyContainer):
        def append(self, name, item, h5_attrs):
            self._content.append((int(h5_attrs["pos"]), item))

        def convert(self):
            return self.object_type([x for _, x in sorted(self._content, key=lambda p: p[0])])

    if form == "group":
        return group, None, Container
    return {"dataset": dataset, "text": text}[form], lambda h, b, t: t(h[()]), None


class Box:
    def __init__(self, items):
        self.items = items


class Other(Box):
    pass


@scenario("C17", quick=grid(form=["group", "dataset", "text"], where=["top", "list", "twice", "before"], mode=["name", "r+"], why=["loader"]) + grid(form=["group", "dataset"], where=["top", "list", "deep"], mode=["name"], why=["renamed", "form"]),
          thorough=grid(form=["group", "dataset", "text"], where=PLACES, mode=["name", "r", "r+"], why=["loader", "renamed", "form"]))
def missing_loader(ctx, form, where, mode, why):
    """class is there but the loader for it is not registered, or only one for another layout"""
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    create, load_fn, cont = create_box(ctx, form)
    f = ctx.file()
    x = ctx.int("x")
    if form == "group":
        items = [x, "a", (None, 2), [1, 2]]
    elif form == "dataset":
        items = ctx.array("a", "i8", (2, 2))
    else:
        items = np.array([ctx.concrete("t\xe9xt"), "", "b"], dtype=object)
    obj = Box(items)
    ctx.restart()
    lm.register_class(Box, b"box", create, load_fn, cont)
    with quiet():
        ctx.hickle.dump(place(where, obj), f, "w")
    ctx.restart()
    if why == "renamed":
        lm.register_class(Box, b"newbox", create, load_fn, cont)
    elif why == "form":
        o = create_box(ctx, "dataset" if form == "group" else "group")
        lm.register_class(Box, b"box", *o)
    r, w = load(ctx, f, mode)
    ctx.check("DataRecoveredWarning" in w, "data recovered without any warning")
    ys, path = found(ctx, where, r)
    for y in ys:
        if form == "group":
            recovered_group(ctx, y, "box", items)
            got = recovered_items(ctx, y)
            for i, (v, a) in enumerate(got):
                ctx.check_same(v, items[i], "item of a recovered object differs")
                ctx.check(a["note"] == "n%d" % i, "attribute of a recovered item is lost")
        else:
            recovered_dataset(ctx, y, "box")
            if form == "dataset":
                ctx.check_same(plain(y), items, "recovered data differs")
            else:
                ctx.check([b.decode() if isinstance(b, bytes) else b for b in y.tolist()] == ["t\xe9xt", "", "b"], "recovered texts differ")
        if form != "text":
            ctx.check(y.attrs.get("unit") == "m" and y.attrs.get("n") == 3, "attribute of a recovered object is lost")
    ctx.check(len(ys) == 1 or ys[0] is ys[1], "one object is recovered as two")


@scenario("C17", quick=grid(inner=["list", "dict", "str", "int", "pickle", "numbers"], outer=["L", "D", "Box"], mode=["name"]) + grid(inner=["list", "str"], outer=["L", "D", "Box"], mode=["r+"]),
          thorough=grid(inner=KINDS, outer=["L", "D", "T", "Box"], mode=["name", "r", "r+"]))
def nested(ctx, inner, outer, mode):
    """missing class or loader within an object which itself is recovered"""
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    create, load_fn, cont = create_box(ctx, "group")
    f = ctx.file()
    ctx.restart()
    lm.register_class(Box, b"box", create, load_fn, cont)
    with there():
        obj, base, want = build(ctx, inner)
        around = ["n", obj, obj]
        if outer == "D":
            o = ctx.dict(list(zip("abc", around)), CLASSES["D"])
        else:
            o = CLASSES[outer](around) if outer != "Box" else Box(around)
        with quiet():
            ctx.hickle.dump([o, "z"], f, "w")
        away("class")
        ctx.restart()
        r, w = load(ctx, f, mode)
    ctx.check("DataRecoveredWarning" in w, "data recovered without any warning")
    ctx.check_same(r[1], "z", "object next to a recovered one differs")
    recovered_group(ctx, r[0], {"L": "list", "T": "tuple", "D": "dict", "Box": "box"}[outer], around)
    got = recovered_items(ctx, r[0]) if inner not in ("int", "big", "float") else sorted([(v, a) for v, a in recovered_items(ctx, r[0])], key=lambda e: 0)
    ctx.check_same(got[0][0], "n", "item of a recovered object differs")
    for v, a in got[1:]:
        judge(ctx, v, base, want, f, "list", obj)


@scenario("C17", quick=grid(gone=[["L"], ["D"], ["L", "D"], ["L", "D", "S"], ["O"], ["O", "S"]], mode=["name", "r+"]))
def some_missing(ctx, gone, mode):
    """some classes of a module are missing, objects of the others load as they are"""
    f = ctx.file()
    x = ctx.int("x")
    order = ctx.choice("order", [0, 1, 2])
    with there():
        o = CLASSES["O"]()
        o.v = x
        objs = [("L", CLASSES["L"]([x, "a"])), ("D", ctx.dict([("k", x)], CLASSES["D"])), ("S", ctx.str("s", 1, cls=CLASSES["S"])), ("O", o)]
        objs = objs[int(order):] + objs[:int(order)]
        with quiet():
            ctx.hickle.dump([v for _, v in objs] + [[x], "t"], f, "w")
        for n in gone:
            delattr(GONE, n)
        r, w = load(ctx, f, mode)
        lk = ctx.mod("hickle.lookup")
        ctx.check("DataRecoveredWarning" in w, "data recovered without any warning")
        ctx.check(len(r) == 6, "number of objects differs")
        ctx.check_same(r[4], [x], "other object differs")
        ctx.check_same(r[5], "t", "other object differs")
        for (n, v), y in zip(objs, r):
            if n in gone:
                ctx.check(isinstance(y, lk.AttemptRecoverCustom), "object of a missing class is not recovered")
            else:
                ctx.check(y.__class__ is v.__class__, "object of an available class comes back with another class")
                ctx.check_same(y, v, "object of an available class differs")


@scenario("C17", quick=grid(kind=["list", "numbers", "tuple", "set"], how=["class", "module"], where=["top", "list", "deep"]), thorough=grid(kind=["list", "numbers", "tuple", "set"], how=["class", "module"], where=["top", "list", "deep", "tuple", "before"]))
def old_layout(ctx, kind, how, where):
    """missing classes of hickle 4.0 files"""
    from scenarios.legacy_ import V4
    f = ctx.file()
    x = ctx.int("x", lo=-2 ** 60, hi=2 ** 60)
    with there():
        obj, items = {"list": lambda: (CLASSES["L"]([x, "a"]), [x, "a"]), "numbers": lambda: (CLASSES["L"]([x, 2]), None), "tuple": lambda: (CLASSES["T"]((x, "a")), [x, "a"]), "set": lambda: (CLASSES["SE"](["a", b"b"]), None)}[kind]()
        with ctx.h5.File(f, "w") as h:
            V4(ctx, h).dump(place(where, obj))
        away(how)
        r, w = load(ctx, f, "name")
    ctx.check("DataRecoveredWarning" in w, "data recovered without any warning")
    y, = found(ctx, where, r)[0]
    lk = ctx.mod("hickle.lookup")
    ctx.check(isinstance(y, lk.AttemptRecoverCustom), "object of a missing class is not recovered")
    if kind == "numbers":
        ctx.check(isinstance(y, np.ndarray) and y.shape == (2,), "stored data is not recovered as array")
        ctx.check_same(y.tolist(), [x, 2], "recovered data differs")
    elif kind == "set":
        ctx.check(isinstance(y, dict) and sorted([repr(v) for v, a in y.values()]) == ["'a'", "b'b'"], "item of a recovered set is lost")
    else:
        ctx.check(isinstance(y, dict) and sorted(y) == ["data_0", "data_1"], "stored items are not recovered as dict")
        for i in range(2):
            ctx.check_same(y["data_%d" % i][0], items[i], "item of a recovered object differs")
