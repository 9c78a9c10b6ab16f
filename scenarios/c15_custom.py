"""C15: custom loaders take effect exactly when enabled and cannot displace the core."""
import os
import sys
import types
import numpy as np
from sx.harness import scenario, grid, quiet
from scenarios.types_ import Plain, MyList
from scenarios.legacy_ import V4

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "apps"))


class Box:
    def __init__(self, items, by=None):
        self.items, self.by = list(items), by


class SubBox(Box):
    pass


class SubSubBox(SubBox):
    pass


class Side(Box):
    pass


class Both(Side, SubBox):
    pass


class BoxList(list):
    by = None


HIER = {"Box": Box, "SubBox": SubBox, "SubSubBox": SubSubBox, "Side": Side, "Both": Both}


def loader(ctx, tag):
    """dump function and container which leave the tag in what they restore"""
    PyContainer = ctx.mod("hickle.helpers").PyContainer

    def create(py_obj, h_group, name, **kwargs):
        node = h_group.create_group(name)
        items = py_obj.items if isinstance(py_obj, Box) else py_obj
        return node, (("i%d" % i, x, {"pos": i}, kwargs) for i, x in enumerate(items))

    class Container(PyContainer):
        def append(self, name, item, h5_attrs):
            self._content.append((int(h5_attrs["pos"]), item))

        def convert(self):
            r = self.object_type([x for _, x in sorted(self._content, key=lambda p: p[0])])
            r.by = tag
            return r
    return create, Container


def register(ctx, cls, tag, option):
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    c, k = loader(ctx, tag)
    lm.register_class(cls, tag.encode(), c, None, k, True, option)
    return lm


OPTIONS = [None, {}, {"custom": True}, {"custom": False}]


def opts(o):
    return {} if o is None else {"options": dict(o)}


def on(o):
    return bool(o and o.get("custom"))


@scenario("C15", quick=grid(option=["custom", "global", "none"], where=["top", "list", "dict", "twice"]))
def enabled(ctx, option, where):
    """the loader is used if and only if the option it belongs to is enabled; the file knows"""
    if option != "none":
        register(ctx, Box, "boxtag", None if option == "global" else "custom")
    x = Box([ctx.int("x"), "a", None])
    y = {"top": lambda: x, "list": lambda: ["q", x], "dict": lambda: {"k": x, "l": 1}, "twice": lambda: [x, x, "q"]}[where]()
    fn = ctx.file("c.h5")
    o = ctx.choice("options", OPTIONS)
    with quiet():
        ctx.dump(y, fn, **opts(o))
        r = ctx.load(fn)
    r = {"top": lambda: [r], "list": lambda: [r[1]], "dict": lambda: [r["k"]], "twice": lambda: [r[0], r[1]]}[where]()
    used = option == "global" or option == "custom" and on(o)
    for z in r:
        ctx.check(z.__class__ is Box, "object of a class with custom loader comes back with another class")
        ctx.check_same(z.items, x.items, "object of a class with custom loader differs")
        ctx.check(z.by == ("boxtag" if used else None), "custom loader used although not enabled or not used although enabled")
    ctx.check(r[0] is r[-1], "one object comes back as two")


@scenario("C15", quick=grid(n=[2, 3]), thorough=grid(n=[2, 3, 4]))
def history(ctx, n):
    """dumps with and without the option to files and groups, in every order: each loads as it was dumped"""
    register(ctx, Box, "boxtag", "custom")
    fn = ctx.file("h.h5")
    done = {}
    with quiet():
        with ctx.h5.File(fn, "w") as h:
            for i in range(n):
                o = ctx.choice("o%d" % i, [None, {"custom": True}, {"custom": False}])
                where = "p%d" % (ctx.choice("w%d" % i, list(range(i + 1))) if n < 4 else i)
                x = [Box([i, "a"]), ctx.int("x%d" % i, -9, 9)]
                if where in h:
                    del h[where]
                ctx.dump(x, h, path=where, **opts(o))
                done[where] = (x, on(o))
            for w, (x, o) in done.items():
                r = ctx.load(h, path=w)
                ctx.check_same([r[0].items, r[1]], [x[0].items, x[1]], "object differs")
                ctx.check(r[0].by == ("boxtag" if o else None), "option of another dump took effect")
        for w, (x, o) in done.items():
            r = ctx.load(fn, path=w)
            ctx.check_same([r[0].items, r[1]], [x[0].items, x[1]], "object differs")
            ctx.check(r[0].by == ("boxtag" if o else None), "option of another dump took effect")


@scenario("C15", quick=grid(n=[1, 2]), thorough=grid(n=[1, 2, 3]))
def nearest(ctx, n):
    """loaders registered for any classes of a hierarchy, globally or as option, in any order: the nearest enabled one is used"""
    reg = {}
    for i in range(n):
        c = ctx.choice("c%d" % i, ["Box", "SubBox", "Side"])
        o = ctx.choice("o%d" % i, [None, "custom"])
        t = "tag%d" % i
        register(ctx, HIER[c], t, o)
        reg[(HIER[c], o)] = t
    opt = ctx.choice("options", [None, {"custom": True}])
    cls = HIER[ctx.choice("cls", list(HIER))]
    want = None
    for c in type.mro(cls):
        if on(opt) and (c, "custom") in reg:
            want = reg[(c, "custom")]
            break
        if (c, None) in reg:
            want = reg[(c, None)]
            break
    fn = ctx.file("n.h5")
    with quiet():
        ctx.dump([cls([1, "a"]), "z"], fn, **opts(opt))
        r = ctx.load(fn)[0]
    ctx.check(r.__class__ is cls, "object comes back with another class")
    ctx.check_same(r.items, [1, "a"], "object differs")
    ctx.check(r.by == want, "object handled by %r instead of %r" % (r.by, want))


@scenario("C15", quick=grid(opt=["custom", "global"]))
def over_builtin(ctx, opt):
    """a loader for a subclass of a builtin class leaves the builtin class alone, and is left when not enabled"""
    register(ctx, BoxList, "bltag", None if opt == "global" else "custom")
    o = ctx.choice("options", OPTIONS)
    x = [BoxList([ctx.int("x"), "a"]), [ctx.int("y"), "b"], MyList([1, "c"])]
    fn = ctx.file("b.h5")
    with quiet():
        ctx.dump(x, fn, **opts(o))
        r = ctx.load(fn)
    ctx.check([z.__class__ for z in r] == [BoxList, list, MyList], "object comes back with another class")
    ctx.check_same([r[0][0], r[0][1]], [x[0][0], "a"], "object differs")
    ctx.check_same(r[1:], x[1:], "object of a builtin class differs")
    ctx.check(r[0].by == ("bltag" if opt == "global" or on(o) else None), "custom loader used although not enabled or not used although enabled")


def battery(ctx, name):
    """objects which need the loaders of the core"""
    sh = ["s", 1]
    x = [Plain("v"), sh, sh, {"k": Plain(1), (1, 2): "t"}, None, np.arange(3), ("t", b"b"), {1, "a"}, 2 ** 70, Plain]
    fn, f4 = ctx.file(name), ctx.file("v4" + name)
    with quiet():
        ctx.dump(x, fn)
        with ctx.h5.File(f4, "w") as h:
            V4(ctx, h).dump({"a": [1, "x"], 3: {"b": None}})
        r, r4 = ctx.load(fn), ctx.load(f4)
    ctx.check_same(r, x, "object of the core differs after a registration")
    ctx.check(r[1] is r[2], "shared object comes back as two after a registration")
    ctx.check_same(r4, {"a": [1, "x"], 3: {"b": None}}, "object of a 4.0 file differs after a registration")


CORE = ["pickle", "!node-reference!", "!recover!"]


@scenario("C15", quick=grid(what=["load", "container", "dump", "all"], text=[False, True]))
def reserved(ctx, what, text):
    """base types of the core cannot be replaced by a registration"""
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    name = ctx.choice("name", CORE)
    option = ctx.choice("option", [None, "custom"])
    c, k = loader(ctx, "evil")
    first = ctx.choice("first", [False, True])
    if first:
        battery(ctx, "before.h5")
    e = ctx.raises(lm.register_class, Box, name if text else name.encode(), c if what in ("dump", "all") else None, (lambda h_node, base_type, py_obj_type: "evil") if what in ("load", "all") else None, k if what in ("container", "all") else None, True, option)
    ctx.check(e is not None, "base type of the core accepted")
    battery(ctx, "after.h5")
    with quiet():
        fn = ctx.file("b.h5")
        ctx.dump([Box([1]), 1], fn, options={"custom": True})
        r = ctx.load(fn)
    ctx.check(r[0].__class__ is Box and r[0].items == [1] and r[0].by is None, "refused registration took effect")


@scenario("C15", quick=grid(text=[False, True]))
def reserved_exclude(ctx, text):
    """base types of the core cannot be excluded"""
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    name = ctx.choice("name", CORE + ["dict_item"])
    option = ctx.choice("option", [None, "custom", "hickle-4.x"])
    e = ctx.raises(lm.register_class_exclude, name if text else name.encode(), option)
    ctx.check(e is not None, "base type of the core excluded")
    battery(ctx, "after.h5")


def function():
    pass


CLASSES = {"object": object, "type": type, "function": types.FunctionType, "a function": function, "builtin": len, "method": Plain("v").__eq__, "meta": type("Meta", (type,), {})}


@scenario("C15", quick=grid(cls=["object", "type", "a function", "builtin", "method", "meta"], option=["none", "custom"]))
def reserved_classes(ctx, cls, option):
    """classes handled by the core cannot be given away"""
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    c, k = loader(ctx, "evil")
    e = ctx.raises(lm.register_class, CLASSES[cls], b"evil", c, None, k, True, None if option == "none" else option)
    ctx.check(e is not None, "loader for a class handled by the core accepted")
    battery(ctx, "after.h5")


@scenario("C15", quick=grid(option=["none", "custom"], where=["list", "dict"]))
def excluded(ctx, option, where):
    """excluding a base type hides objects of it and nothing else"""
    opt = None if option == "none" else "custom"
    lm = register(ctx, Box, "boxtag", opt)
    register(ctx, Side, "sidetag", opt)
    x = [ctx.int("x"), "a", Side([1, ctx.int("y")]), ["l", Plain(3)]]
    at = ctx.choice("at", [0, 1, 2, 3, 4])
    y = x[:at] + [Box(["hidden"])] + x[at:]
    if where == "dict":
        y = {"k%d" % i: v for i, v in enumerate(y)}
    fn = ctx.file("e.h5")
    exc = ctx.choice("exclude", [None, "custom"])
    with quiet():
        ctx.dump(y, fn, options={"custom": True})
        lm.register_class_exclude(b"boxtag", exc)
        r = ctx.load(fn)
    g = [r["k%d" % i] for i in range(5) if i != at] if where == "dict" else [r[i] for i in range(5) if i != at]
    for a, b in zip(g, x):
        if isinstance(b, Side):
            ctx.check(a.__class__ is Side and a.by == "sidetag", "another class is affected by an exclusion")
            ctx.check_same(a.items, b.items, "another class is affected by an exclusion")
        else:
            ctx.check_same(a, b, "another object is affected by an exclusion")
    h = r.get("k%d" % at) if where == "dict" else r[at]
    if exc == opt or exc == "custom":
        ctx.check(not isinstance(h, Box), "excluded object comes back")
    battery(ctx, "after.h5")


@scenario("C15", quick=grid(what=["class", "exclude", "dump"]))
def unknown_option(ctx, what):
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    name = ctx.choice("name", ["unknown", "Custom", "", "hickle", "custom "])
    c, k = loader(ctx, "boxtag")
    fn = ctx.file("u.h5")
    if what == "class":
        e = ctx.raises(lm.register_class, Box, b"boxtag", c, None, k, True, name)
    elif what == "exclude":
        e = ctx.raises(lm.register_class_exclude, b"boxtag", name)
    else:
        e = ctx.raises(ctx.dump, [1, "a"], fn, options={name: True})
    ctx.check(e is not None, "unknown option accepted")
    with quiet():
        ctx.dump([Box([1]), 1], fn, options={"custom": True})
        r = ctx.load(fn)
    ctx.check(r[0].__class__ is Box and r[0].items == [1] and r[0].by is None, "refused registration took effect")
    battery(ctx, "after.h5")


@scenario("C15", quick=grid(kind=["thing", "sub", "opt", "other", "bare", "barelist"], where=["top", "list"]))
def packaged(ctx, kind, where):
    """loader modules applications bring along are found on dump and, by another process, on load"""
    import sxapp
    import sxbare
    v = ctx.int("x")
    x = {"thing": lambda: sxapp.Thing([v, "a"]), "sub": lambda: sxapp.SubThing(["b", v]), "opt": lambda: sxapp.Opt([v]), "other": lambda: sxapp.Other(v), "bare": lambda: sxbare.Bare(v), "barelist": lambda: sxbare.BareList([v, "c"])}[kind]()
    fn = ctx.file("p.h5")
    o = ctx.choice("options", OPTIONS)
    again = ctx.choice("restart", [False, True])
    SW = ctx.need(ctx.mod("hickle.lookup"), "SerializedWarning")
    with ctx.warnings() as w:
        ctx.dump(x if where == "top" else ["q", x], fn, **opts(o))
        pickled = any(issubclass(m.category, SW) for m in w)
    if again:
        ctx.restart()
    with quiet():
        r = ctx.load(fn)
    r = r if where == "top" else r[1]
    ctx.check(pickled == (kind in ("other", "bare") or kind == "opt" and not on(o)), "loader module of the application used although not enabled or not used although enabled")
    ctx.check(r.__class__ is x.__class__, "object comes back with another class")
    if kind == "barelist":
        ctx.check_same(r, x, "object differs")
    else:
        ctx.check_same(vars(r), vars(x), "object differs")
