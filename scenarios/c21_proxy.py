"""C21: node filter proxies never write through to the file."""
import numpy as np
from sx.harness import scenario, grid, quiet
from sx.source import texts, chunks
from scenarios.legacy_ import V4

NAMES = ["stored", "type", "new"]
OPS = ["set", "del", "update", "pop", "setdefault", "get", "popitem", "clear"]
GONE = object()


def make(ctx, h, kind):
    g = h.create_group("g")
    if kind == "dataset":
        n = g.create_dataset("n", data=ctx.array("a", "i8", (2,)))
    else:
        n = g.create_group("n")
        n.create_dataset("m", data=5)
    n.attrs["stored"] = ctx.int("s", lo=-2 ** 60, hi=2 ** 60)
    n.attrs["type"] = "old"
    return n


def step(ctx, p, overlay, base, op, name, v):
    """one operation on the proxy and on the plain dicts it should behave like"""
    a = p.attrs
    if op == "set":
        a[name] = v
        overlay[name] = v
    elif op == "update":
        a.update({name: v})
        overlay[name] = v
    elif op == "setdefault":
        r = a.setdefault(name, v)
        want = overlay.get(name, base.get(name, GONE))
        if want is GONE:
            overlay[name] = want = v
        ctx.check_same(r, want, "setdefault on the proxy returned something else")
    elif op == "get":
        r = a.get(name, None)
        ctx.check_same(r, overlay.get(name, base.get(name)), "attribute read through the proxy differs")
    elif op in ("del", "pop"):
        if name in overlay:
            if op == "del":
                del a[name]
            else:
                ctx.check_same(a.pop(name), overlay[name], "pop on the proxy returned something else")
            del overlay[name]
        else:
            # attributes of the node itself: refused or hidden, both keep the file as it is
            e = ctx.raises(lambda: a.__delitem__(name) if op == "del" else a.pop(name))
            if e is None and name in base:
                base.pop(name)
    elif op == "popitem":
        e = ctx.raises(lambda: overlay.pop(a.popitem()[0]))
        ctx.check(e is None or not overlay, "popitem fails although there are changes")
    elif op == "clear":
        e = ctx.raises(a.clear)
        if e is None:
            overlay.clear()


def look(ctx, p, n, overlay, base):
    """everything that can be read through the proxy"""
    for name in NAMES + ["none"]:
        want = overlay.get(name, base.get(name, GONE))
        ctx.check((name in p.attrs) == (want is not GONE), "attribute missing or added on the proxy")
        if want is GONE:
            ctx.check(p.attrs.get(name, "dflt") == "dflt", "attribute missing or added on the proxy")
            ctx.check(ctx.raises(lambda: p.attrs[name]) is not None, "attribute missing or added on the proxy")
        else:
            ctx.check_same(p.attrs[name], want, "attribute read through the proxy differs")
            ctx.check_same(p.attrs.get(name), want, "attribute read through the proxy differs")
    names = sorted(set(overlay) | set(base))
    ctx.check(sorted(p.attrs) == names and len(p.attrs) == len(names) and sorted(p.attrs.keys()) == names, "names of the attributes on the proxy differ")
    for k, v in p.attrs.items():
        ctx.check_same(v, overlay.get(k, base.get(k)), "attribute read through the proxy differs")


@scenario("C21", quick=grid(kind=["dataset", "group"], steps=[1, 2], value=["int", "none", "text", "zero"]), thorough=grid(kind=["dataset", "group"], steps=[1, 2, 3], value=["int", "none", "text", "zero", "array"]))
def changes(ctx, kind, steps, value):
    """all sequences of operations on the attributes of the proxy"""
    proxy = ctx.need(ctx.mod("hickle.helpers"), "H5NodeFilterProxy")
    f = ctx.file()
    with ctx.h5.File(f, "w") as h:
        n = make(ctx, h, kind)
        before = ctx.tree(h)
        base = {k: n.attrs[k] for k in n.attrs}
        p = proxy(n)
        overlay = {}
        for i in range(steps):
            v = {"int": lambda: ctx.int("v%d" % i), "none": lambda: None, "text": lambda: ctx.str("v%d" % i, 1), "zero": lambda: 0, "array": lambda: np.array([i, 2])}[value]()
            step(ctx, p, overlay, base, ctx.choice("op%d" % i, OPS), ctx.choice("name%d" % i, NAMES), v)
        look(ctx, p, n, overlay, base)
        ctx.check_same(ctx.tree(h), before, "change made on the proxy reached the file")
    with ctx.h5.File(f, "r") as h:
        ctx.check_same(ctx.tree(h), before, "change made on the proxy reached the file")


@scenario("C21", quick=grid(kind=["dataset", "group"], how=["two", "stacked", "again"]))
def several(ctx, kind, how):
    """proxies for one node, or for another proxy, do not see each other's changes"""
    proxy = ctx.need(ctx.mod("hickle.helpers"), "H5NodeFilterProxy")
    f = ctx.file()
    with ctx.h5.File(f, "w") as h:
        n = make(ctx, h, kind)
        before = ctx.tree(h)
        base = {k: n.attrs[k] for k in n.attrs}
        p = proxy(n)
        a, b = ctx.choice("na", NAMES), ctx.choice("nb", NAMES)
        v, w = ctx.int("v"), ctx.int("w")
        p.attrs[a] = v
        q = proxy(h["g"]["n"] if how == "again" else p if how == "stacked" else n)
        look(ctx, q, n, {a: v} if how == "stacked" else {}, dict(base))
        q.attrs[b] = w
        over = {a: v} if how == "stacked" else {}
        over[b] = w
        look(ctx, q, n, over, dict(base))
        look(ctx, p, n, {a: v}, dict(base))
        ctx.check_same(ctx.tree(h), before, "change made on the proxy reached the file")


@scenario("C21", quick=grid(mode=["r+", "r"]))
def content(ctx, mode):
    """everything else is what the node holds"""
    proxy = ctx.need(ctx.mod("hickle.helpers"), "H5NodeFilterProxy")
    f = ctx.file()
    a = ctx.array("a", "i8", (2, 2))
    with ctx.h5.File(f, "w") as h:
        h.create_group("g").create_dataset("n", data=a)
        h["g"].attrs["x"] = 1
        h["g/n"].attrs["x"] = 2
    with ctx.h5.File(f, mode) as h:
        p, q = proxy(h["g/n"]), proxy(h["g"])
        p.attrs["x"] = q.attrs["x"] = ctx.int("v")
        p.attrs["shape"] = "changed"
        ctx.check_same(p[()], a, "data read through the proxy differs")
        ctx.check_same(p[0], a[0], "data read through the proxy differs")
        ctx.check(p.shape == (2, 2) and p.dtype == np.dtype("i8") and p.name == "/g/n" and p.size == 4, "property of the node differs on the proxy")
        ctx.check(q.name == "/g" and list(q.keys()) == ["n"] and [k for k, _ in q.items()] == ["n"], "members of the group differ on the proxy")
        ctx.check_same(q["n"][()], a, "data read through the proxy differs")
        ctx.check(q["n"].attrs["x"] == 2, "attribute of the group shows up at its member")
        ctx.check(ctx.raises(setattr, p, "attrs", {}) is not None or h["g/n"].attrs["x"] == 2, "attributes of the node replaced")
        ctx.check(h["g"].attrs["x"] == 1 and h["g/n"].attrs["x"] == 2 and "shape" not in h["g/n"].attrs, "change made on the proxy reached the file")
        ctx.check(ctx.raises(lambda: p.nothing) is not None, "property the node does not have")


@scenario("C21", quick=grid(fmt=["csr", "csc", "bsr"], mode=["r+", "a", "r"], times=[1, 2]))
def in_use(ctx, fmt, mode, times):
    """loading sparse matrices of 4.x files, for which attributes are replaced, keeps the file as it is"""
    import scipy.sparse as sp
    cls = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "bsr": sp.bsr_matrix}[fmt]
    data = ctx.array("x", "f8", (2,) if fmt != "bsr" else (2, 1, 1))
    indices, indptr = np.array([0, 1], "i4"), np.array([0, 1, 2], "i4")
    x = ctx.sparse(cls, data, indices, indptr, (2, 2))
    f = ctx.file()
    with ctx.h5.File(f, "w") as h:
        w = V4(ctx, h)
        w.sparse(w.g, "data", cls, data, indices, indptr, (2, 2))
        before = ctx.tree(h)
    with ctx.h5.File(f, mode) as h:
        for _ in range(times):
            with quiet():
                ctx.check_same(ctx.hickle.load(h), x, "sparse matrix of the 4.0 file differs")
        ctx.check_same(ctx.tree(h), before, "loading changed the file")


@scenario("C21", quick=[{"words": w} for w in chunks([t for t in texts() if "\0" not in t], 12)])
def words_of_the_source(ctx, words):
    """names of attributes which the code mentions"""
    proxy = ctx.need(ctx.mod("hickle.helpers"), "H5NodeFilterProxy")
    w = ctx.choice("w", words)
    f = ctx.file()
    with ctx.h5.File(f, "w") as h:
        n = make(ctx, h, ctx.choice("kind", ["dataset", "group"]))
        stored = ctx.choice("stored", [False, True])
        if stored:
            n.attrs[w] = 3
        before = ctx.tree(h)
        p = proxy(n)
        if stored:
            ctx.check(p.attrs[w] == 3, "attribute read through the proxy differs")
        v = ctx.int("v")
        p.attrs[w] = v
        ctx.check_same(p.attrs[w], v, "attribute read through the proxy differs")
        ctx.check_same(proxy(n).attrs.get(w, None), n.attrs.get(w, None), "change made on one proxy seen on another one")
        ctx.check_same(ctx.tree(h), before, "change made on the proxy reached the file")
