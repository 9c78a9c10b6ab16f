"""C12: objects stored under different paths of one file do not affect each other."""
import io
import numpy as np
from sx.harness import scenario, grid, quiet
from sx.source import sizes, texts, chunks
from scenarios.types_ import Plain, MyList, MyDict, MyStr

KINDS = ["num", "list", "dict", "shared", "sub", "plain", "array", "text"]


def obj(ctx, kind, name):
    x = ctx.int(name, -9, 9)
    sh = ["s", x]
    return {"num": lambda: x, "list": lambda: [x, "a", None], "dict": lambda: {"k": x, (1, "a"): b"b"}, "shared": lambda: [sh, {"q": sh}, sh], "sub": lambda: MyList([MyStr("v"), x, MyDict({"a": x})]),
            "plain": lambda: [Plain("v"), x], "array": lambda: [np.arange(3), x, "t"], "text": lambda: "text" + str(7)}[kind]()


def norm(p):
    return "/" + "/".join(c for c in p.split("/") if c)


def occupied(stored, p):
    p = norm(p)
    return any(q == p or p == "/" or q.startswith(p + "/") for q in stored)


class Use:
    """one way to address the file"""

    def __init__(self, ctx, how):
        self.ctx, self.how, self.fn = ctx, how, ctx.file("f.h5")
        if how == "handle":
            self.h = ctx.h5.File(self.fn, "w")
        elif how == "mem":
            self.h = io.BytesIO()
        else:
            ctx.h5.File(self.fn, "w").close()
            self.h = None

    def arg(self):
        return self.fn if self.h is None else self.h

    def snapshot(self):
        if self.how == "handle":
            return self.ctx.tree(self.h)
        with self.ctx.h5.File(self.arg(), "r") as f:
            return self.ctx.tree(f)

    def done(self):
        if self.how == "handle":
            self.h.close()


PATHS = ["/a", "b", "/a/b", "a/b/c/", "/", "/b/data2"]


@scenario("C12", quick=grid(how=["name", "handle", "mem"], kinds=[["list", "dict", "shared"], ["sub", "plain", "sub"], ["num", "array", "text"], ["shared", "shared", "list"]], paths=[PATHS]),
          thorough=grid(how=["name", "handle", "mem"], kinds=[["list", "dict", "shared", "sub"], ["sub", "plain", "sub", "dict"], ["num", "array", "text", "num"], ["shared", "shared", "list", "sub"]], paths=[PATHS]))
def histories(ctx, how, kinds, paths):
    u = Use(ctx, how)
    stored = {}
    with quiet():
        for i, k in enumerate(kinds):
            x = obj(ctx, k, "x%d" % i)
            p = ctx.choice("p%d" % i, paths)
            if occupied(stored, p):
                before = u.snapshot()
                e = ctx.raises(ctx.dump, x, u.arg(), "a", path=p)
                ctx.check(e is not None, "dump to an occupied path succeeded")
                ctx.check_same(u.snapshot(), before, "refused dump changed the file", numeric=False)
            else:
                ctx.dump(x, u.arg(), "a", path=p)
                stored[norm(p)] = x
            for q, y in stored.items():
                ctx.check_same(ctx.load(u.arg(), path=q), y, "object stored under another path differs")
        # nothing else is needed to read one of them
        if len(stored) > 1:
            q = ctx.choice("keep", sorted(stored))
            others = [o for o in stored if o != q and not q.startswith(o.rstrip("/") + "/") and not o.startswith(q.rstrip("/") + "/")]
            f = u.h if how == "handle" else ctx.h5.File(u.arg(), "r+")
            for o in others:
                if o in f:
                    del f[o]
            if how != "handle":
                f.close()
            ctx.check_same(ctx.load(u.arg(), path=q), stored[q], "object depends on what is stored under another path")
    u.done()


@scenario("C12", quick=grid(kind=KINDS, how=["name", "handle"]))
def same_object_twice(ctx, kind, how):
    """one object under two paths: two independent copies"""
    u = Use(ctx, how)
    x = obj(ctx, kind, "x")
    with quiet():
        ctx.dump(x, u.arg(), "a", path="a")
        ctx.dump(x, u.arg(), "a", path=ctx.choice("p", ["b", "a/b", "c/d"]))
        ra = ctx.load(u.arg(), path="a")
        ctx.check_same(ra, x, "first copy differs")
        e = ctx.raises(ctx.dump, [x, 1], u.arg(), "a", path="a")
        ctx.check(e is not None, "dump to an occupied path succeeded")
        ctx.check_same(ctx.load(u.arg(), path="a"), x, "first copy differs")
        f = u.h if how == "handle" else ctx.h5.File(u.arg(), "r+")
        names = [n for n in ("b", "a/b", "c/d") if n in f]
        ctx.check(len(names) == 1, "object not stored under its path")
        for n in ["data", "hickle_types_table"]:
            if n in f["a"]:
                del f["a"][n]
        if how != "handle":
            f.close()
        ctx.check_same(ctx.load(u.arg(), path=names[0]), x, "second copy depends on the first one")
    u.done()


@scenario("C12", quick=grid(what=["dataset", "group", "attrs", "emptygroup", "partial", "deepgroup"], how=["name", "handle", "mem"]))
def foreign_content(ctx, what, how):
    """paths taken by content that is not from hickle"""
    u = Use(ctx, how)
    x = obj(ctx, ctx.choice("kind", ["list", "num", "sub"]), "x")
    h = u.h if how == "handle" else ctx.h5.File(u.arg(), "a")
    if what == "dataset":
        h.create_dataset("p", data=5)
    elif what == "group":
        h.create_group("p").create_dataset("d", data=5)
    elif what == "attrs":
        h.create_group("p").attrs["note"] = 5
    elif what == "emptygroup":
        h.create_group("p")
    elif what == "deepgroup":
        h.create_group("p/q/r")
    elif what == "partial":
        h.create_group("p").create_group("hickle_types_table")
    h.create_dataset("other", data=7)
    if how != "handle":
        h.close()
    with quiet():
        before = u.snapshot()
        e = ctx.raises(ctx.dump, x, u.arg(), "a", path=ctx.choice("path", ["p", "/p/"]))
        if what in ("attrs", "emptygroup"):
            if e is None:
                ctx.check_same(ctx.load(u.arg(), path="p"), x, "object differs")
            snap = u.snapshot()
            if what == "attrs":
                ctx.check(any(n == "note" for n, _ in dict(snap[2])["p"][1]), "other attributes lost")
        else:
            ctx.check(e is not None, "dump to an occupied path succeeded")
            ctx.check_same(u.snapshot(), before, "refused dump changed the file", numeric=False)
        ctx.dump(x, u.arg(), "a", path="new")
        ctx.check_same(ctx.load(u.arg(), path="new"), x, "object differs")
        with ctx.h5.File(u.arg(), "r") if how != "handle" else nothing(u.h) as h:
            ctx.check(int(h["other"][()]) == 7, "other content changed")
    u.done()


class nothing:
    def __init__(self, x):
        self.x = x

    def __enter__(self):
        return self.x

    def __exit__(self, *a):
        pass


@scenario("C12", quick=grid(order=[[0, 1, 0, 1], [0, 0, 1, 1], [1, 0, 0, 1]], kinds=[["list", "sub"], ["shared", "dict"], ["plain", "text"]]))
def two_files(ctx, order, kinds):
    """work on two open files interleaved"""
    h = [ctx.h5.File(ctx.file("f%d.h5" % i), "w") for i in range(2)]
    stored = [{}, {}]
    with quiet():
        for i, w in enumerate(order):
            x = obj(ctx, kinds[i % 2], "x%d" % i)
            p = "p%d" % ctx.choice("p%d" % i, [0, 1])
            e = ctx.raises(ctx.dump, x, h[w], "a", path=p)
            if p in stored[w]:
                ctx.check(e is not None, "dump to an occupied path succeeded")
            else:
                ctx.check(e is None, "dump failed: %r" % (e,))
                stored[w][p] = x
            for v in range(2):
                for q, y in stored[v].items():
                    ctx.check_same(ctx.load(h[v], path=q), y, "object in another place differs")
    for f in h:
        f.close()
    with quiet():
        for v in range(2):
            for q, y in stored[v].items():
                ctx.check_same(ctx.load(ctx.file("f%d.h5" % v), path=q), y, "object differs after closing the files")


@scenario("C12", quick=grid(n=[1, 2]), thorough=grid(n=[1, 2, 3]))
def any_two_paths(ctx, n):
    """two objects under any two path texts"""
    f = ctx.file("f.h5")
    a, b = ctx.str("a", n), ctx.str("b", n)
    for s in (a, b):
        for bad in ("/", ".", "\0"):
            ctx.assume(not ctx.truth(bad in s))
    with quiet():
        ctx.dump(["first", 1], f, path=a)
        e = ctx.raises(ctx.dump, {"second": 2}, f, "a", path=b)
        if ctx.truth(a == b):
            ctx.check(e is not None, "dump to an occupied path succeeded")
        else:
            ctx.check(e is None, "dump to another path failed: %r" % (e,))
            ctx.check_same(ctx.load(f, path=b), {"second": 2}, "second object differs")
        ctx.check_same(ctx.load(f, path=a), ["first", 1], "first object differs")


@scenario("C12", quick=[{"words": w} for w in chunks(texts(), 12)])
def words_of_the_source(ctx, words):
    """paths named like something the code mentions"""
    f = ctx.file("f.h5")
    w = ctx.choice("w", [w for w in words if "/" not in w and "." not in w and "\0" not in w] or ["x"])
    x = ctx.str("x", 1)
    t = ctx.choice("form", [0, 1, 2])
    t = w[:-1] + x if t == 0 else w + x if t == 1 else x + w
    for bad in ("/", ".", "\0"):
        ctx.assume(not ctx.truth(bad in x))
    with quiet():
        ctx.dump(["first", {"a": 1}], f, path="one/two")
        ctx.dump({"second": [2, "x"]}, f, "a", path=t)
        ctx.dump(["third", "y"], f, "a", path="g/" + t)
        ctx.check_same(ctx.load(f, path=t), {"second": [2, "x"]}, "object differs")
        ctx.check_same(ctx.load(f, path="g/" + t), ["third", "y"], "object differs")
        ctx.check_same(ctx.load(f, path="one/two"), ["first", {"a": 1}], "object stored before differs")


@scenario("C12", quick=grid(n=sizes(300, [12, 40])))
def many_objects(ctx, n):
    """number of objects in one file"""
    f = ctx.file("f.h5")
    v = ctx.int("v")
    pos = ctx.choice("pos", [0, n // 2, n - 1])
    with quiet():
        for i in range(n):
            ctx.dump([i, "x", v if i == pos else None], f, "a" if i else "w", path="p%d" % i)
        for i in sorted({0, 1, n // 2, n - 2, n - 1}):
            ctx.check_same(ctx.load(f, path="p%d" % i), [i, "x", v if i == pos else None], "one of many objects differs")
