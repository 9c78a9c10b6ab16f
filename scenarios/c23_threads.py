"""C23: dumps and loads running in two threads on different files."""
import gc
import sys
from sx.harness import scenario, grid

# Both threads run the real code one statement at a time; where the running one is changed is decided by the
# solver: s1 is the statement of the first thread before which the second one starts, s2 the statement of the
# second one before which the first one continues.  (depth: 0 all statements, n: those of the outer n functions)


def content(ctx, kind, name):
    a = ctx.array(name, "f8", (2,))
    if kind == "tree":
        inner = ["x", a, None]
        return {"k": inner, "again": inner, "t": ("y", 2.5)}
    if kind == "array":
        return a
    if kind == "list":
        return ["t" + name, a]
    return 3


def equal(ctx, got, want, who):
    ctx.check_same(got, want, "%s does not load what was dumped" % who)


def layout(ctx, f):
    """names, kinds and attributes of what is stored"""
    def walk(n):
        attrs = sorted(str(k) for k in n.attrs)
        if isinstance(n, ctx.h5.Group):
            return ["group", attrs, [(str(k), walk(n[k])) for k in n]]
        return ["dataset", attrs, str(n.dtype)]
    with ctx.h5.File(f, "r") as h:
        return walk(h)


def run(ctx, ops, kinds, same, fresh, **k):
    hickle = ctx.hickle
    # files of equal name in different directories
    files = [ctx.directory(d) + "/f.h5" for d in ("one", "two")]
    objs = [content(ctx, kinds[0], "a"), None]
    objs[1] = objs[0] if same else content(ctx, kinds[1], "b")
    for i in (0, 1):
        if ops[i] == "load":
            hickle.dump(objs[i], files[i], "w")
    if fresh:
        # nothing has been dumped or loaded before, and the loader module is not yet imported
        ctx.restart()
        sys.modules.pop("hickle.loaders.load_numpy", None)
    before = gc.isenabled()

    def work(i):
        def fn():
            if ops[i] == "dump":
                return hickle.dump(objs[i], files[i], "w")
            return hickle.load(files[i])
        return fn
    a, b = ctx.interleave(work(0), work(1), **k)
    after = gc.isenabled()
    for t, op in ((a, ops[0]), (b, ops[1])):
        ctx.check(t.error is None, "%s in one of two threads failed: %r" % (op, t.error))
    ctx.check(after == before, "garbage collector left %s" % ("enabled" if after else "disabled"))
    ctx.check(ctx.open_handles() == 0, "file left open")
    for i, t in ((0, a), (1, b)):
        equal(ctx, t.result if ops[i] == "load" else hickle.load(files[i]), objs[i], ops[i])
    # and nothing is left behind for the calls to come
    third = ctx.file("c.h5")
    for i in (1, 0):
        hickle.dump(objs[i], third, "w")
        if ops[i] == "dump":
            ctx.check(layout(ctx, files[i]) == layout(ctx, third), "stored in another way than by the same call alone")
    equal(ctx, hickle.load(third), objs[0], "later call")


def windows(step, count):
    return [[i * step, (i + 1) * step if i + 1 < count else None] for i in range(count)]


OPS = [["dump", "dump"], ["dump", "load"], ["load", "dump"], ["load", "load"]]


@scenario("C23", quick=grid(ops=OPS, window=windows(128, 10)), replays=20)
def one_switch(ctx, ops, window):
    run(ctx, ops, ("tree", "list"), False, False, window=window)


@scenario("C23", quick=grid(ops=OPS[:1], depth=[2], window=windows(8, 16)) + grid(ops=OPS[1:], depth=[1], window=windows(16, 4)),
          thorough=grid(ops=OPS, depth=[2, 3], window=windows(16, 16)), replays=20)
def two_switches(ctx, ops, depth, window):
    run(ctx, ops, ("list", "array"), False, False, depth1=depth, depth2=depth, window=window)


@scenario("C23", quick=grid(ops=[["dump", "dump"], ["load", "dump"]], window=windows(96, 6)), replays=20)
def first_use(ctx, ops, window):
    run(ctx, ops, ("array", "array"), False, True, window=window)


@scenario("C23", quick=grid(ops=[["dump", "dump"]], window=windows(256, 6)), replays=20)
def same_object(ctx, ops, window):
    run(ctx, ops, ("tree", "tree"), True, False, window=window)


def objects(ctx, mode):
    """arguments: files which stay open"""
    return [ctx.h5.File(ctx.directory(d) + "/f.h5", mode) for d in ("one", "two")]


@scenario("C23", quick=grid(ops=OPS, window=windows(128, 8), depth=[None]) + grid(ops=OPS, window=windows(12, 3), depth=[1]), replays=20,
          thorough=grid(ops=OPS, window=windows(12, 8), depth=[2]))
def open_files(ctx, ops, window, depth):
    """both threads use files opened by the caller, who goes on to use them"""
    hickle = ctx.hickle
    hs = objects(ctx, "w")
    try:
        objs = [content(ctx, "list", "a"), content(ctx, "array", "b")]
        for h, x, op in zip(hs, objs, ops):
            if op == "load":
                hickle.dump(x, h, path="x")

        def work(i):
            if ops[i] == "dump":
                return lambda: hickle.dump(objs[i], hs[i], path="x")
            return lambda: hickle.load(hs[i], path="x")
        k = {} if depth is None else {"depth1": depth, "depth2": depth}
        ts = ctx.interleave(work(0), work(1), window=window, **k)
        for i, t in enumerate(ts):
            ctx.check(t.error is None, "%s in one of two threads failed: %r" % (ops[i], t.error))
            ctx.check(bool(hs[i]), "file of the caller closed")
        for i, t in enumerate(ts):
            equal(ctx, t.result if ops[i] == "load" else hickle.load(hs[i], path="x"), objs[i], ops[i])
            hickle.dump(objs[1 - i], hs[i], path="y")
            equal(ctx, hickle.load(hs[i], path="y"), objs[1 - i], "later call")
    finally:
        for h in hs:
            h.close()
