"""C11: a failing dump or load reports the error and leaves no residue in the process."""
import gc
import io
import numpy as np
from sx.harness import scenario, grid, quiet, Skip
from scenarios.types_ import Plain, MyStr, MyList
from scenarios.custom_ import Holder, register
from scenarios.faulty_ import Boom, WontPickle, WontPickleBase, WontPickleMem, WontUnpickle

EXC = {"os": OSError, "runtime": RuntimeError, "value": ValueError, "key": KeyError, "memory": MemoryError, "type": TypeError, "interrupt": KeyboardInterrupt, "exit": SystemExit, "index": IndexError}


def obj(ctx, what):
    x = ctx.int("x", -9, 9)
    sh = ["s", x]
    a = np.empty((2,), object)
    a[0], a[1] = "t", [1, "u"]
    return {"int": lambda: x, "list": lambda: [x, "a", None], "dict": lambda: {"k": x, 5: b"b", (1, "t"): "v"}, "shared": lambda: [sh, sh, {"q": sh}], "plain": lambda: [Plain("v"), "z"],
            "array": lambda: np.arange(4), "objarray": lambda: a, "nested": lambda: {"a": [("t", [1, 2, 3], {"b": "c"})]}, "sub": lambda: MyList([MyStr("v"), x]),
            "masked": lambda: np.ma.array([1, 2], mask=[True, False]), "holder": lambda: Holder([1, "a"])}[what]()


class Target:
    def __init__(self, ctx, target, name="f.h5"):
        self.ctx, self.target, self.own = ctx, target, None
        fn = self.fn = ctx.file(name)
        if target == "name":
            self.arg = fn
        elif target == "file":
            self.own = self.arg = ctx.h5.File(fn, "a")
        elif target == "group":
            self.own = ctx.h5.File(fn, "a")
            self.arg = self.own["g"] if "g" in self.own else self.own.create_group("g")
        elif target == "mem":
            self.arg = io.BytesIO()
        self.held = ctx.open_handles()
        self.gc = gc.isenabled()

    def clean(self, when, e=None):
        ctx = self.ctx
        ctx.check(gc.isenabled() == self.gc, "state of the garbage collector changed after %s" % when)
        if self.own is not None:
            ctx.check(bool(self.own) and bool(self.arg), "handle of the caller closed by %s" % when)
            self.own.create_group("probe")
            del self.own["probe"]
        else:
            if self.target == "mem":
                ctx.check(not self.arg.closed, "file object of the caller closed by %s" % when)
            # even while the error is being handled
            ctx.check(ctx.open_handles() == self.held, "file left open by %s" % when)
        forget(e)
        ctx.check(ctx.open_handles() == self.held, "file left open by %s" % when)

    def done(self):
        if self.own is not None:
            self.own.close()


def attempt(fn, *a, **k):
    try:
        with quiet():
            return None, fn(*a, **k)
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        return e, None


def forget(e):
    """what the caller does once the error is handled"""
    while e is not None:
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


def later(ctx, t, path="later"):
    """the same file and another one can be used as if nothing had happened"""
    y = [ctx.int("y", -9, 9), "after", [Plain("w")]]
    with quiet():
        ctx.dump(y, t.arg, "a", path=path)
        ctx.check_same(ctx.load(t.arg, path=path), y, "object dumped after the failure differs")
        g = ctx.file("other.h5")
        ctx.dump(y, g)
        ctx.check_same(ctx.load(g), y, "object dumped to another file after the failure differs")
    t.clean("the calls after the failure")


OBJS = ["list", "dict", "shared", "plain", "nested"]
W_OPS = ["create_dataset", "create_group", "attr_set", "flush", "close", "open"]


@scenario("C11", quick=grid(op=W_OPS, what=OBJS, target=["name", "file"]) + grid(op=W_OPS, what=["list"], target=["group", "mem"]) + grid(op=W_OPS[:3], what=["sub", "objarray", "holder", "masked"], target=["name"]),
          thorough=grid(op=W_OPS, what=OBJS + ["int", "sub", "objarray", "holder", "array", "masked"], target=["name", "file", "group", "mem"]))
def dump_fault(ctx, op, what, target):
    if what == "holder":
        register(ctx)
    x = obj(ctx, what)
    state_of_gc, exc = ctx.choice("exc", [("on", "os"), ("off", "interrupt"), ("off", "type"), ("on", "key")])
    if state_of_gc == "off":
        gc.disable()
    try:
        t = Target(ctx, target)
        exc = EXC[exc]
        at = ctx.int("at", 0, 60)
        with ctx.faults(op, at, exc) as state:
            e, _ = attempt(ctx.dump, x, t.arg, "w" if target == "name" else "a", path="bad")
        if not state["fired"]:
            ctx.check(e is None, "dump failed: %r" % (e,))
            ctx.check_same(ctx.load(t.arg, path="bad"), x, "object differs")
            t.clean("dump")
        else:
            ctx.check(e is not None, "dump hides that %s failed" % op)
            ctx.check(isinstance(e, exc) and "injected" in str(e), "dump reports %r instead of the error of %s" % (e, op))
            if op != "close" or t.own is not None:
                t.clean("failed dump", e)
                later(ctx, t)
        t.done()
    finally:
        gc.enable()


@scenario("C11", quick=grid(what=["list", "dict", "shared", "plain"], target=["name", "file"]), thorough=grid(what=OBJS, target=["name", "file", "group", "mem"]))
def disk_full(ctx, what, target):
    """from some point on all writing operations fail, flush included"""
    x = obj(ctx, what)
    t = Target(ctx, target)
    at = ctx.int("at", 0, 60)
    with ctx.faults(("create_dataset", "create_group", "attr_set", "flush", "write"), at, OSError, sticky=True) as state:
        e, _ = attempt(ctx.dump, x, t.arg, "w" if target == "name" else "a", path="bad")
    if not state["fired"]:
        ctx.check(e is None, "dump failed: %r" % (e,))
    else:
        ctx.check(isinstance(e, OSError) and "injected" in str(e), "dump reports %r when the disk is full" % (e,))
    t.clean("dump", e)
    later(ctx, t)
    t.done()


R_OPS = ["read", "flush", "close", "open", "attr_get", "get"]


@scenario("C11", quick=grid(op=["read", "flush", "close"], what=OBJS, target=["name", "file"]) + grid(op=["attr_get", "get", "read"], what=["list", "dict", "shared"], target=["name", "mem"]) + grid(op=["open"], what=["list"], target=["name", "mem"]),
          thorough=grid(op=R_OPS, what=OBJS + ["int", "sub", "objarray", "masked", "holder"], target=["name", "file", "group", "mem"]))
def load_fault(ctx, op, what, target):
    if what == "holder":
        register(ctx)
    x = obj(ctx, what)
    state_of_gc, exc = ctx.choice("exc", [("on", "os"), ("off", "interrupt"), ("off", "index")])
    if state_of_gc == "off":
        gc.disable()
    try:
        t = Target(ctx, target)
        with quiet():
            ctx.dump(x, t.arg, "a", path="obj")
        exc = EXC[exc]
        at = ctx.int("at", 0, 60)
        with ctx.faults(op, at, exc) as state:
            e, r = attempt(ctx.load, t.arg, path="obj")
        if not state["fired"]:
            ctx.check(e is None, "load failed: %r" % (e,))
            ctx.check_same(r, x, "object differs")
        else:
            ctx.check(e is not None, "load hides that %s failed" % op)
            if op not in ("open", "close", "flush") and issubclass(exc, Exception):
                ctx.check(isinstance(e, ValueError) and isinstance(e.__cause__, exc) and "injected" in str(e.__cause__), "load reports %r instead of the error of %s" % (e, op))
            else:
                c = e if isinstance(e, exc) else e.__cause__
                ctx.check(isinstance(c, exc) and "injected" in str(c), "load reports %r instead of the error of %s" % (e, op))
        if not (state["fired"] and op == "close"):
            t.clean("load", e)
            ctx.check_same(ctx.load(t.arg, path="obj"), x, "object differs when it is loaded again")
            later(ctx, t)
        t.done()
    finally:
        gc.enable()


WHERE = ["top", "first", "last", "value", "key", "nested", "twice", "objarray"]


def place(where, bad):
    if where == "objarray":
        a = np.empty((2,), object)
        a[0], a[1] = [bad], 1
        return a
    return {"top": lambda: bad, "first": lambda: [bad, "a", 1], "last": lambda: ["a", {"k": 1}, bad], "value": lambda: {"a": 1, "b": bad}, "key": lambda: {("k", bad): 1, "a": 2},
            "nested": lambda: ["a", ({"q": ["b", bad]}, "t")], "twice": lambda: [[bad], [bad]]}[where]()


@scenario("C11", quick=grid(where=WHERE, target=["name", "file", "group", "mem"]))
def unpicklable(ctx, where, target):
    cls, exc = ctx.choice("bad", [(WontPickle, Boom), (WontPickleBase, KeyboardInterrupt), (WontPickleMem, MemoryError)])
    t = Target(ctx, target)
    e, _ = attempt(ctx.dump, place(where, cls()), t.arg, "w" if target == "name" else "a", path="bad")
    ctx.check(isinstance(e, exc) and "injected" in str(e), "dump of an object that cannot be stored reports %r" % (e,))
    t.clean("failed dump", e)
    later(ctx, t)
    t.done()


@scenario("C11", quick=grid(where=[w for w in WHERE if w != "key"], target=["name", "file", "group", "mem"]))
def fails_on_load(ctx, where, target):
    exc = EXC[ctx.choice("exc", ["os", "runtime", "value", "memory", "interrupt", "type", "key"])]
    t = Target(ctx, target)
    with quiet():
        ctx.dump(place(where, WontUnpickle(exc)), t.arg, "w" if target == "name" else "a", path="bad")
    t.clean("dump")
    e, r = attempt(ctx.load, t.arg, path="bad")
    if issubclass(exc, Exception):
        ctx.check(isinstance(e, ValueError) and isinstance(e.__cause__, exc), "load reports %r" % (e,))
    else:
        ctx.check(isinstance(e, exc), "load reports %r" % (e,))
    t.clean("failed load", e)
    later(ctx, t)
    t.done()


@scenario("C11", quick=grid(phase=["create", "items", "append", "convert"], where=["top", "last", "nested"], target=["name", "file"]))
def loader_fails(ctx, phase, where, target):
    """a loader of the application raises"""
    import sys
    exc = EXC[ctx.choice("exc", ["runtime", "interrupt", "index"])]
    lm = ctx.need(ctx.mod("hickle.lookup"), "LoaderManager")
    base = sys.modules["hickle.helpers"].PyContainer

    def create(py_obj, h_group, name, **kwargs):
        node = h_group.create_group(name)
        if phase == "create":
            raise exc("injected")

        def items():
            yield "a", "first", {}, kwargs
            if phase == "items":
                raise exc("injected")
        return node, items()

    class C(base):
        def append(self, name, item, attrs):
            if phase == "append":
                raise exc("injected")

        def convert(self):
            if phase == "convert":
                raise exc("injected")
    lm.register_class(Holder, b"failing", create, None, C, True, None)
    t = Target(ctx, target)
    e, _ = attempt(ctx.dump, place(where, Holder([1])), t.arg, "w" if target == "name" else "a", path="bad")
    if phase in ("create", "items"):
        ctx.check(isinstance(e, exc) and "injected" in str(e), "dump reports %r" % (e,))
        t.clean("failed dump", e)
    else:
        ctx.check(e is None, "dump failed %r" % (e,))
        e, r = attempt(ctx.load, t.arg, path="bad")
        if issubclass(exc, Exception):
            ctx.check(isinstance(e, ValueError) and isinstance(e.__cause__, exc), "load reports %r" % (e,))
        else:
            ctx.check(isinstance(e, exc), "load reports %r" % (e,))
        t.clean("failed load", e)
    later(ctx, t)
    t.done()


@scenario("C11", quick=grid(target=["name", "file", "group"]))
def unknown_option(ctx, target):
    """a dump refused because of its options does not spoil the path"""
    x = [ctx.int("x", -9, 9), "a"]
    t = Target(ctx, target)
    opts = ctx.choice("opts", [{"nonsense": True}, {"custom": True, "nonsense": True}, {"nonsense": 1, "custom": False}])
    path = ctx.choice("path", ["/", "p"])
    e, _ = attempt(ctx.dump, x, t.arg, "a", path=path, options=opts)
    ctx.check(isinstance(e, Exception), "unknown option accepted")
    t.clean("failed dump", e)
    e, _ = attempt(ctx.dump, x, t.arg, "a", path=path)
    if e is None:
        e, r = attempt(ctx.load, t.arg, path=path)
        ctx.check(e is None, "object dumped after a refused dump can not be loaded: %r" % (e,))
        ctx.check_same(r, x, "object dumped after a refused dump differs")
    later(ctx, t)
    t.done()


@scenario("C11", quick=grid(kind=["dump", "load"], target=["file", "group"]))
def repeated_failures(ctx, kind, target):
    """many failing calls in a row on one open file"""
    t = Target(ctx, target)
    x = [ctx.int("x", -9, 9), "a"]
    with quiet():
        ctx.dump(x, t.arg, "a", path="good")
        ctx.dump(["a", WontUnpickle(ValueError)], t.arg, "a", path="broken")
        keep = []
        for i in range(4):
            if kind == "dump":
                e = ctx.raises(ctx.dump, [x, [WontPickle()]], t.arg, "a", path="bad%d" % i)
                ctx.check(isinstance(e, Boom), "dump reports %r" % (e,))
            else:
                e = ctx.raises(ctx.load, t.arg, path=ctx.choice("p%d" % i, ["broken", "missing"]))
                ctx.check(isinstance(e, ValueError), "load reports %r" % (e,))
            if ctx.choice("keep%d" % i, [False, True]):
                keep.append(e)
            t.clean("failed call", None if keep and keep[-1] is e else e)
            ctx.check_same(ctx.load(t.arg, path="good"), x, "object stored before differs")
        later(ctx, t)
    t.done()
