"""Scenario API.

A scenario states a property as a little program over `ctx`.  The same program
is executed
  * symbolically: hickle's modules are compiled from /repo's source through
    sx.instrument, h5py is sx.fakeh5, inputs are z3 terms, `check` is decided
    by the solver for all values on the path;
  * concretely (replay): ordinary hickle from /repo, real h5py, inputs from an
    assignment found by the solver.
"""
import gc
import io
import os
import sys
import json
import time
import struct
import types
import warnings
import traceback
import contextlib
import numpy as np
from .same import same, num_same, all_, any_

SCENARIOS = {}


class Scenario:
    def __init__(self, prop, name, fn, quick, thorough, note, replays=10 ** 6):
        self.prop, self.name, self.fn, self.replays = prop, name, fn, replays
        self.quick, self.thorough, self.note = quick, thorough, note

    @property
    def key(self):
        return "%s/%s" % (self.prop, self.name)


def scenario(prop, quick=({},), thorough=None, note="", replays=10 ** 6):
    """register fn(ctx, **params); quick / thorough: iterable of parameter dicts"""
    def deco(fn):
        s = Scenario(prop, fn.__name__, fn, list(quick), list(thorough) if thorough is not None else None, note, replays)
        SCENARIOS[s.key] = s
        return fn
    return deco


def grid(**axes):
    out = [{}]
    for k, vs in axes.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Skip(BaseException):
    """scenario does not apply to the code as it is (e.g. helper does not exist)"""


# ---------------------------------------------------------------- json of values
def enc(v):
    if v is None or isinstance(v, (bool, str)) and not isinstance(v, np.generic):
        return v if not isinstance(v, str) else {"s": [ord(c) for c in v]}
    if isinstance(v, int):
        return {"i": str(v)}
    if isinstance(v, float):
        return {"f": struct.pack(">d", v).hex()}
    if isinstance(v, bytes):
        return {"b": v.hex()}
    if isinstance(v, (list, tuple)):
        return {"l": [enc(x) for x in v]}
    raise TypeError(type(v))


def dec(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "s":
            return "".join(map(chr, x))
        if k == "i":
            return int(x)
        if k == "f":
            return struct.unpack(">d", bytes.fromhex(x))[0]
        if k == "b":
            return bytes.fromhex(x)
        return [dec(y) for y in x]
    return v


def show(assignment):
    return {k: repr(dec(v)) for k, v in assignment.items()}


# ---------------------------------------------------------------- shared part
class Ctx:
    symbolic = False

    def init(self):
        self.checks = 0
        self.labels = []
        self.reached = set()

    # -- values -----------------------------------------------------------
    def same(self, a, b, numeric="auto"):
        return same(a, b, numeric)

    def check_same(self, a, b, msg, numeric="auto"):
        self.check(same(a, b, numeric), msg)

    def label(self, text):
        self.reached.add(text)

    # -- hickle -----------------------------------------------------------
    @property
    def hickle(self):
        return sys.modules["hickle"]

    @property
    def h5(self):
        return sys.modules["h5py"]

    def mod(self, name):
        import importlib
        try:
            return importlib.import_module(name)
        except ImportError as e:
            raise Skip("module %s missing: %s" % (name, e))

    def need(self, obj, *names):
        for n in names:
            if not hasattr(obj, n):
                raise Skip("%r has no %s" % (getattr(obj, "__name__", obj), n))
            obj = getattr(obj, n)
        return obj

    def dump(self, obj, f, mode="w", **kw):
        self.hickle.dump(obj, f, mode, **kw)

    def load(self, f, **kw):
        return self.hickle.load(f, **kw)

    def roundtrip(self, obj, name="r.h5", **kw):
        f = self.file(name)
        with quiet():
            self.hickle.dump(obj, f, "w", **kw)
            return self.hickle.load(f)

    def raises(self, fn, *a, **k):
        """-> exception or None"""
        try:
            with quiet():
                fn(*a, **k)
        except Exception as e:
            return e
        return None

    def tree(self, node, data=True):
        """structural snapshot of a group or dataset"""
        h5 = self.h5

        def value(v):
            if isinstance(v, h5.Reference):
                if not v:
                    return ("ref", None)
                return ("ref", node.file[v].name)
            if isinstance(v, h5.Empty):
                return ("empty", str(v.dtype))
            return v
        attrs = [(k, value(node.attrs[k])) for k in node.attrs]
        if isinstance(node, h5.Group):
            return ("group", attrs, [(k, self.tree(node[k], data)) for k in node])
        return ("dataset", attrs, str(node.dtype), node.shape, value(node[()]) if data else None)

    @contextlib.contextmanager
    def warnings(self):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield w


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# ---------------------------------------------------------------- global state of the code under test
class Snapshot:
    """containers reachable from the modules and classes of the package (two levels)"""

    def __init__(self, package):
        self.items = []
        self.names = []
        seen = set()

        def add(c, depth):
            if id(c) in seen or type(c) not in (dict, set, list):
                return
            seen.add(id(c))
            self.items.append((c, c.copy()))
            if depth and type(c) is dict:
                for v in list(c.values()):
                    add(v, depth - 1)
        for name, m in list(sys.modules.items()):
            if name != package and not name.startswith(package + "."):
                continue
            if m is None:
                continue
            self.names.append((m, dict(vars(m))))
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                add(v, 2)
                if isinstance(v, type) and (v.__module__ or "").startswith(package):
                    for kk, vv in list(vars(v).items()):
                        add(vv, 2)

    def restore(self):
        for c, copy in self.items:
            if c != copy or len(c) != len(copy) or (type(c) is dict and list(c) != list(copy)):
                if type(c) is list:
                    c[:] = copy
                else:
                    c.clear()
                    c.update(copy)


# ---------------------------------------------------------------- concrete
class RealCtx(Ctx):
    def __init__(self, assignment, scratch):
        self.init()
        self.a = {k: dec(v) for k, v in assignment.items()}
        self.scratch = scratch
        self.snap = Snapshot("hickle")

    def _get(self, name, default):
        return self.a.get(name, default)

    def int(self, name, lo=None, hi=None, cls=int):
        v = self._get(name, lo if lo is not None else 0)
        return v if cls is int else cls(v)

    def bool(self, name):
        return bool(self._get(name, False))

    def float(self, name, cls=float):
        v = self._get(name, 0.0)
        return v if cls is float else cls(v)

    def complex(self, name, cls=complex):
        v = self._get(name, [0.0, 0.0])
        c = complex(*v)
        return c if cls is complex else cls(c)

    def str(self, name, n=None, maxlen=None, minlen=0, surrogates=False, cls=str):
        v = self._get(name, "\0" * (n or minlen))
        return v if cls is str else cls(v)

    def bytes(self, name, n=None, maxlen=None, minlen=0, cls=bytes):
        v = self._get(name, b"\0" * (n or minlen))
        return v if cls is bytes else cls(v)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def array(self, name, dtype, shape):
        dtype = np.dtype(dtype)
        n = int(np.prod(shape)) if shape else 1
        raw = self._get(name, None)
        a = np.zeros((n,), dtype)
        if raw is not None:
            for i, r in enumerate(raw):
                if dtype.kind == "c":
                    a[i] = dtype.type(complex(*r))
                elif dtype.kind == "S":
                    a[i] = r
                else:
                    a[i] = r
        return a.reshape(shape)

    def dict(self, pairs, cls=dict):
        d = dict(pairs)
        return d if cls is dict else cls(d)

    def set(self, items, cls=set):
        return cls(items)

    def recast(self, x, cls):
        """number x as instance of cls"""
        return cls(x)

    def masked(self, data, mask):
        return np.ma.array(data, mask=mask)

    def sparse(self, cls, data, indices, indptr, shape):
        return cls((data, indices, indptr), shape=shape)

    def quantity(self, cls, value, unit, dtype=None):
        return cls(value, unit) if dtype is None else cls(value, unit, dtype=dtype)

    def time(self, value, format, scale):
        from astropy.time import Time
        return Time(value, format=format, scale=scale)

    def skycoord(self, lon, lat, unit):
        from astropy.coordinates import SkyCoord
        return SkyCoord(lon, lat, unit=unit)

    def constant(self, *a):
        from astropy.constants import Constant
        return Constant(*a)

    def table(self, *a, **k):
        from astropy.table import Table
        return Table(*a, **k)

    def interleave(self, first, second, depth1=0, depth2=None, window=(0, None)):
        from . import sched
        return sched.Schedule(lambda name, n, where: self._get(name, "") == where, first, second, depth1, depth2, patience=1.0).run()

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise CheckFailed(msg)

    def truth(self, cond):
        return bool(cond)

    def repr(self, x):
        return repr(x)

    def text(self, x):
        return str(x)

    def np_array(self, items):
        return np.array(items)

    def concrete(self, x):
        return x

    def file(self, name="f.h5"):
        return os.path.join(self.scratch, name)

    def directory(self, name):
        path = os.path.join(self.scratch, name)
        os.makedirs(path, exist_ok=True)
        return path

    def write_file(self, path, content):
        with open(path, "wb") as f:
            f.write(content)

    def exists(self, path):
        return os.path.exists(path)

    def file_state(self, path):
        """something that changes whenever the stored file changes"""
        if hasattr(path, "getvalue"):
            return path.getvalue()
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    def open_handles(self):
        import h5py
        return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)

    def collect(self):
        gc.collect()

    def restart(self):
        """registries of the package as in a process which just imported it"""
        self.snap.restore()

    @contextlib.contextmanager
    def faults(self, kind, index, exc, sticky=False):
        """the index-th operation of the given kind (or kinds) raises exc, also all later ones if sticky"""
        kinds = kind if isinstance(kind, tuple) else (kind,)
        import h5py
        from h5py._hl.attrs import AttributeManager
        state = {"depth": 0, "fired": False, "count": 0}
        targets = {
            "create_dataset": [(h5py.Group, "create_dataset")], "create_group": [(h5py.Group, "create_group")],
            "attr_set": [(AttributeManager, "create")], "read": [(h5py.Dataset, "__getitem__")],
            "write": [(h5py.Dataset, "__setitem__")], "flush": [(h5py.File, "flush")], "close": [(h5py.File, "close")],
            "open": [(h5py.File, "__init__")], "attr_get": [(AttributeManager, "__getitem__")], "get": [(h5py.Group, "__getitem__")],
        }
        undo = []
        for k, lst in targets.items():
            for cls, name in lst:
                orig = cls.__dict__[name]

                def wrap(orig=orig, k=k):
                    def inner(*a, **kw):
                        top = state["depth"] == 0
                        if top and k in kinds and not (k == "open" and len(a) > 1 and isinstance(a[1], h5py.h5g.GroupID)):
                            n = state["count"]
                            state["count"] = n + 1
                            if (state["fired"] and sticky) or n == index:
                                state["fired"] = True
                                raise exc("injected")
                        state["depth"] += 1
                        try:
                            return orig(*a, **kw)
                        finally:
                            state["depth"] -= 1
                    return inner
                setattr(cls, name, wrap())
                undo.append((cls, name, orig))
        try:
            yield state
        finally:
            for cls, name, orig in undo:
                setattr(cls, name, orig)


def run_real(key, params, assignment, scratch):
    s = SCENARIOS[key]
    ctx = RealCtx(assignment, scratch)
    status, msg = "ok", ""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.fn(ctx, **params)
    except CheckFailed as e:
        status, msg = "fail", str(e)
    except AssumeFailed:
        status = "assume"
    except Skip as e:
        status, msg = "skip", str(e)
    except SystemExit:
        raise
    except BaseException as e:
        status, msg = "exc", "%s: %s" % (type(e).__name__, str(e)[:300])
        msg += " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
    return {"status": status, "msg": msg, "checks": ctx.checks, "labels": sorted(ctx.reached)}
