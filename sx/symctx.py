"""Symbolic side of the scenario API and the exploration of one scenario."""
import gc
import sys
import time
import types
import contextlib
from itertools import islice
import traceback
import numpy as np
import z3
from . import sym, models, fakeh5
from .engine import Engine, EngineControl, PathAbort, Violation
from .sym import (SymInt, SymFloat, SymStr, SymBytes, SymComplex, SymArray, SymBool, zbool, zand, fp_to_py, FP64, FP32, FP16, CH)
from .models import SDict, SSet, SymMasked, SymSparse
from .harness import Ctx, Skip, enc, SCENARIOS, quiet, Snapshot
import warnings

MAXINT = 2 ** sym.INT_BITS


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        self.init()
        self.eng = eng
        self.inputs = {}       # name -> function returning the concrete value under the current model

    def _reg(self, name, fn):
        assert name not in self.inputs, name
        self.inputs[name] = fn

    def assignment(self):
        return {k: enc(f()) for k, f in self.inputs.items()}

    def _ev(self, e):
        return self.eng.value_of(e)

    # -- inputs -----------------------------------------------------------
    def int(self, name, lo=None, hi=None, cls=int):
        e = z3.Int(name)
        if issubclass(cls, np.generic):
            if cls is np.bool_:
                lo, hi = 0, 1
            else:
                info = np.iinfo(cls)
                lo = int(info.min) if lo is None else lo
                hi = int(info.max) if hi is None else hi
        self._reg(name, lambda: self._ev(e).as_long())
        self.eng.assume(z3.And(e >= (lo if lo is not None else -MAXINT + 1), e <= (hi if hi is not None else MAXINT - 1)))
        return SymInt(e, cls)

    def recast(self, x, cls):
        return type(x)(x.e, cls)

    def bool(self, name):
        e = z3.Bool(name)
        self._reg(name, lambda: z3.is_true(self._ev(e)))
        return self.eng.branch(e)

    def _fp(self, name, sort):
        """a float input; the NaN payload is not part of the value"""
        return z3.FP(name, sort)

    def float(self, name, cls=float):
        e = self._fp(name, sym.sort_of_float(cls))
        self._reg(name, lambda: fp_to_py(self._ev(e)))
        return SymFloat(e, cls)

    def complex(self, name, cls=complex):
        sort = FP64 if issubclass(cls, complex) and not issubclass(cls, np.generic) else {16: FP64, 8: FP32}[np.dtype(cls).itemsize]
        re, im = self._fp(name + ".re", sort), self._fp(name + ".im", sort)
        self._reg(name, lambda: [fp_to_py(self._ev(re)), fp_to_py(self._ev(im))])
        return SymComplex(re, im, cls)

    def _length(self, name, n, maxlen, minlen):
        if n is not None:
            return n
        return minlen + self._pick(name + ".len", maxlen - minlen + 1)

    def _pick(self, name, k):
        if k <= 1:
            return 0
        e = z3.Int(name)
        self.eng.assume(z3.And(e >= 0, e < k))
        for i in range(k - 1):
            if self.eng.branch(e == i):
                return i
        return k - 1

    def str(self, name, n=None, maxlen=None, minlen=0, surrogates=False, cls=str):
        n = self._length(name, n, maxlen, minlen)
        chars = [z3.BitVec("%s[%d]" % (name, i), CH) for i in range(n)]
        for c in chars:
            self.eng.assume(z3.ULE(c, 0x10FFFF))
            if not surrogates:
                self.eng.assume(z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)))
        self._reg(name, lambda: "".join(chr(self._ev(c).as_long()) for c in chars))
        return SymStr(chars, cls) if chars else ("" if cls is str else cls(""))

    def bytes(self, name, n=None, maxlen=None, minlen=0, cls=bytes):
        n = self._length(name, n, maxlen, minlen)
        bs = [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]
        self._reg(name, lambda: bytes(self._ev(b).as_long() for b in bs))
        return SymBytes(bs, cls) if bs else (b"" if cls is bytes else cls(b""))

    def choice(self, name, options):
        options = list(options)
        i = self._pick(name, len(options))
        self._reg(name, lambda: i)
        return options[i]

    def array(self, name, dtype, shape):
        dtype = np.dtype(dtype)
        n = int(np.prod(shape)) if shape else 1
        raw, ev = [], []
        for i in range(n):
            nm = "%s[%d]" % (name, i)
            k = dtype.kind
            if k in "iu":
                e = z3.Int(nm)
                info = np.iinfo(dtype)
                self.eng.assume(z3.And(e >= int(info.min), e <= int(info.max)))
                raw.append(e)
                ev.append(lambda e=e: self._ev(e).as_long())
            elif k == "b":
                e = z3.Int(nm)
                self.eng.assume(z3.And(e >= 0, e <= 1))
                raw.append(e)
                ev.append(lambda e=e: self._ev(e).as_long())
            elif k == "f":
                e = self._fp(nm, sym.sort_of_float(dtype.type))
                raw.append(e)
                ev.append(lambda e=e: fp_to_py(self._ev(e)))
            elif k == "c":
                sort = {16: FP64, 8: FP32}[dtype.itemsize]
                re, im = self._fp(nm + ".re", sort), self._fp(nm + ".im", sort)
                raw.append((re, im))
                ev.append(lambda re=re, im=im: [fp_to_py(self._ev(re)), fp_to_py(self._ev(im))])
            elif k == "S":
                bs = tuple(z3.BitVec("%s.%d" % (nm, j), 8) for j in range(dtype.itemsize))
                raw.append(bs)
                ev.append(lambda bs=bs: bytes(self._ev(b).as_long() for b in bs))
            elif k == "U":
                cs = tuple(z3.BitVec("%s.%d" % (nm, j), CH) for j in range(dtype.itemsize // 4))
                for c in cs:
                    self.eng.assume(z3.ULE(c, 0x10FFFF))
                    self.eng.assume(z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)))
                raw.append(cs)
                ev.append(lambda cs=cs: "".join(chr(self._ev(c).as_long()) for c in cs))
            else:
                raise TypeError(dtype)
        self._reg(name, lambda: [f() for f in ev])
        return SymArray(dtype, shape, raw)

    # -- containers ---------------------------------------------------------
    def dict(self, pairs, cls=dict):
        d = SDict(cls)
        for k, v in pairs:
            models.check_hashable(k)
            d[k] = v
        return d

    def set(self, items, cls=set):
        return SSet(cls, items)

    def masked(self, data, mask):
        return SymMasked(data, mask)

    def sparse(self, cls, data, indices, indptr, shape):
        return SymSparse(cls, data, indices, indptr, shape)

    # -- astropy --------------------------------------------------------------
    def quantity(self, cls, value, unit, dtype=None):
        from . import astro
        astro.install()
        return astro.make_quantity(cls, value, unit, dtype)

    def time(self, value, format, scale):
        from . import astro
        from astropy.time import Time
        astro.install()
        return astro.make_time(Time, value, format=format, scale=scale)

    def skycoord(self, lon, lat, unit):
        from . import astro
        from astropy.coordinates import SkyCoord
        astro.install()
        return astro.make_skycoord(SkyCoord, lon, lat, unit=unit)

    def constant(self, *a):
        from . import astro
        from astropy.constants import Constant
        astro.install()
        return astro.make_constant(Constant, *a)

    def table(self, *a, meta=None, **k):
        from . import astro
        from astropy.table import Table
        astro.install()
        return astro.make_table(Table, *a, meta=meta, **k)

    # -- judgement ----------------------------------------------------------
    def assume(self, cond):
        self.eng.assume(zbool(cond))

    def check(self, cond, msg):
        self.checks += 1
        cond = zbool(cond)
        if not self.eng.valid(cond):
            raise Violation(msg)

    def truth(self, cond):
        return sym.branch(cond)

    def repr(self, x):
        return models.m_repr(x)

    def text(self, x):
        return models.m_str(str, x)

    def np_array(self, items):
        r = models.np_array(items)
        return np.array(items) if r is NotImplemented else r

    def concrete(self, x):
        return sym.concrete(x, "scenario")

    # -- environment --------------------------------------------------------
    def file(self, name="f.h5"):
        return "/vfs/" + name

    def directory(self, name):
        fakeh5.W.made_dirs.add("/vfs/" + name)
        return "/vfs/" + name

    def write_file(self, path, content):
        fakeh5.W.files[path] = content

    def exists(self, path):
        return path in fakeh5.W.files or path in fakeh5.W.dirs()

    def file_state(self, path):
        if hasattr(path, "getvalue"):
            for o, s in fakeh5.W.objs:
                if o is path:
                    return (id(s), s.version)
            return path.getvalue()
        s = fakeh5.W.files.get(path)
        if s is None or isinstance(s, bytes):
            return s
        return (id(s), s.version)

    def open_handles(self):
        return len(fakeh5.W.open_files)

    def collect(self):
        gc.collect()

    @contextlib.contextmanager
    def faults(self, kind, index, exc, sticky=False):
        """the index-th operation of the given kind (or kinds) raises exc, also all later ones if sticky"""
        kinds = kind if isinstance(kind, tuple) else (kind,)
        state = {"fired": False, "count": 0}

        def hook(k):
            if k not in kinds:
                return
            n = state["count"]
            state["count"] = n + 1
            if (state["fired"] and sticky) or bool(index == n):
                state["fired"] = True
                raise exc("injected")
        fakeh5.W.fault = hook
        try:
            yield state
        finally:
            fakeh5.W.fault = None

    def restart(self):
        SNAP.restore()

    def interleave(self, first, second, depth1=0, depth2=None, window=(0, None)):
        """both as threads; the positions of the context switches are inputs s1, s2 -> the two threads"""
        from . import sched
        pos = {n: z3.Int(n) for n in ("s1", "s2")}
        found = {"s1": "", "s2": ""}
        lo, hi = window
        self.eng.assume(pos["s1"] >= lo)
        if hi is not None:
            self.eng.assume(pos["s1"] < hi)
        self.eng.assume(pos["s2"] >= 0)

        skip = {"s1": lo, "s2": 0}
        block = 16

        def decide(name, n, where):
            """is the switch before step n?  whole blocks of steps are excluded at once"""
            if n < skip[name]:
                return False
            if n == skip[name]:
                if self.eng.decide_fresh(pos[name] >= n + block):
                    skip[name] = n + block
                    return False
                skip[name + "end"] = n + block
            if n + 1 == skip[name + "end"] or self.eng.decide_fresh(pos[name] == n):
                found[name] = where
                return True
            return False
        for n in found:
            self._reg(n, lambda n=n: found[n])
        return sched.Schedule(decide, first, second, depth1, depth2).run()


# ---------------------------------------------------------------- compiled package
SNAP = None


def prepare(root="/repo"):
    """compile the package symbolically and import everything it may load lazily"""
    global SNAP
    from . import instrument
    fakeh5.install()
    instrument.install(root)
    import hickle          # noqa
    import importlib
    for n in ("load_builtins", "load_numpy", "load_scipy", "load_pandas", "load_astropy"):
        try:
            importlib.import_module("hickle.loaders." + n)
        except ImportError:
            pass
    try:
        with quiet():
            importlib.import_module("hickle.legacy_v3")
    except ImportError:
        pass
    SNAP = Snapshot("hickle")


def explore(key, params, deadline, max_paths, replay, max_replays=80, max_fail=3):
    """decide one scenario instance; replay(assignment) runs it on the real code"""
    s = SCENARIOS[key]
    max_replays = min(max_replays, s.replays)
    eng = Engine(max_paths=max_paths, deadline=deadline)
    res = {"scenario": key, "params": params, "violations": [], "mismatches": [], "replayed": 0, "labels": set(),
           "aborts": {}, "skip": None, "checks": 0, "samples": []}
    t0 = time.time()
    state = {"tries": 0, "aborted": 0}

    def run(e):
        e._fresh = 0
        models.reset_path_state()
        fakeh5.W.reset()
        SNAP.restore()
        ctx = SymCtx(e)
        gcstate = gc.isenabled()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s.fn(ctx, **params)
            return ("ok", ctx, "")
        except PathAbort as ex:
            r = str(ex)
            res["aborts"][r] = res["aborts"].get(r, 0) + 1
            if not r.startswith("assumption") and r != "deadline":
                e.note_incomplete("path aborted: " + r)
                return ("abort", ctx, r)
            return None
        except Violation as v:
            return ("fail", ctx, v.message)
        except Skip as ex:
            res["skip"] = str(ex)
            return None
        except EngineControl:
            raise
        except BaseException as ex:
            msg = "%s: %s" % (type(ex).__name__, safe_str(ex))
            msg += " @ " + " < ".join("%s:%s:%d" % (f.filename.rsplit("/", 1)[-1], f.name, f.lineno) for f in reversed(traceback.extract_tb(ex.__traceback__)[-6:]))
            return ("exc", ctx, msg)
        finally:
            sys.exc_clear() if hasattr(sys, "exc_clear") else None
            if gcstate:
                gc.enable()
            else:
                gc.disable()

    def on_path(outcome, e):
        status, ctx, msg = outcome
        res["labels"] |= ctx.reached
        res["checks"] += ctx.checks
        if res["skip"]:
            return True
        if status == "abort":
            # nothing is decided for this path, let at least some of its inputs show what happens
            if msg in ("depth", "unknown") or msg.startswith("no model"):
                return False
            for a in islice(e.witnesses(ctx.assignment), 12):
                if state["aborted"] >= 60:
                    break
                state["aborted"] += 1
                r = replay(a)
                res["replayed"] += 1
                if r["status"] in ("fail", "exc"):
                    res["violations"].append({"assignment": a, "message": r["msg"], "how": "input of a path which could not be decided (%s) fails on the real code" % msg})
                    return len(res["violations"]) >= max_fail
            return False
        try:
            a = ctx.assignment()
        except PathAbort:
            e.note_incomplete("no model for path")
            return False
        if status == "ok":
            if len(res["samples"]) < 3:
                res["samples"].append(a)
            if res["replayed"] >= max_replays:
                return False
            r = replay(a)
            res["replayed"] += 1
            if r["status"] in ("fail", "exc"):
                res["violations"].append({"assignment": a, "message": r["msg"], "how": "witness of a path the solver accepted fails on the real code"})
                return len(res["violations"]) >= max_fail
            if r["status"] == "skip":
                res["skip"] = r["msg"]
            return False
        state["tries"] += 1
        if state["tries"] > 40:
            e.note_incomplete("too many unreproduced candidates")
            return True
        r = replay(a)
        res["replayed"] += 1
        if r["status"] in ("fail", "exc"):
            res["violations"].append({"assignment": a, "message": r["msg"], "model_message": msg, "how": "counterexample of the solver, reproduced on the real code"})
            return len(res["violations"]) >= max_fail
        res["mismatches"].append({"assignment": a, "message": msg, "real": r})
        e.note_incomplete("counterexample of the model not reproduced by the real code")
        # the model is wrong about this path: it decides nothing, let some of its other inputs show what happens
        for b in islice(e.witnesses(ctx.assignment), 12):
            if state["aborted"] >= 60:
                break
            if b == a:
                continue
            state["aborted"] += 1
            r = replay(b)
            res["replayed"] += 1
            if r["status"] in ("fail", "exc"):
                res["violations"].append({"assignment": b, "message": r["msg"], "how": "input of a path on which the model differs from the real code (%s) fails on the real code" % msg})
                return len(res["violations"]) >= max_fail
        return False

    try:
        eng.explore(run, on_path)
    finally:
        gc.enable()
    res.update(paths=eng.paths, decisions=eng.decisions, queries=eng.queries, solver_time=eng.solver_time,
               discharged=eng.checks_discharged, unknowns=eng.unknowns, incomplete=eng.incomplete,
               exhausted=eng.exhausted and not eng.stack, executed=sorted(eng.executed), wall=time.time() - t0)
    res["labels"] = sorted(res["labels"])
    return res


def safe_str(ex):
    try:
        r = str(ex.args[0]) if ex.args and isinstance(ex.args[0], str) and not sym.is_sym(ex.args[0]) else repr(type(ex))
        return r[:300]
    except BaseException:
        return "?"
