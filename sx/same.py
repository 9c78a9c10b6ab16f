"""`same(a, b)`: is b what a user who stored a expects to get back.

Works on ordinary values (result: bool) and on symbolic ones (result: bool or
z3 condition).  NaN is the same as NaN, 0.0 is not the same as -0.0.
numeric=True compares numbers by value irrespective of their class,
numeric="auto" (default) does so for the items of lists, tuples and sets that
consist of numbers only (hickle stores them as one array).
"""
import sys
import math
import struct
import numpy as np

SCALARS = (bool, int, float, complex, np.number, np.bool_)


def _sym():
    return sys.modules.get("sx.sym")


def _is_sym(x):
    s = _sym()
    return s is not None and s.is_sym(x)


def all_(conds):
    out = []
    for c in conds:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return _sym().zand(*out)


def any_(conds):
    out = []
    for c in conds:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return _sym().zor(*out)


def is_num(x):
    s = _sym()
    if s is not None and s.is_sym(x):
        return s.is_num(x)
    return isinstance(x, SCALARS)


def fsame(x, y):
    x, y = float(x), float(y)
    return struct.pack("<d", x) == struct.pack("<d", y) or (x != x and y != y)


def num_same(a, b, bits=True):
    """same numerical value"""
    if _is_sym(a) or _is_sym(b):
        s = _sym()
        if s.is_int_like(a) and s.is_int_like(b):
            r = s.int_expr(a) == s.int_expr(b)
            return r if s.is_z3(r) else bool(r)
        if s.is_cplx(a) or s.is_cplx(b):
            ar, ai = s.cplx_parts(a)
            br, bi = s.cplx_parts(b)
            return all_([num_same(ar, br, bits), num_same(ai, bi, bits)])
        if s.is_int_like(a) or s.is_int_like(b):
            return s.zbool(s.mixed_eq(a, b))
        r = s.raw_feq(s.float_raw(a), s.float_raw(b), True)
        if bits:
            return r
        r2 = s.raw_feq(s.float_raw(a), s.float_raw(b), False)
        return any_([s.zbool(r), s.zbool(r2)])
    if isinstance(a, (np.longdouble, np.clongdouble)) or isinstance(b, (np.longdouble, np.clongdouble)):
        return bool(a == b or (a != a and b != b))
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a) if not isinstance(a, int) else a, complex(b) if not isinstance(b, int) else b
        if isinstance(a, int) or isinstance(b, int):
            return a == b
        if bits:
            return fsame(a.real, b.real) and fsame(a.imag, b.imag)
        return num_same(a.real, b.real, False) and num_same(a.imag, b.imag, False)
    if isinstance(a, float) and isinstance(b, float):
        return fsame(a, b) or (not bits and a == b)
    return a == b


def dtype_same(a, b):
    return a == b and a.names == b.names


def array_same(a, b):
    if not dtype_same(a.dtype, b.dtype) or tuple(a.shape) != tuple(b.shape):
        return False
    if _is_sym(a) or _is_sym(b):
        s = _sym()
        a, b = s.to_symarray(a), s.to_symarray(b)
        if a.blob is not None or b.blob is not None:
            return s.zbool(s.raw_bytes(a) == s.raw_bytes(b))
        ea, eb = a._need_elems(), b._need_elems()
        if len(ea) != len(eb):
            return False
        out = []
        for x, y in zip(ea, eb):
            k = a.dtype.kind
            if k in "iub":
                r = x == y
                out.append(r if s.is_z3(r) else bool(r))
            elif k == "f":
                out.append(s.zbool(s.raw_feq(x, y, True)))
            elif k == "c":
                out.append(s.zbool(s.raw_feq(x[0], y[0], True)))
                out.append(s.zbool(s.raw_feq(x[1], y[1], True)))
            elif k in "SU":
                for p, q in zip(x, y):
                    r = p == q
                    out.append(r if s.is_z3(r) else bool(r))
            else:
                out.append(same(x, y, True))
        return all_(out)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.names is not None:
        return all(array_same(np.ascontiguousarray(a[n]), np.ascontiguousarray(b[n])) for n in a.dtype.names)
    if a.dtype.kind == "O":
        return all_([same(x, y, True) for x, y in zip(list(a.ravel()), list(b.ravel()))])
    if a.dtype.kind in "fc":
        an, bn = a != a, b != b
        if a.dtype.kind == "f":
            return bool(np.array_equal(an, bn) and np.array_equal(a[~an], b[~bn]) and np.array_equal(np.signbit(a[~an]), np.signbit(b[~bn])))
        return array_same(np.ascontiguousarray(a.real), np.ascontiguousarray(b.real)) and array_same(np.ascontiguousarray(a.imag), np.ascontiguousarray(b.imag))
    return bool(a.tobytes() == b.tobytes())


def same(a, b, numeric="auto", seen=None):
    if seen is None:
        seen = set()
    key = (id(a), id(b))
    if key in seen:
        return True
    if is_num(a) and is_num(b):
        if numeric is not True and a.__class__ is not b.__class__:
            return False
        return num_same(a, b)
    ca, cb = a.__class__, b.__class__
    if ca is not cb:
        return False
    if a is b and not _is_sym(a):
        return True
    if isinstance(a, (str, bytes)):
        r = a == b
        s = _sym()
        return s.zbool(r) if s is not None else bool(r)
    seen = seen | {key}
    if isinstance(a, (list, tuple, set, frozenset)) and numeric == "auto" and all(is_num(x) for x in a) and all(is_num(x) for x in b):
        numeric = True
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return all_([same(x, y, numeric, seen) for x, y in zip(list.__iter__(a) if isinstance(a, list) else tuple.__iter__(a), b)])
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        la, lb = list(a), list(b)
        return all_([any_([same(x, y, numeric, seen) for y in lb]) for x in la] + [any_([same(x, y, numeric, seen) for x in la]) for y in lb])
    if isinstance(a, dict):
        pa, pb = list(a.items()), list(b.items())
        if len(pa) != len(pb):
            return False
        return all_([same(k, l, numeric, seen) for (k, _), (l, _) in zip(pa, pb)] + [same(v, w, numeric, seen) for (_, v), (_, w) in zip(pa, pb)])
    if isinstance(a, np.dtype):
        return dtype_same(a, b)
    if isinstance(a, np.ma.MaskedArray):
        return masked_same(a, b)
    if isinstance(a, np.ndarray):
        return array_same(a, b)
    if isinstance(a, np.generic):
        if a.dtype.names is not None or a.dtype.kind == "V":
            return a.dtype == b.dtype and array_same(np.asarray(a), np.asarray(b)) if a.dtype.names else a.tobytes() == b.tobytes()
        return bool(a == b)
    if isinstance(a, type):
        return a is b
    if hasattr(a, "indptr"):
        return all_([tuple(a.shape) == tuple(b.shape), a.dtype == b.dtype] + [array_same(getattr(a, n), getattr(b, n)) for n in ("data", "indices", "indptr")])
    da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
    if type(a).__eq__ is not object.__eq__:
        try:
            return bool(a == b)
        except Exception:
            pass
    if da is not None:
        return same(dict(da), dict(db), numeric, seen)
    return False


def masked_same(a, b):
    """dtype, shape, mask and the values that are not masked out"""
    if a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
        return False
    if _is_sym(a) or _is_sym(b):
        s = _sym()
        shape = tuple(a.shape)
        n = int(np.prod(shape)) if shape else 1

        def mask_of(x):
            m = x.mask
            if s.is_sym(m):
                e = s.to_symarray(m)._need_elems()
            else:
                m = np.asarray(m)
                e = [int(v) for v in m.reshape(-1)]
            return e * n if len(e) == 1 and n != 1 else e
        ma, mb = mask_of(a), mask_of(b)
        da, db = s.to_symarray(a.data), s.to_symarray(b.data)
        if len(ma) != n or len(mb) != n:
            return False
        out = []
        for i in range(n):
            r = ma[i] == mb[i]
            out.append(r if s.is_z3(r) else bool(r))
            masked = ma[i] != 0
            masked = masked if s.is_z3(masked) else bool(masked)
            one = array_same(s.SymArray(da.dtype, (1,), [da.elems[i]]), s.SymArray(db.dtype, (1,), [db.elems[i]]))
            out.append(any_([masked, one]))
        return all_(out)
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    return bool(np.array_equal(ma, mb)) and array_same(np.asarray(a.data)[~ma] if a.shape else np.where(ma, 0, a.data), np.asarray(b.data)[~mb] if b.shape else np.where(mb, 0, b.data))
